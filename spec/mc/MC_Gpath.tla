---- MODULE MC_Gpath ----
EXTENDS Gates
MCStarts == {0}
====
