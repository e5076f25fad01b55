---- MODULE MC_Gnamed ----
EXTENDS Gates
MCStarts == {0}
====
