---- MODULE MC_Gtwo1 ----
EXTENDS Gates
MCStarts == {0}
====
