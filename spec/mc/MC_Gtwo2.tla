---- MODULE MC_Gtwo2 ----
EXTENDS Gates
MCStarts == {1,2}
====
