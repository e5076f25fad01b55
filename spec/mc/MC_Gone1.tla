---- MODULE MC_Gone1 ----
EXTENDS Gates
MCStarts == {0}
====
