---- MODULE MC_Gone2 ----
EXTENDS Gates
MCStarts == {1,3}
====
