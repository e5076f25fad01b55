---- MODULE MC_GoneX ----
EXTENDS Gates
MCStarts == {0}
====
