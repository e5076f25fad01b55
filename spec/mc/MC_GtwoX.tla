---- MODULE MC_GtwoX ----
EXTENDS Gates
MCStarts == {0,1}
====
