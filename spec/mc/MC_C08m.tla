---- MODULE MC_C08m ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mperm", "mperm", "mperm", "mv", "mv", "gc", "gc">>
MCWidths == 1..2
MCCaps == {2}
MCGates == 1..Len(AllGates)
====
