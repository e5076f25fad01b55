---- MODULE MC_C09d ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mperm", "mperm", "munit", "mmat", "dinit", "dapplym", "dapplym", "dapplym", "dapplym", "dapply", "gc", "gc">>
MCWidths == 1..3
MCCaps == {3}
MCGates == 1..Len(AllGates)
====
