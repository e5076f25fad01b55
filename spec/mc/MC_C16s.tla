---- MODULE MC_C16s ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"munit", "mperm", "mmat", "mherm", "dinit", "dapply", "dapply", "dapply", "dapply", "dapply", "dapply", "dapplym", "dkeep", "dkeep", "dadd", "dadd", "dprobs", "gc">>
MCWidths == 1..3
MCCaps == {3}
MCGates == 1..Len(AllGates)
====
