---- MODULE MC_C16 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"munit", "mperm", "mmat", "mherm", "dinit", "dapply", "dapply", "dapply", "dapply", "dapply", "dapply", "dapplym", "dapplym", "dprobs", "gc">>
MCWidths == 1..3
MCCaps == {3}
MCGates == 1..Len(AllGates)
====
