---- MODULE MC_C16b ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mperm", "munit", "mherm", "mmat", "dinit", "dapply", "dapply", "dapplym", "dapplym", "dprobs">>
MCWidths == 4..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
