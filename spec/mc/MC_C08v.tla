---- MODULE MC_C08v ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mperm", "vbasis", "vbasis", "vadd", "vadd", "mv", "mv", "mv", "inner", "gc", "gc", "vbasis", "vbasis", "vadd", "vadd", "mv", "mv", "mv", "inner", "gc", "gc", "vbasis", "vbasis", "vadd", "vadd", "mv", "mv", "mv", "inner", "gc", "gc", "vbasis", "vbasis", "vadd", "vadd", "mv", "mv", "mv", "inner", "gc", "gc">>
MCWidths == 1..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
