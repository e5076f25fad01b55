---- MODULE MC_C08g ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vbasis", "vbasis", "mperm", "mperm", "mperm", "mid", "inner", "inner", "inner", "fid", "vkron", "mkron", "mv", "mv", "mm", "mm", "mtrans", "madj", "vkrons", "mkrons", "mext", "dinit", "dapplym", "dapplym", "dkeep", "dadd", "dadd", "gc", "gc", "gc", "gc">>
MCWidths == 1..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
