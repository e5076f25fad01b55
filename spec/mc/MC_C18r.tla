---- MODULE MC_C18r ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vvec", "vstate", "mmat", "mperm", "munit", "mgate", "vadd", "vadd", "madd", "madd", "mv", "mm", "vkron", "mkron", "mext", "mtrans", "madj", "inner", "inner", "dinit", "dapplym", "dapply", "dapply", "dkeep", "dadd", "dadd", "reset", "reset", "reset", "reset", "reset">>
MCWidths == 1..3
MCCaps == {3}
MCGates == 1..Len(AllGates)
====
