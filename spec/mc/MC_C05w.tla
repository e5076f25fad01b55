---- MODULE MC_C05w ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mperm", "munit", "mgate", "mid", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj">>
MCWidths == 3..5
MCCaps == {6}
MCGates == 1..Len(AllGates)
====
