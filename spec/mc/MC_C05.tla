---- MODULE MC_C05 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "scal", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj">>
MCWidths == 1..3
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
