---- MODULE MC_C13 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "mv", "mm", "vkron", "mkron", "mext", "vdel", "mdel", "madj", "manc", "gc", "vser", "mser", "vsero", "msero", "vser", "mser", "vsero", "msero", "vser", "mser", "vsero", "msero", "vser", "mser", "vsero", "msero", "vser", "mser", "vsero", "msero", "vser", "mser", "vsero", "msero">>
MCWidths == 1..5
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
