---- MODULE MC_C22 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "mv", "mm", "vkron", "mkron", "vdel", "mdel", "madj", "vexport", "mexport", "vexport", "mexport", "vexpo", "mexpo", "vexport", "mexport", "vexport", "mexport", "vexpo", "mexpo", "vexport", "mexport", "vexport", "mexport", "vexpo", "mexpo">>
MCWidths == 1..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
