---- MODULE MC_C14 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "mv", "mm", "vkron", "mkron", "mext", "vdel", "mdel", "madj", "manc", "gc", "vtransfer", "mtransfer", "vtrano", "mtrano", "vtransfer", "mtransfer", "vtrano", "mtrano", "vtransfer", "mtransfer", "vtrano", "mtrano", "vtransfer", "mtransfer", "vtrano", "mtrano", "vtransfer", "mtransfer", "vtrano", "mtrano", "vtransfer", "mtransfer", "vtrano", "mtrano">>
MCWidths == 1..5
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
