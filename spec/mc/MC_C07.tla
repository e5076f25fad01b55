---- MODULE MC_C07 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "vshare", "vzero", "vstate", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "mid", "vadd", "mv", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "vread", "mread", "vdel", "mdel", "vuneven", "muneven", "scal", "vread", "mread", "vdel", "mdel", "vuneven", "muneven", "scal", "vread", "mread", "vdel", "mdel", "vuneven", "muneven", "scal">>
MCWidths == 1..4
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
