---- MODULE MC_C17 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "mperm", "mperm", "munit", "munit", "vbasis", "vunit", "vunit", "mv", "mv", "mm", "madj", "mkron", "mext", "manc", "mgarb", "vgarb", "minit", "manc", "mgarb", "vgarb", "manc", "mgarb", "vgarb", "minit", "manc", "mgarb", "vgarb", "manc", "mgarb", "vgarb", "minit", "manc", "mgarb", "vgarb">>
MCWidths == 1..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
