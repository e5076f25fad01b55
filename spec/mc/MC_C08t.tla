---- MODULE MC_C08t ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"mmat", "mmat", "munit", "munit", "mherm", "mgate", "mtrans", "mtrans", "madj", "mtrans", "mtrans", "madj", "mtrans", "mtrans", "madj", "gc">>
MCWidths == 1..3
MCCaps == {3}
MCGates == 1..Len(AllGates)
====
