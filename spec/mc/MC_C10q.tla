---- MODULE MC_C10q ----
\* written by tools/mkmc.py
EXTENDS Requests
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "mv", "mm", "vkron", "mkron", "mtrans", "madj", "vdel", "mdel", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons", "rqcons">>
MCWidths == 1..4
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
