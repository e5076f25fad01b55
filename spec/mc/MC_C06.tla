---- MODULE MC_C06 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "vunit", "vunit", "isid", "isid", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "mid", "munit", "mperm", "vadd", "mv", "mm", "mtrans", "madj", "mkron", "scal", "inner", "fid", "fidm", "expv", "trace", "ptrace", "isid", "scal", "inner", "fid", "fidm", "expv", "trace", "ptrace", "isid", "scal", "inner", "fid", "fidm", "expv", "trace", "ptrace", "isid">>
MCWidths == 1..4
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
