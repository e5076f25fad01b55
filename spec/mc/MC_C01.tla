---- MODULE MC_C01 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "vzero", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "scal", "inner", "fid", "fidm", "expv", "trace", "ptrace", "isid", "vdel", "mdel", "vser", "mser", "vtransfer", "mtransfer", "manc", "mgarb", "vgarb", "minit", "probs", "meas", "gc", "clear", "churn", "xref", "unxref", "vprop", "vprop", "mprop", "mprop", "vuneven", "muneven">>
MCWidths == 1..4
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
