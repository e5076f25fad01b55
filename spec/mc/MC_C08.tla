---- MODULE MC_C08 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "vzero", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "vadd", "vadd", "madd", "madd", "mv", "mv", "mv", "mm", "mm", "vkron", "mkron", "vkrons", "mkrons", "mext", "mtrans", "madj", "scal", "inner", "fid", "fidm", "expv", "trace", "ptrace", "isid", "vdel", "mdel", "vser", "mser", "vtransfer", "mtransfer", "manc", "mgarb", "vgarb", "minit", "probs", "meas", "gc", "clear", "churn", "xref", "unxref", "fill", "vread", "mread", "dinit", "dapply", "dapply", "dprobs">>
MCWidths == 1..3
MCCaps == {4}
MCGates == 1..Len(AllGates)
====
