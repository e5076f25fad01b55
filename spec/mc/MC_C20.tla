---- MODULE MC_C20 ----
\* written by tools/mkmc.py
EXTENDS Requests
MCKinds == <<"vbasis", "vstate", "vvec", "vunit", "mmat", "mmat", "mperm", "mherm", "munit", "mid", "mgate", "mgate", "vadd", "mv", "mm", "vkron", "mkron", "mtrans", "vdel", "mdel", "vread", "mread", "gc", "meas", "resize", "rqzero", "rqdens", "rqbits", "rqstate", "rqstates", "rqgate", "rqgate2", "rqvec", "rqvec", "rqmat", "rqmat", "rqresize", "rqmeasall", "rqmeaszero", "rqmeasone", "rqexpv", "rqrelease", "rqfile", "rqfile", "rqfile", "rqfile", "rqpath", "rqzero", "rqdens", "rqbits", "rqstate", "rqstates", "rqgate", "rqgate2", "rqvec", "rqvec", "rqmat", "rqmat", "rqresize", "rqmeasall", "rqmeaszero", "rqmeasone", "rqexpv", "rqrelease", "rqfile", "rqfile", "rqfile", "rqfile", "rqpath", "rqnew", "rqdprob">>
MCWidths == 1..4
MCCaps == {3, 4}
MCGates == 1..Len(AllGates)
====
