---- MODULE MC_C15 ----
\* written by tools/mkmc.py
EXTENDS DDPackage
MCKinds == <<"vunit", "vunit", "vshare", "vshare", "vshare", "vbasis", "vstate", "munit", "mgate", "mv", "probs", "meas", "meas", "measall", "measstat", "fill">>
MCWidths == 1..5
MCCaps == {5}
MCGates == 1..Len(AllGates)
====
