---- MODULE MC_Numberx ----
\* written by tools/mkmc.py
EXTENDS NumberTable
MCBases == {4}
MCOffs == -4..4
MCKindsN == <<"look", "ref", "gc">>
====
