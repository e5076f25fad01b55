---- MODULE MC_Numberf ----
\* written by tools/mkmc.py
EXTENDS NumberTable
MCBases == {0, 2, 4}
MCOffs == -2..2
MCKindsN == <<"look", "ref", "unref", "sat", "gc", "clear">>
====
