---- MODULE MC_Numbers ----
\* written by tools/mkmc.py
EXTENDS NumberTable
MCBases == 0..12
MCOffs == -40..40
MCKindsN == <<"look", "look", "look", "look", "look", "look", "ref", "ref", "unref", "gc", "agc", "look", "look", "sat", "reffixed", "clear", "gc">>
====
