---- MODULE MC_NodeVf ----
\* written by tools/mkmc.py
EXTENDS NodeStore
MCKindsS == <<"node", "ref", "unref", "sat", "gc", "clear">>
====
