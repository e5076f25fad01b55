---- MODULE MC_NodeMf ----
\* written by tools/mkmc.py
EXTENDS NodeStore
MCKindsS == <<"node", "ref", "unref", "sat", "gc", "clear">>
====
