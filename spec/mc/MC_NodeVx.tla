---- MODULE MC_NodeVx ----
\* written by tools/mkmc.py
EXTENDS NodeStore
MCKindsS == <<"node", "ref", "unref", "gc">>
====
