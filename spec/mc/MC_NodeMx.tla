---- MODULE MC_NodeMx ----
\* written by tools/mkmc.py
EXTENDS NodeStore
MCKindsS == <<"node", "ref", "unref", "gc">>
====
