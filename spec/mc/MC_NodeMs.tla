---- MODULE MC_NodeMs ----
\* written by tools/mkmc.py
EXTENDS NodeStore
MCKindsS == <<"node", "node", "node", "node", "node", "node", "ref", "ref", "ref", "unref", "unref", "gc", "agc", "badunref", "node", "node", "node", "node", "node", "node", "ref", "ref", "ref", "unref", "unref", "gc", "agc", "badunref", "sat", "grow", "clear">>
====
