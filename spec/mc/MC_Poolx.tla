---- MODULE MC_Poolx ----
\* written by tools/mkmc.py
EXTENDS WorkPool
MCKindsW == <<"get", "temp", "put", "write">>
====
