---- MODULE MC_Pools ----
\* written by tools/mkmc.py
EXTENDS WorkPool
MCKindsW == <<"get", "get", "get", "temp", "temp", "put", "put", "write", "write", "get", "put">>
====
