---- MODULE MC_Poolc ----
\* written by tools/mkmc.py
EXTENDS WorkPool
MCKindsW == <<"get", "get", "get", "get", "temp", "temp", "put", "put", "write", "get", "put", "clear">>
====
