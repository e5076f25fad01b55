---- MODULE MC_Pooly ----
\* written by tools/mkmc.py
EXTENDS WorkPool
MCKindsW == <<"get", "temp", "put", "write">>
====
