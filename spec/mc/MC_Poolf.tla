---- MODULE MC_Poolf ----
\* written by tools/mkmc.py
EXTENDS WorkPool
MCKindsW == <<"get", "temp", "put", "write", "clear">>
====
