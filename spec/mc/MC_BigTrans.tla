---- MODULE MC_BigTrans ----
\* written by tools/mkmc.py
EXTENDS BigVector
MCKindsB == <<"vtransfer">>
====
