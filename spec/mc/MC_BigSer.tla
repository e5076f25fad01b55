---- MODULE MC_BigSer ----
\* written by tools/mkmc.py
EXTENDS BigVector
MCKindsB == <<"vser", "vser">>
====
