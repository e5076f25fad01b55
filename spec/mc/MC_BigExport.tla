---- MODULE MC_BigExport ----
\* written by tools/mkmc.py
EXTENDS BigVector
MCKindsB == <<"vexport">>
====
