---- MODULE MC_ReqV ----
\* written by tools/mkmc.py
EXTENDS NodeRequests
MCKindsQ == <<"node", "node", "node", "add", "add", "op", "mul", "mul", "kron", "gc">>
====
