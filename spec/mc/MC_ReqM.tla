---- MODULE MC_ReqM ----
\* written by tools/mkmc.py
EXTENDS NodeRequests
MCKindsQ == <<"node", "node", "node", "add", "add", "op", "mul", "mul", "kron", "gc">>
====
