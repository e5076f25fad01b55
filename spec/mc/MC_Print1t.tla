---- MODULE MC_Print1t ----
\* written by tools/mkmc.py
EXTENDS Printing
MCPDens == {1, 2, 3}
MCPNums == {1, 2, 3}
MCDens == 1..1024
MCNums == 1..64
MCParts == "one"
====
