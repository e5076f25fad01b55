---- MODULE MC_Print2t ----
\* written by tools/mkmc.py
EXTENDS Printing
MCPDens == {1, 2, 3, 4, 5, 7}
MCPNums == {1, 2, 3, 5, 7}
MCDens == {1}
MCNums == {1}
MCParts == "two"
====
