---- MODULE MC_Print2 ----
\* written by tools/mkmc.py
EXTENDS Printing
MCPDens == {1, 2, 3}
MCPNums == {1, 2, 3}
MCDens == {1}
MCNums == {1}
MCParts == "two"
====
