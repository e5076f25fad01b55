---- MODULE MC_Print3 ----
\* written by tools/mkmc.py
EXTENDS Printing
MCPDens == {1, 2, 3}
MCPNums == {1, 2, 3}
MCDens == 1..40 \cup {63, 64, 127, 128, 256, 511, 1000, 1023, 1024}
MCNums == 1..7 \cup {31, 999, 1023, 1025}
MCParts == "mix"
====
