---- MODULE MC_Print1 ----
\* written by tools/mkmc.py
EXTENDS Printing
MCPDens == {1, 2, 3}
MCPNums == {1, 2, 3}
MCDens == 1..40 \cup {63, 64, 100, 127, 128, 255, 256, 511, 512, 513, 1000, 1023, 1024}
MCNums == 1..12 \cup {31, 64, 999, 1023, 1024, 1025, 4001}
MCParts == "one"
====
