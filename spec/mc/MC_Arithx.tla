---- MODULE MC_Arithx ----
\* written by tools/mkmc.py
EXTENDS Arith
MCKindsA == <<"look", "work", "mul", "div", "add">>
MCValues == {Zero, Sq, Im}
====
