---- MODULE MC_CacheTof ----
\* written by tools/mkmc.py
EXTENDS ResultCache
MCKeys == {<<n, t, a, b, c, e>> : n \in {4, 5}, t \in 0..3, a \in 0..2, b \in 0..2, c \in 0..2, e \in 0..1}
MCKindsR == <<"ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "clear">>
====
