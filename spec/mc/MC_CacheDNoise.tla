---- MODULE MC_CacheDNoise ----
\* written by tools/mkmc.py
EXTENDS ResultCache
MCKeys == {<<a>> : a \in 0..3} \cup {<<a, q>> : a \in 0..3, q \in 0..3} \cup {<<a, q, r>> : a \in 0..3, q \in 0..2, r \in 0..2} \cup {<<a, q, r, s>> : a \in 0..1, q \in 0..1, r \in 0..2, s \in 0..2}
MCKindsR == <<"ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "clear">>
====
