---- MODULE MC_CacheDens ----
\* written by tools/mkmc.py
EXTENDS ResultCache
MCKeys == {<<l, f, r, g, u>> : l \in 0..2, f \in {0, 1, 2, 5}, r \in 0..2, g \in {0, 1, 2, 6}, u \in 0..1}
MCKindsR == <<"ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "clear">>
====
