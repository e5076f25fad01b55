---- MODULE MC_CacheBin ----
\* written by tools/mkmc.py
EXTENDS ResultCache
MCKeys == (0..7) \X (0..7)
MCKindsR == <<"ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "ins", "ins", "ins", "look", "look", "look", "look", "look", "look", "look", "clear">>
====
