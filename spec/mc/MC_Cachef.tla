---- MODULE MC_Cachef ----
\* written by tools/mkmc.py
EXTENDS ResultCache
MCKeys == {<<1>>, <<2>>, <<3>>}
MCKindsR == <<"ins", "look", "clear">>
====
