---- MODULE MC_W16 ----
\* written by tools/mkmc.py
EXTENDS Wide
MCKindsX == <<"wid", "wmat", "wgate", "wperm", "wgate", "wperm", "wmm", "wmkron", "wmadd", "wadj", "wdens", "wdens", "wdens", "wdens">>
MCWidthSet == {4, 5, 6, 7}
====
