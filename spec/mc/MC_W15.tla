---- MODULE MC_W15 ----
\* written by tools/mkmc.py
EXTENDS Wide
MCKindsX == <<"wbasis", "wzero", "wstate", "wvec", "wghz", "wghz", "wperm", "wgate", "wmv", "wmv", "wvadd", "wprobs", "wmeas", "wmeas", "wmeasall", "wprobs", "wmeas", "wmeas", "wmeasall", "wprobs", "wmeas", "wmeas", "wmeasall">>
MCWidthSet == {2, 5, 9, 12, 17, 20, 24, 33, 40, 63, 64, 65, 100, 127, 128}
====
