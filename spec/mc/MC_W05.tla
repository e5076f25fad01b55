---- MODULE MC_W05 ----
\* written by tools/mkmc.py
EXTENDS Wide
MCKindsX == <<"wbasis", "wzero", "wstate", "wvec", "wghz", "wghz", "wid", "wmat", "wmat", "wgate", "wgate", "wperm", "wvadd", "wmadd", "wmv", "wmv", "wmv", "wmm", "wmm", "wvkron", "wmkron", "wext", "wtrans", "wadj", "wvadd", "wmadd", "wmv", "wmv", "wmv", "wmm", "wmm", "wvkron", "wmkron", "wext", "wtrans", "wadj", "wvadd", "wmadd", "wmv", "wmv", "wmv", "wmm", "wmm", "wvkron", "wmkron", "wext", "wtrans", "wadj">>
MCWidthSet == {2, 5, 9, 12, 17, 20, 24, 33, 40, 63, 64, 65, 100, 127, 128}
====
