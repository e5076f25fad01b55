---- MODULE MC_W17 ----
\* written by tools/mkmc.py
EXTENDS Wide
MCKindsX == <<"wbasis", "wzero", "wstate", "wvec", "wghz", "wghz", "wid", "wmat", "wmat", "wgate", "wgate", "wperm", "wperm", "wperm", "wmv", "wmm", "winit", "wanc", "wgarb", "wgarb", "wisid", "winit", "wanc", "wgarb", "wgarb", "wisid", "winit", "wanc", "wgarb", "wgarb", "wisid", "winit", "wanc", "wgarb", "wgarb", "wisid">>
MCWidthSet == {2, 5, 9, 12, 17, 20, 24, 33, 40, 63, 64, 65, 100, 127, 128}
====
