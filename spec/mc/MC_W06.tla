---- MODULE MC_W06 ----
\* written by tools/mkmc.py
EXTENDS Wide
MCKindsX == <<"wbasis", "wzero", "wstate", "wvec", "wghz", "wghz", "wid", "wmat", "wmat", "wgate", "wgate", "wperm", "wvadd", "wmadd", "wmv", "wmm", "wmkron", "wadj", "winner", "wfid", "wfidm", "wexpv", "wtrace", "wptrace", "wisid", "wprobs", "winner", "wfid", "wfidm", "wexpv", "wtrace", "wptrace", "wisid", "wprobs", "winner", "wfid", "wfidm", "wexpv", "wtrace", "wptrace", "wisid", "wprobs">>
MCWidthSet == {2, 5, 9, 12, 17, 20, 24, 33, 40, 63, 64, 65, 100, 127, 128}
====
