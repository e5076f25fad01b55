---- MODULE MC_Arith ----
\* written by tools/mkmc.py
EXTENDS Arith
MCKindsA == <<"look", "look", "work", "work", "work", "store", "mark", "add", "add", "sub", "sub", "mul", "mul", "mul", "addn", "subn", "muln", "div", "div", "divn", "query", "query", "query", "show", "show", "value", "temp", "free">>
MCValues == {Zero, One, MOne, Im, MIm, Sq, CNeg(Sq), Half, CNeg(Half), W1, W3, W7, CNeg(W1), Rt2, <<2,0,0,0,0>>, <<-3,0,0,0,0>>, <<1,0,1,0,0>>, <<1,0,-1,0,0>>, <<-1,0,1,0,1>>, <<0,0,-3,0,2>>, <<5,0,-1,0,3>>, <<1,2,0,0,1>>, <<0,1,1,0,2>>, <<-1,0,2,1,0>>}
====
