------------------------------- MODULE MC_Deep ------------------------------
(***************************************************************************)
(* Chains of layers, put around one another one at a time: what the chain  *)
(* writes is the encoding of the type it stands for, its header the header *)
(* of that type, and both are read back whole and from no shorter prefix.  *)
(***************************************************************************)
EXTENDS Deep
CONSTANT MaxDepth
VARIABLE ws

Init == ws = <<>>
Next == Len(ws) < MaxDepth /\ \E w \in LayerNames : ws' = <<w>> \o ws
Spec == Init /\ [][Next]_ws

t == TypeDeep(ws)
v == ValueDeep(ws)
e == EncDeep(ws)
h == HeaderOf(t)
Typed   == Enc(t, v) = e
Headers == HEnc(h) = HEncDeep(ws)
Read    == LET d == Dec(t, e \o <<1, 2>>, 1) IN d.ok /\ d.c /\ VEq(t, d.v, v) /\ d.p = Len(e) + 1
Dynamic == LET d == Dec(h, e \o <<1, 2>>, 1)  y == BodyOf(t, v) IN
           d.ok /\ d.p = Len(e) + 1 /\ IsBodyOf(h, d.v, y) /\ Valid(h, y) /\ BodyEnc(y) = e
Cuts    == \A k \in 0..(Len(e) - 1) : ~Dec(t, SubSeq(e, 1, k), 1).ok /\ ~Dec(h, SubSeq(e, 1, k), 1).ok
\* a layer adds the same bytes wherever it is
Layers  == ws # <<>> => e = Layer(Head(ws)).b \o EncDeep(Tail(ws)) \o Layer(Head(ws)).a
=============================================================================
