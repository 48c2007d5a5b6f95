----------------------------- MODULE GenChannel -----------------------------
(***************************************************************************)
(* Sessions with a sink or a source, printed as JSON: messages, and what   *)
(* the other side answers, call by call.  Every script of answers up to a  *)
(* length is one behaviour; the last answer of a script may be a failure   *)
(* or the end.  They are replayed into the implementation and what it did  *)
(* is walked through Channel (TraceChannel).                               *)
(***************************************************************************)
EXTENDS Header, Json, TLC

CONSTANTS MaxScript, Some     \* Some: sizes of answers

VARIABLES side, list, script, over
vars == <<side, list, script, over>>

L(k) == [k |-> k, s |-> <<>>, n |-> 0]
N(k, s) == [k |-> k, s |-> s, n |-> 0]
T(t, v) == [m |-> "typed", t |-> t, v |-> v]
B(t, v) == [m |-> "body", t |-> t, v |-> v]
Hd(t)   == [m |-> "header", t |-> t, v |-> <<>>]

U16 == L("u16")
Pair == N("tup", <<U16, L("str")>>)
Choice == [k |-> "enum", s |-> <<L("bool"), N("tup", <<L("f32"), L("char")>>)>>, n |-> 3]
Lists == <<
  <<T(L("unit"), <<>>), T(L("u8"), <<7>>)>>,
  <<T(U16, <<0, 1>>), T(U16, <<5, 0>>), T(U16, <<255, 255>>)>>,
  <<T(L("str"), <<97, 195, 169, 98>>), T(L("bool"), 1)>>,
  <<T(L("bytes"), <<1, 2, 3, 4, 5>>), T(L("bytes"), <<>>), T(L("bytes"), <<9>>)>>,
  <<T(L("u64"), <<1, 2, 3, 4, 5, 6, 7, 8>>), T(L("f64"), <<1, 2, 3, 4, 5, 6, 7, 8>>)>>,
  <<T(N("opt", <<Pair>>), <<<<<<1, 2>>, <<120>>>>>>), T(N("opt", <<Pair>>), <<>>)>>,
  <<T(N("seq", <<U16>>), <<<<1, 0>>, <<0, 2>>>>), T(N("map", <<L("i8")>>), <<<<<<107>>, <<255>>>>>>)>>,
  <<T(Choice, <<<<1, 0, 0, 0>>, <<<<0, 0, 128, 63>>, 233>>>>), T(Choice, <<<<2, 0, 0, 0>>, 1>>)>>,
  <<T(L("bint"), <<1, 2, 3>>), T(L("bdec"), <<<<15>>, <<1, 0, 0, 0, 0, 0, 0, 0>>>>), T(L("nbdec"), <<<<>>, Zeros(8)>>)>>,
  <<T(L("date"), <<2024, 60>>), T(L("ndt"), <<<<255, 255, 255, 255, 255, 255, 255, 255>>, <<1, 2, 3, 0>>>>)>>,
  <<Hd(N("tup", <<U16, N("opt", <<L("str")>>)>>)), B(N("tup", <<U16, N("opt", <<L("str")>>)>>), <<<<7, 0>>, <<<<97>>>>>>)>>,
  <<Hd([k |-> "enum", s |-> <<L("unit"), L("u8")>>, n |-> 0]),
    B([k |-> "enum", s |-> <<L("unit"), L("u8")>>, n |-> 0], <<<<1, 0, 0, 0>>, <<200>>>>)>>,
  <<B(N("seq", <<L("bdec")>>), <<<<<<1>>, Zeros(8)>>>>), B(N("map", <<L("dt")>>), <<<<<<>>, <<Zeros(8), Zeros(4)>>>>>>)>>,
  <<T(L("bytes"), [i \in 1..130 |-> i]), T(L("u8"), <<1>>)>>,
  <<T(L("str"), [i \in 1..129 |-> 97]), T(L("u8"), <<1>>)>>
>>
\* what an answer is: k bytes at most, -1 interrupted, -2 failed, -3 nothing
Init == side \in {"sink", "source"} /\ list \in 1..Len(Lists) /\ script = <<>> /\ over = FALSE
Next == /\ ~over /\ Len(script) < MaxScript
        /\ \E a \in Some \cup {-1, -2, -3} : script' = Append(script, a) /\ over' = (a < -1)
        /\ UNCHANGED <<side, list>>
Spec == Init /\ [][Next]_vars

MsgEnc(m) ==
  CASE m.m = "typed"  -> Enc(m.t, m.v)
    [] m.m = "header" -> HEnc(m.t)
    [] m.m = "body"   -> BodyEnc(BodyOf(m.t, m.v))
Size == Len(Cat([i \in 1..Len(Lists[list]) |-> MsgEnc(Lists[list][i])]))
\* answers of one byte at a time cannot outnumber the bytes
Emit ==
  IF script # <<>>
  THEN PrintT("CASE " \o ToJson([side |-> side, list |-> list, script |-> script, size |-> Size]))
  ELSE PrintT("LIST " \o ToJson([list |-> list, msgs |-> Lists[list]]))
=============================================================================
