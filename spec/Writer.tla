------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* A writer that works through a value piece by piece, as a serializer     *)
(* does when it is called with one part of a value after another.          *)
(*                                                                         *)
(* State [st, todo, out]: st is "run" or "err"; todo the parts still to be *)
(* written, next first; out the bytes written.  It is finished when "run"  *)
(* and todo is empty.  A part is [f, t, v]:                                *)
(*   val   value v of type t                                               *)
(*   key   value v of type t in the place of a key                         *)
(*   raw   the bytes v                                                     *)
(***************************************************************************)
EXTENDS Header

Part(f, t, v) == [f |-> f, t |-> t, v |-> v]
BytesT == [k |-> "bytes", s |-> <<>>, n |-> 0]
Raws(v) == Part("raw", BytesT, v)
Val(t, v) == Part("val", t, v)

WriteValue(t, v) == [st |-> "run", todo |-> <<Val(t, v)>>, out |-> <<>>]
Refused == [st |-> "err", todo |-> <<>>, out |-> <<>>]
Finished(q) == q.st = "run" /\ q.todo = <<>>

Whole(q, b)  == [q EXCEPT !.todo = Tail(@), !.out = @ \o b]
\* bytes, then parts
Parts(q, b, ps) == [q EXCEPT !.todo = ps \o Tail(@), !.out = @ \o b]

WriteStep(q) ==
  LET m == q.todo[1]  t == m.t  v == m.v  k == t.k IN
  IF m.f = "raw" THEN Whole(q, v)
  ELSE IF m.f = "key" /\ k # "str" THEN Refused
  ELSE
  CASE k \in {"u128", "i128", "seqx", "mapx"} -> Refused
    [] k \in {"str", "bytes", "buint", "bint", "nbuint", "nbint"} -> Parts(q, LenEnc(Len(v)), <<Raws(v)>>)
    [] k = "char"   -> Parts(q, LenEnc(Len(CharBytes(v))), <<Raws(CharBytes(v))>>)
    [] k = "opt"    -> IF v = <<>> THEN Whole(q, <<0>>) ELSE Parts(q, <<1>>, <<Val(t.s[1], v[1])>>)
    [] k = "seq"    -> Parts(q, LenEnc(Len(v)), [i \in 1..Len(v) |-> Val(t.s[1], v[i])])
    [] k \in {"map", "mapk"} ->
         LET kt == IF k = "map" THEN [BytesT EXCEPT !.k = "str"] ELSE t.s[2] IN
         Parts(q, LenEnc(Len(v)),
               [i \in 1..(2 * Len(v)) |->
                  IF i % 2 = 1 THEN Part("key", kt, v[(i + 1) \div 2][1]) ELSE Val(t.s[1], v[i \div 2][2])])
    [] k = "nt"     -> Parts(q, <<>>, <<Val(t.s[1], v)>>)
    [] k \in Concat -> Parts(q, <<>>, [i \in 1..Len(v) |-> Val(t.s[i], v[i])])
    [] k = "enum"   -> Parts(q, U32Enc(v[1]), <<Val(VariantType(t, ToInt(v[1])), v[2])>>)
    [] k \in {"bdec", "nbdec"} ->
         LET c == NormDec(v) IN
         IF c[1] = <<>> THEN Whole(q, <<0>>) ELSE Parts(q, LenEnc(Len(c[1])), <<Raws(c[1]), Raws(U64Enc(ZigEnc(c[2])))>>)
    [] k \in {"date", "ndate"} -> Parts(q, U32Enc(ZigEnc(LES(v[1] - 2000, 4))), <<Raws(U16Enc(LE(v[2] - 1, 2)))>>)
    [] k \in {"dt", "ndt"}     -> Parts(q, U64Enc(ZigEnc(v[1])), <<Raws(U32Enc(v[2]))>>)
    [] OTHER        -> Whole(q, Enc(t, v))
=============================================================================
