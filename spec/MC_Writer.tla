------------------------------ MODULE MC_Writer -----------------------------
(***************************************************************************)
(* The piecewise writer against the declarative encoder: for the types and *)
(* values of MC_Wire, and for those grown from and around parts that the   *)
(* format cannot express, every step of writing each of them.              *)
(***************************************************************************)
EXTENDS MC_Wire, Writer

VARIABLES q,        \* the writer
          phase     \* "grow", then "write"

None == [st |-> "run", todo |-> <<>>, out |-> <<>>]
Odd == {"u128", "i128"}
Odd16(x) == [i \in 1..16 |-> x]

WInit ==
  /\ phase = "grow" /\ q = None /\ d = 0
  /\ \/ \E k \in Kinds : t = L(k) /\ v \in LeafVals(k) /\ w \in LeafVals(k)
     \/ \E k \in Odd : t = L(k) /\ v = Odd16(0) /\ w = Odd16(255)

\* wraps the format has no representation for, not even of nothing; keys that
\* are not strings can be told from none only if there is a key
Keys == {<<L("str"), <<107>>>>, <<L("char"), 107>>, <<L("u8"), <<1>>>>, <<L("bool"), 1>>, <<L("unit"), <<>>>>,
         <<N("opt", <<L("str")>>), <<<<107>>>>>>, <<N("nt", <<L("str")>>), <<107>>>>}
OddWraps ==
  \/ Set(N("seqx", <<t>>), <<v>>, <<>>) \/ Set(N("mapx", <<t>>), <<<<Key2, v>>>>, <<>>)
  \/ \E k \in Keys : LET ty == N("mapk", <<t, k[1]>>) IN
       \/ Set(ty, <<<<k[2], v>>>>, <<>>)
       \/ Set(ty, <<>>, <<<<k[2], w>>>>)

Grow == phase = "grow" /\ d < Depth /\ d' = d + 1 /\ (Opt \/ Nt \/ Seq1 \/ Map1 \/ Tuple1 \/ Enum1 \/ OddWraps)
        /\ UNCHANGED <<q, phase>>
Begin == phase = "grow" /\ phase' = "write" /\ q' = WriteValue(t, v) /\ UNCHANGED vars
Step  == phase = "write" /\ q.todo # <<>> /\ q' = WriteStep(q) /\ UNCHANGED <<vars, phase>>
WNext == Grow \/ Begin \/ Step
WSpec == WInit /\ [][WNext]_<<vars, q, phase>>

---------------------------------------------------------------------------
P == Plain(t)
\* so far a beginning of the encoding
Prefix ==
  phase = "write" /\ q.st = "run" /\ Writable(t, v) => IsPrefixOf(q.out, Enc(P, v))
\* success: all of it, and it decodes back; and only if it can be expressed
Success ==
  phase = "write" /\ Finished(q) =>
    /\ Writable(t, v)
    /\ q.out = Enc(P, v)
    /\ LET r == Dec(P, q.out \o <<1>>, 1) IN r.ok /\ r.p = Len(q.out) + 1 /\ VEq(P, v, r.v)
Refusal == phase = "write" /\ q.st = "err" => ~Writable(t, v)
=============================================================================
