----------------------------- MODULE MC_Varint ------------------------------
(***************************************************************************)
(* The integer layer on its own: every 16-bit value in every width, every  *)
(* first byte with sampled following bytes, and the values around each     *)
(* length boundary of the wider integers.                                  *)
(***************************************************************************)
EXTENDS Varint, FiniteSets

CONSTANTS Step,      \* 1: every 16-bit value; more: a sample of them
          MaxB       \* byte strings up to this length

VARIABLE x
vars == <<x>>

\* bytes used where the choice is free
Some == {0, 1, 127, 128, 255}

Values(w) ==
  IF w = 2 THEN {}
  ELSE \* one significant byte anywhere, over low bytes all 0 or all 255
       {[i \in 1..w |-> IF i < p THEN f ELSE IF i = p THEN b ELSE 0]
          : p \in 1..w, f \in {0, 255}, b \in {1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255}}
       \cup {Complement([i \in 1..w |-> IF i < p THEN f ELSE IF i = p THEN b ELSE 0])
          : p \in 1..w, f \in {0, 255}, b \in {0, 1, 64, 127, 128}}

Init == x \in {[k |-> "count", n |-> 0, b |-> <<>>, w |-> 2]}
            \cup {[k |-> "value", n |-> 0, b |-> v, w |-> w] : w \in {4}, v \in Values(4)}
            \cup {[k |-> "value", n |-> 0, b |-> v, w |-> w] : w \in {8}, v \in Values(8)}
            \cup {[k |-> "bytes", n |-> 0, b |-> <<f>>, w |-> w] : f \in Byte, w \in VarWidths}

\* counting through all 16-bit values, and growing byte strings
Next ==
  \/ x.k = "count" /\ x.n + Step < 65536 /\ x' = [x EXCEPT !.n = @ + Step]
  \/ x.k = "bytes" /\ Len(x.b) < MaxB /\ \E c \in (IF Len(x.b) < 3 THEN Some ELSE {0, 255}) :
       x' = [x EXCEPT !.b = Append(@, c)]
Spec == Init /\ [][Next]_vars

Wide(v, w) == v \o Zeros(w - Len(v))

\* the number of bytes the value needs, said another way: the fewest n with
\* v < 2^(7n), or the full form
Fewest(w, v) ==
  LET fits == {n \in 1..w : BitLen(v) <= 7 * n} IN
  IF fits = {} THEN w + 1 ELSE CHOOSE n \in fits : \A m \in fits : n <= m

Good(w, v) ==
  LET e == VarEnc(w, v) IN
  /\ Len(e) = Fewest(w, v)
  /\ \A j \in {<<>>, <<0>>, <<255, 7>>} : VarDec(w, e \o j, 1) = [ok |-> TRUE, v |-> v, p |-> Len(e) + 1]
  /\ \A n \in 0..(Len(e) - 1) : ~VarDec(w, SubSeq(e, 1, n), 1).ok
  /\ ZigDec(ZigEnc(v)) = v /\ ZigEnc(ZigDec(v)) = v
  \* zigzag keeps numbers of small magnitude small
  /\ BitLen(ZigEnc(v)) <= 1 + (IF IsNeg(v) THEN BitLen(Complement(v)) ELSE BitLen(v))

\* a form an encoder never writes is at least as long as the one it writes,
\* and no two values share a form
Canonical(w, b) ==
  LET d == VarDec(w, b, 1) IN
  d.ok => LET e == VarEnc(w, d.v) IN
          Len(e) <= d.p - 1 /\ (Len(e) = d.p - 1 => e = SubSeq(b, 1, d.p - 1) \/ d.p - 1 = w + 1)

Inv ==
  CASE x.k = "count" -> \A w \in VarWidths : Good(w, Wide(LE(x.n, 2), w))
    [] x.k = "value" -> Good(x.w, x.b)
    [] x.k = "bytes" -> Canonical(x.w, x.b)
=============================================================================
