------------------------------ MODULE MC_Header -----------------------------
(***************************************************************************)
(* Headers on their own, from both sides.  Growing states: a header is     *)
(* wrapped, and joined with others, once per step.  Typing states: a byte  *)
(* string over the codes, unassigned codes and counts, a byte per step.    *)
(***************************************************************************)
EXTENDS Header, TLC

CONSTANTS Depth, MaxLen, Alphabet, Some, Other  \* leaves to grow from

VARIABLES h,      \* a header
          g,      \* another one
          d,      \* wraps
          b,      \* a byte string
          mode
vars == <<h, g, d, b, mode>>

Leaf(k) == H(k, <<>>)
Rep(x, n) == [i \in 1..n |-> x]

Init ==
  \/ mode = "grow" /\ d = 0 /\ b = <<>> /\ (\E k \in Some, l \in Other : h = Leaf(k) /\ g = Leaf(l))
  \/ mode = "type" /\ d = 0 /\ b = <<>> /\ h = Leaf("unit") /\ g = h

Wraps(x, y) ==
  {H(k, <<x>>) : k \in Nested}
  \cup UNION {{H(k, <<>>), H(k, <<x>>), H(k, <<x, y>>), H(k, <<y, x>>), H(k, <<x, x, y>>)} : k \in Counted}
Long(x) == {H(k, Rep(x, n)) : k \in Counted, n \in {127, 128, 129}}

Grow == mode = "grow" /\ d < Depth /\ UNCHANGED <<b, mode>>
        /\ \/ d' = d + 1 /\ h' \in Wraps(h, g) /\ g' \in {g, h, h'}
           \/ d = 0 /\ g = h /\ d' = Depth /\ h' \in Long(h) /\ g' = H(h'.k, Tail(h'.s))
Type == mode = "type" /\ Len(b) < MaxLen /\ (\E x \in Alphabet : b' = Append(b, x)) /\ UNCHANGED <<h, g, d, mode>>
Next == Grow \/ Type
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Junk == {<<>>, <<0>>, <<20>>, <<255, 255>>}
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x

RoundTrip ==
  mode = "grow" =>
    LET e == HEnc(h) IN
    /\ \A j \in Junk : HDec(e \o j, 1) = HGot(h, Len(e) + 1, TRUE)
    /\ HDec(<<7, 7>> \o e, 3) = HGot(h, Len(e) + 3, TRUE)
    /\ Len(e) <= 40 => \A n \in 0..(Len(e) - 1) : HDec(SubSeq(e, 1, n), 1).e = "eof"

Injective ==
  mode = "grow" =>
    LET e == HEnc(h)  f == HEnc(g) IN
    IF h = g THEN e = f ELSE ~IsPrefixOf(e, f) /\ ~IsPrefixOf(f, e)

\* one byte per node, and a count of at most three for each of a tuple's or enum's
RECURSIVE Nodes(_)
Nodes(x) == 1 + FoldLeft(LAMBDA a, y : a + Nodes(y), 0, x.s)
Size == mode = "grow" => Len(HEnc(h)) \in Nodes(h)..(4 * Nodes(h))

\* an unassigned code where a code must be is reported as such
Unassigned ==
  mode = "grow" =>
    LET e == HEnc(h) IN
    Len(e) <= 20 =>
      \A i \in 1..Len(e) :
        LET p == SubSeq(e, 1, i - 1) IN
        \* a code must be here: this is not within a count
        HDec(p \o <<7>>, 1).e = "code" =>
          \A x \in {12, 22, 27, 255} : HDec([e EXCEPT ![i] = x], 1).e = "code"

\* what is accepted is the header the bytes spell, as far as they go
Accepted ==
  mode = "type" =>
    LET r == HDec(b, 1) IN
    IF r.ok
    THEN LET e == HEnc(r.h) IN
         /\ Len(e) <= r.p - 1
         /\ r.c <=> e = SubSeq(b, 1, r.p - 1)
         /\ \A n \in 0..(r.p - 2) : ~HDec(SubSeq(b, 1, n), 1).ok
    ELSE IF r.e = "code" THEN \A j \in Junk : HDec(b \o j, 1).e = "code"
    ELSE r.e = "eof"
=============================================================================
