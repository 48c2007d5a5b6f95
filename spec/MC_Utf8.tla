------------------------------- MODULE MC_Utf8 ------------------------------
(***************************************************************************)
(* The UTF-8 automaton against the definition by code points: every scalar *)
(* value at the edges of every range (every one in the thorough            *)
(* configuration), and every short string of bytes at the edges of the     *)
(* classes.                                                                *)
(***************************************************************************)
EXTENDS Utf8, FiniteSets

CONSTANTS MaxLen, Every      \* Every: distance of the sampled code points

VARIABLES c,      \* a code point, -1 in states about strings
          b       \* a string of bytes

Edges == UNION {(x - 2)..(x + 2) : x \in {2, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65533, 65536, 262144, 1048576, 1114109}}
Edge == {x \in Edges : x >= 0 /\ x <= 1114111}

EdgeBytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}

Init == \/ c \in Edge /\ b = <<>>
        \/ (\E i \in 0..1087, j \in 0..1023 : (1024 * i + j) % Every = 0 /\ c = 1024 * i + j) /\ b = <<>>
        \/ c = -1 /\ b = <<>>
Next == c = -1 /\ Len(b) < MaxLen /\ (\E x \in EdgeBytes : b' = Append(b, x)) /\ c' = c
Spec == Init /\ [][Next]_<<c, b>>

---------------------------------------------------------------------------
\* a scalar value and its bytes, and nothing else
OfChars ==
  c >= 0 /\ IsScalar(c) =>
    LET e == CharBytes(c) IN
    /\ IsUtf8(e) /\ IsOneChar(e) /\ CharOf(e) = c /\ Len(e) = CharWidth(e[1])
    /\ \A n \in 1..(Len(e) - 1) : ~IsUtf8(SubSeq(e, 1, n))
    /\ IsUtf8(e \o e) /\ ~IsOneChar(e \o e)
    /\ ~IsOneChar(e \o <<0>>)
Surrogates == c >= 0 /\ ~IsScalar(c) => ~IsUtf8(CharBytes(c)) /\ ~IsOneChar(CharBytes(c))

\* a string is UTF-8 iff it is characters one after another, each the bytes of
\* a scalar value
IsCharAt(s) == LET x == CharOf(s) IN IsScalar(x) /\ CharBytes(x) = s
RECURSIVE Chars(_)
Chars(s) == s = <<>> \/ \E n \in 1..4 : n <= Len(s) /\ IsCharAt(SubSeq(s, 1, n)) /\ Chars(SubSeq(s, n + 1, Len(s)))
OfStrings == c = -1 => (IsUtf8(b) <=> Chars(b)) /\ (IsOneChar(b) <=> Len(b) \in 1..4 /\ IsCharAt(b))
=============================================================================
