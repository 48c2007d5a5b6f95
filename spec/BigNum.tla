------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Arbitrary-precision numbers as byte strings.                            *)
(*                                                                         *)
(* A natural number is its minimal little-endian base-256 digits, an       *)
(* integer its minimal little-endian two's complement; zero is the empty   *)
(* string in both.  A decimal is <<digits, scale>>, digits an integer and  *)
(* scale an 8-byte two's complement: digits * 10^-scale.                   *)
(***************************************************************************)
EXTENDS Bytes

RECURSIVE CanonU(_)
CanonU(b) == IF b = <<>> \/ b[Len(b)] # 0 THEN b ELSE CanonU(SubSeq(b, 1, Len(b) - 1))

RECURSIVE StripSign(_)
StripSign(b) ==
  LET n == Len(b)
  IN IF n >= 2 /\ \/ b[n] = 0 /\ b[n-1] < 128
                  \/ b[n] = 255 /\ b[n-1] >= 128
     THEN StripSign(SubSeq(b, 1, n - 1)) ELSE b
CanonS(b) == LET c == StripSign(b) IN IF c = <<0>> THEN <<>> ELSE c

IsCanonU(b) == CanonU(b) = b
IsCanonS(b) == CanonS(b) = b

\* sign and magnitude
Neg(b) == b # <<>> /\ IsNeg(b)
Negate(b) == AddSmall(Complement(b), 1).s           \* same width, modulo
Magnitude(b) == IF Neg(b) THEN CanonU(Negate(b)) ELSE CanonU(b)
\* sign-extended by a byte first, so that -m is representable
FromMagnitude(neg, m) ==
  IF m = <<>> THEN <<>>
  ELSE LET w == Append(m, 0) IN CanonS(IF neg THEN Negate(w) ELSE w)

\* division by ten, from the top byte down: quotient digits and remainder
RECURSIVE Div10From(_, _, _, _)
Div10From(m, i, r, acc) ==
  IF i = 0 THEN [q |-> acc, r |-> r]
  ELSE LET x == r * 256 + m[i]
       IN Div10From(m, i - 1, x % 10, <<x \div 10>> \o acc)
Div10(m) == Div10From(m, Len(m), 0, <<>>)

MinScale == <<0, 0, 0, 0, 0, 0, 0, 128>>
Minus1(s) == Add(s, [i \in 1..Len(s) |-> 255])

RECURSIVE StripTens(_, _)
StripTens(m, s) ==
  LET d == Div10(m)
  IN IF d.r # 0 \/ s = MinScale THEN <<m, s>> ELSE StripTens(CanonU(d.q), Minus1(s))

\* the canonical pair of a decimal: no trailing zero digit, zero has scale 0
NormDec(d) ==
  LET c == CanonS(d[1])
  IN IF c = <<>> THEN <<<<>>, Zeros(8)>>
     ELSE LET n == StripTens(Magnitude(c), d[2])
          IN <<FromMagnitude(Neg(c), n[1]), n[2]>>

SameDec(a, b) == a = b \/ NormDec(a) = NormDec(b)
=============================================================================
