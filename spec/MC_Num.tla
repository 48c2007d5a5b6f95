------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* Big numbers against ordinary integers: digit strings denote the same    *)
(* number exactly when their canonical forms agree, and decimals exactly   *)
(* when their normal forms agree.                                          *)
(***************************************************************************)
EXTENDS Wire, Runs

CONSTANTS MaxLen,    \* digit strings up to this length
          MaxNum     \* decimals with digits -MaxNum..MaxNum

VARIABLES b, m, e
vars == <<b, m, e>>

Alphabet == {0, 1, 2, 10, 99, 127, 128, 129, 200, 254, 255}

Init == b = <<>> /\ m \in -MaxNum..MaxNum /\ e = 0
Next == \/ m = 0 /\ e = 0 /\ Len(b) < MaxLen /\ \E c \in Alphabet : b' = Append(b, c) /\ UNCHANGED <<m, e>>
        \/ b = <<>> /\ \E d \in {-1, 1} : e + d \in -2..2 /\ e' = e + d /\ UNCHANGED <<b, m>>
Spec == Init /\ [][Next]_vars

\* the integer a string of at most 3 bytes denotes
Unsigned(s) == At(s, 1) + 256 * At(s, 2) + 65536 * At(s, 3)
Pow256 == <<256, 65536, 16777216>>
Signed(s) == IF Neg(s) THEN Unsigned(s) - Pow256[Len(s)] ELSE Unsigned(s)

\* the shortest strings that denote n
IntBytes(n) == CanonS(LES(n, 4))
NatBytes(n) == CanonU(LE(n, 4))

T(k) == [k |-> k, s |-> <<>>, n |-> 0]

Integers3 ==
  Len(b) <= 3 =>
    /\ CanonU(b) = NatBytes(Unsigned(b)) /\ Unsigned(CanonU(b)) = Unsigned(b)
    /\ CanonS(b) = IntBytes(Signed(b)) /\ Signed(CanonS(b)) = Signed(b)
    /\ (b = CanonU(b)) = (b = <<>> \/ b[Len(b)] # 0)
    \* no shorter string denotes it
    /\ CanonS(b) = <<>> <=> Signed(b) = 0
    /\ FromMagnitude(Neg(b), Magnitude(b)) = CanonS(b)

Decoding ==
  LET w == BytesEnc(b)
  IN \A k \in {"buint", "nbuint", "bint", "nbint"} :
       LET d == Dec(T(k), w, 1)
           canon == IF k \in {"buint", "nbuint"} THEN CanonU(b) ELSE CanonS(b)
       IN d.ok /\ d.v = canon /\ d.c = (b = canon) /\ d.p = Len(w) + 1
          /\ Dec(T(k), Enc(T(k), d.v), 1).v = d.v

RECURSIVE Times10(_, _)
Times10(x, n) == IF n = 0 THEN x ELSE Times10(10 * x, n - 1)
SameNumber(x, i, y, j) ==      \* x * 10^-i = y * 10^-j
  IF i >= j THEN x = Times10(y, i - j) ELSE Times10(x, j - i) = y

Dcm(x, i) == <<IntBytes(x), LES(i, 8)>>
Decimals ==
  LET n == NormDec(Dcm(m, e)) IN
  /\ NormDec(n) = n
  /\ IF m = 0 THEN n = <<<<>>, Zeros(8)>>
     ELSE LET x == Signed(n[1])  i == SmallInt(SubSeq(n[2], 1, 4)) IN
          /\ SameNumber(m, e, x, i) /\ x % 10 # 0
          /\ n[1] = IntBytes(x)
  /\ \A k \in {-1, 1, 7, 10} \cup (IF m \in -300..300 THEN {100, m, -m} ELSE {}) : \A j \in -2..2 :
       SameDec(Dcm(m, e), Dcm(k * m, j)) = SameNumber(m, e, k * m, j)
  /\ LET w == DecimalEnc(Dcm(m, e)) IN
     \A k \in {"bdec", "nbdec"} :
       LET d == Dec(T(k), w \o <<1>>, 1) IN d.ok /\ d.c /\ d.v = n /\ d.p = Len(w) + 1
  /\ m = 0 => DecimalEnc(Dcm(m, e)) = <<0>>

LongForms ==
  LET c == RunsOf(b) IN
  /\ RunLen(c) = Len(b)
  /\ \A i \in 2..Len(c) : c[i][1] # c[i-1][1]
  /\ RunCanonU(c) = RunsOf(CanonU(b))
  /\ RunCanonS(c) = RunsOf(CanonS(b))
  /\ Len(b) <= 3 => Tenfold(c) = (Signed(b) % 10 = 0)
  /\ \A i \in 0..Len(b) : RunCat(RunsOf(SubSeq(b, 1, i)), RunsOf(SubSeq(b, i + 1, Len(b)))) = c

Inv == (m = 0 /\ e = 0 => Integers3 /\ Decoding /\ LongForms) /\ (b = <<>> => Decimals)
=============================================================================
