------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Proleptic Gregorian dates by year and day of the year, and instants as  *)
(* <<seconds since 1970 (8 bytes), nanoseconds (4 bytes)>>.  The native    *)
(* types cover the years -9999..9999.                                      *)
(***************************************************************************)
EXTENDS Bytes

MinYear == -9999
MaxYear == 9999

IsLeap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
DaysIn(y) == IF IsLeap(y) THEN 366 ELSE 365
IsDate(y, o) == y >= MinYear /\ y <= MaxYear /\ o >= 1 /\ o <= DaysIn(y)

\* a 4-byte two's complement as an integer when it is within +-2^20, else 2^21
SmallInt(v) ==
  IF IsNeg(v)
  THEN LET c == Complement(v) IN IF BitLen(c) > 20 THEN 2097152 ELSE -1 - ToInt(c)
  ELSE IF BitLen(v) > 20 THEN 2097152 ELSE ToInt(v)

\* an integer in -2^30..2^30 as n bytes of two's complement
LES(x, n) == IF x >= 0 THEN LE(x, n) ELSE Complement(LE(-1 - x, n))

\* signed order of two strings of equal width
SLt(u, v) == IF IsNeg(u) = IsNeg(v) THEN Lt(u, v) ELSE IsNeg(u)

MinSecs == <<128, 75, 5, 15, 168, 255, 255, 255>>    \* -377705116800
MaxSecs == <<127, 65, 244, 255, 58, 0, 0, 0>>           \*  253402300799
Giga    == <<0, 202, 154, 59>>                          \* 10^9
NegGiga == <<0, 54, 101, 196>>                          \* -10^9 modulo 2^32

InRange(s) == ~SLt(s, MinSecs) /\ ~SLt(MaxSecs, s)

\* seconds and nanoseconds with any nanoseconds >= 10^9 carried over
\* (the sum wraps only for seconds far outside the range)
RECURSIVE CarryNanos(_, _, _)
CarryNanos(s, n, k) ==
  IF Lt(n, Giga) THEN <<Add(s, LE(k, 8)), n>>
  ELSE CarryNanos(s, Add(n, NegGiga), k + 1)

\* the instant denoted by decoded seconds and nanoseconds, <<>> if none
Instant(s, n) ==
  LET c == CarryNanos(s, n, 0)
  IN IF InRange(c[1]) /\ ~(~IsNeg(s) /\ IsNeg(c[1])) THEN c ELSE <<>>
=============================================================================
