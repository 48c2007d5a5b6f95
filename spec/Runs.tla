-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Long byte strings as runs: <<byte, how often>>, neighbours distinct.    *)
(* Canonical forms and divisibility by ten of numbers of any length, in    *)
(* the number of runs.                                                     *)
(***************************************************************************)
EXTENDS BigNum

RunPush(c, r) ==
  IF r[2] = 0 THEN c
  ELSE IF c # <<>> /\ c[Len(c)][1] = r[1] THEN [c EXCEPT ![Len(c)] = <<r[1], @[2] + r[2]>>]
  ELSE Append(c, r)
RECURSIVE RunCat(_, _)
RunCat(a, b) == IF b = <<>> THEN a ELSE RunCat(RunPush(a, b[1]), Tail(b))
RunsOf(s) == RunCat(<<>>, [i \in 1..Len(s) |-> <<s[i], 1>>])

RECURSIVE SumRuns(_, _)
SumRuns(c, i) == IF i > Len(c) THEN 0 ELSE c[i][2] + SumRuns(c, i + 1)
RunLen(c) == SumRuns(c, 1)

RunFront(c) == SubSeq(c, 1, Len(c) - 1)
RunCanonU(c) == IF c # <<>> /\ c[Len(c)][1] = 0 THEN RunFront(c) ELSE c
RunCanonS(c) ==
  IF c = <<>> THEN c
  ELSE LET n == Len(c)
           One == Append(RunFront(c), <<c[n][1], 1>>)
       IN CASE c[n][1] = 0   -> IF n = 1 \/ c[n-1][1] < 128 THEN RunFront(c) ELSE One
            [] c[n][1] = 255 -> IF n > 1 /\ c[n-1][1] >= 128 THEN RunFront(c) ELSE One
            [] OTHER         -> c

\* 256^k leaves 6 modulo ten for every k >= 1
RECURSIVE SumBytes(_, _)
SumBytes(c, i) == IF i > Len(c) THEN 0 ELSE (c[i][1] * (c[i][2] % 10) + SumBytes(c, i + 1)) % 10
RunNeg(c) == c # <<>> /\ c[Len(c)][1] >= 128
Tenfold(c) ==                \* as two's complement, divisible by ten
  c = <<>> \/ LET u == c[1][1] + 6 * (SumBytes(c, 1) + 10 - (c[1][1] % 10))
              IN (u - (IF RunNeg(c) THEN 6 ELSE 0)) % 10 = 0
=============================================================================
