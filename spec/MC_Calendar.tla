---------------------------- MODULE MC_Calendar -----------------------------
(***************************************************************************)
(* Dates and instants: every day of chosen years and every impossible day  *)
(* around them; instants around every boundary.                            *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Years      \* "some" or "all"

VARIABLES y, o, phase
vars == <<y, o, phase>>

YearSet ==
  IF Years = "all" THEN -10001..10001
  ELSE (-10001..-9990) \cup (-405..-395) \cup (-8..8) \cup (1895..1905) \cup (1968..2030) \cup (2096..2104)
       \cup (2396..2404) \cup (9990..10001)

Init == y \in YearSet /\ o = 0 /\ phase = "date"
Next == o < 368 /\ o' = (IF o = 0 THEN 1 ELSE IF Years = "all" /\ o > 3 /\ o < 362 THEN o + 17 ELSE o + 1)
        /\ UNCHANGED <<y, phase>>
Spec == Init /\ [][Next]_vars

T(k) == [k |-> k, s |-> <<>>, n |-> 0]

\* leap years counted another way: 97 in every 400 years
LeapCount(a, b) == LET s == {z \in a..b : IsLeap(z)} IN s

Round ==
  LET e == DateEnc(<<y, o>>)
      c == Dec(T("date"), e \o <<9>>, 1)  nat == Dec(T("ndate"), e \o <<9>>, 1)
  IN o >= 1 =>
     IF IsDate(y, o)
     THEN /\ c.ok /\ nat.ok /\ c.c /\ nat.c /\ c.v = <<y, o>> /\ nat.v = <<y, o>>
          /\ c.p = Len(e) + 1 /\ nat.p = c.p
          /\ \A n \in 0..(Len(e)-1) : ~Dec(T("date"), SubSeq(e, 1, n), 1).ok
     ELSE ~nat.ok /\ (c.ok => c.v = <<>>)

\* day 366 exists exactly in leap years; 367 never, nor day 0
Days == /\ IsDate(y, 365) = (y \in MinYear..MaxYear)
        /\ IsDate(y, 366) = (y \in MinYear..MaxYear /\ (y % 4 = 0 /\ (y % 100 = 0 => y % 400 = 0)))
        /\ ~IsDate(y, 367) /\ ~IsDate(y, 0)

\* instants near the ends of the range, the epoch, and with odd nanoseconds
Secs == {Add(b, LES(d, 8)) : b \in {MinSecs, MaxSecs, Zeros(8), <<255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 0, 0, 0, 0, 0, 0, 128>>},
                             d \in -3..3}
Nanos == {Zeros(4), LE(1, 4), LE(999999999, 4), Giga, Add(Giga, LE(1, 4)), <<255, 255, 255, 255>>}
Instants ==
  \A s \in Secs, n \in Nanos :
    LET e == InstantEnc(<<s, n>>)
        c == Dec(T("dt"), e, 1)  nat == Dec(T("ndt"), e, 1)
    IN IF InRange(s) /\ Lt(n, Giga)
       THEN c.ok /\ nat.ok /\ c.c /\ nat.c /\ c.v = <<s, n>> /\ nat.v = <<s, n>> /\ c.p = Len(e) + 1
       ELSE /\ ~c.c \/ ~c.ok
            /\ nat.ok => InRange(nat.v[1]) /\ Lt(nat.v[2], Giga)

Inv == Round /\ (o = 0 => Days) /\ (o = 0 /\ y = 0 => Instants)
=============================================================================
