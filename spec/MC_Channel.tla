----------------------------- MODULE MC_Channel -----------------------------
(***************************************************************************)
(* A writer and a reader as loops over a piecemeal sink or source, as a    *)
(* refinement of Channel.                                                  *)
(*                                                                         *)
(* A message is written or read in chunks (a length, then the contents).   *)
(* For each chunk the loop calls the other side with what is missing, adds *)
(* up what it answers, calls again when interrupted, and gives up when it  *)
(* fails or has nothing more.  The other side answers as it likes.         *)
(***************************************************************************)
EXTENDS Channel

CONSTANTS Messages,     \* each a sequence of chunk sizes
          MaxMessages

Small  == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Larger == Small \cup {<<3>>, <<1, 1, 1>>, <<0, 2>>}

VARIABLES source,   \* is the other side a source?
          msgs,     \* the messages of this session
          avail,    \* bytes left in the source, or in the sink
          s,        \* state of Channel
          c, off,   \* chunk and bytes of it that have passed
          bad,      \* the loop has seen a failure
          total,    \* bytes passed in this session
          why       \* why Channel did not allow a step, "" while it did
vars == <<source, msgs, avail, s, c, off, bad, total, why>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Size(m) == Sum(m)
All(ms) == Sum([i \in 1..Len(ms) |-> Size(ms[i])])
Current == IF s.n < Len(msgs) THEN msgs[s.n + 1] ELSE <<>>

Init ==
  /\ source \in BOOLEAN
  /\ \E n \in 1..MaxMessages : msgs \in [1..n -> Messages]
  /\ avail \in 0..(All(msgs) + 2)
  /\ s = Start /\ c = 1 /\ off = 0 /\ bad = FALSE /\ total = 0 /\ why = ""

In == s.ph \in {"busy", "broken"} /\ ~bad
Missing == Current[c] - off
Keep == UNCHANGED <<source, msgs>>

BeginMsg ==
  /\ s.ph = "idle" /\ s.n < Len(msgs)
  /\ why' = BeginWhy(s, Len(msgs)) /\ s' = Begin(s)
  /\ c' = 1 /\ off' = 0 /\ Keep /\ UNCHANGED <<avail, bad, total>>

NextChunk ==
  /\ In /\ c <= Len(Current) /\ Missing = 0
  /\ c' = c + 1 /\ off' = 0 /\ Keep /\ UNCHANGED <<avail, s, bad, total, why>>

Call == In /\ c <= Len(Current) /\ Missing > 0

Answer ==
  /\ Call
  /\ \E k \in 1..Missing :
       /\ k <= avail
       /\ why' = PassWhy(s, k, Size(Current)) /\ s' = Pass(s, k)
       /\ off' = off + k /\ avail' = avail - k /\ total' = total + k
  /\ Keep /\ UNCHANGED <<c, bad>>

Interrupt ==
  /\ Call
  /\ why' = IntrWhy(s, Size(Current)) /\ s' = s
  /\ Keep /\ UNCHANGED <<avail, c, off, bad, total>>

\* it fails at any time, and says zero when nothing is left
Fail ==
  /\ Call
  /\ why' = BreakWhy(s, Size(Current)) /\ s' = Break(s) /\ bad' = TRUE
  /\ Keep /\ UNCHANGED <<avail, c, off, total>>
Empty == avail = 0 /\ Fail

EndMsg ==
  /\ In /\ c > Len(Current)
  /\ why' = OkWhy(s, Size(Current)) /\ s' = Ok(s)
  /\ Keep /\ UNCHANGED <<avail, c, off, bad, total>>

GiveUp ==
  /\ bad /\ s.ph # "over"
  /\ why' = ErrWhy(s) /\ s' = Err(s)
  /\ Keep /\ UNCHANGED <<avail, c, off, bad, total>>

Next == BeginMsg \/ NextChunk \/ Answer \/ Interrupt \/ Fail \/ EndMsg \/ GiveUp

\* the other side does not interrupt for ever
Spec == Init /\ [][Next]_vars /\ WF_vars(BeginMsg) /\ WF_vars(NextChunk) /\ WF_vars(EndMsg) /\ WF_vars(GiveUp)
             /\ SF_vars(Answer) /\ SF_vars(Empty)

---------------------------------------------------------------------------
\* every step is one that Channel allows
Allowed == why = ""

\* what passed is the finished messages and a part of the current one
Accounted ==
  LET done == Sum([i \in 1..s.n |-> Size(msgs[i])]) IN
  /\ total = done + s.at
  /\ s.at <= Size(Current)
  /\ s.ph = "idle" => total = done

\* success for all messages only if all bytes passed; an error only after a
\* failure, with a byte missing
Honest ==
  /\ s.n = Len(msgs) => total = All(msgs)
  /\ s.ph = "over" => bad /\ s.at < Size(Current)

\* every session ends: in success for every message, or in one error
Ends == <>(s.n = Len(msgs) \/ s.ph = "over")
\* and in success if nothing fails and there is room
Delivers == [](s.ph # "broken" /\ avail >= All(msgs) - total) => <>(s.n = Len(msgs))
=============================================================================
