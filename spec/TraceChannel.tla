---------------------------- MODULE TraceChannel ----------------------------
(***************************************************************************)
(* Recorded sessions with a scripted sink or source, walked through        *)
(* Channel.  An operation "sink" or "source" is one session: the messages, *)
(* and every call the implementation made on the sink or source together   *)
(* with what was answered.                                                 *)
(***************************************************************************)
EXTENDS Header, Channel, Json, IOUtils, TLC

VARIABLES op,      \* which operation
          ev,      \* how many of its events have been walked
          st,      \* state of Channel
          done     \* bytes of finished messages

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the operations of all sessions in one list: <<session, operation>>
Ops == Cat([i \in 1..Len(Trace) |-> [j \in 1..Len(Trace[i].ops) |-> <<i, j>>]])
Op(i) == Trace[Ops[i][1]].ops[Ops[i][2]]

MsgEnc(m) ==
  CASE m.m = "typed"  -> Enc(m.t, m.v)
    [] m.m = "header" -> HEnc(m.t)
    [] m.m = "body"   -> BodyEnc(BodyOf(m.t, m.v))
    [] m.m = "raw"    -> m.b         \* only the sink matters

\* what a finished message must have come back as
Same(m, w) ==
  CASE m.m = "typed"  -> VEq(m.t, m.v, w)
    [] m.m = "header" -> m.t = w
    [] m.m = "body"   -> BodyEq(BodyOf(m.t, m.v), w)

Msg(o, s) == o.msgs[s.n + 1]
Current(o, s) == IF s.n < Len(o.msgs) THEN MsgEnc(Msg(o, s)) ELSE <<>>

\* the reason event e of operation o is not allowed in state s
EventWhy(o, s, e) ==
  LET c == Current(o, s)  size == Len(c) IN
  CASE e.e = "begin" -> BeginWhy(s, Len(o.msgs))
    [] e.e = "took"  ->
         LET w == PassWhy(s, Len(e.b), size)
         IN IF w # "" THEN w
            ELSE IF SubSeq(c, s.at + 1, s.at + Len(e.b)) # e.b THEN "wrong bytes accepted"
            ELSE ""
    [] e.e = "gave"  -> PassWhy(s, e.k, size)
    [] e.e = "intr"  -> IntrWhy(s, size)
    [] e.e \in {"fail", "zero"} -> BreakWhy(s, size)
    [] e.e = "end" /\ e.ok = 1 ->
         LET w == OkWhy(s, size)
         IN IF w # "" THEN w
            ELSE IF o.o = "source" /\ ~Same(Msg(o, s), e.w) THEN "another value came back" ELSE ""
    [] e.e = "end" /\ e.ok = 0 -> ErrWhy(s)

After(o, s, e) ==
  CASE e.e = "begin" -> Begin(s)
    [] e.e = "took"  -> Pass(s, Len(e.b))
    [] e.e = "gave"  -> Pass(s, e.k)
    [] e.e = "intr"  -> s
    [] e.e \in {"fail", "zero"} -> Break(s)
    [] e.e = "end" /\ e.ok = 1 -> Ok(s)
    [] e.e = "end" /\ e.ok = 0 -> Err(s)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* what the source holds must be the messages, then junk, or a part of them
DataWhy(o) ==
  IF o.o = "sink" THEN ""
  ELSE LET all == Cat([i \in 1..Len(o.msgs) |-> MsgEnc(o.msgs[i])])
       IN IF IsPrefixOf(o.data, all) \/ IsPrefixOf(all, o.data) THEN "" ELSE "wrong bytes written"

Report(o, w) == IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(Ops[op][1]) \o " " \o ToString(o.i) \o " " \o w)

Init == op \in 1..Len(Ops) /\ ev = 0 /\ st = Start /\ done = 0

\* the walk ends at the first event that is not allowed
Next ==
  LET o == Op(op) IN
  /\ st.ph # "rejected"
  /\ op' = op
  /\ IF o.x # "ok"
     THEN /\ Report(o, o.x) /\ st' = [st EXCEPT !.ph = "rejected"] /\ UNCHANGED <<ev, done>>
     ELSE /\ ev < Len(o.evs)
          /\ LET e == o.evs[ev + 1]
                 w == IF ev = 0 /\ DataWhy(o) # "" THEN DataWhy(o) ELSE EventWhy(o, st, e)
             IN /\ Report(o, w)
                /\ ev' = ev + 1
                /\ st' = IF w = "" THEN After(o, st, e) ELSE [st EXCEPT !.ph = "rejected"]
                /\ done' = IF w = "" /\ e.e = "end" /\ e.ok = 1
                           THEN done + Len(Current(o, st)) ELSE done

Spec == Init /\ [][Next]_<<op, ev, st, done>>

\* the walk visited every event of every operation it did not reject
Finished == ~ENABLED Next => st.ph = "rejected" \/ ev = Len(Op(op).evs)
=============================================================================
