------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* Messages through a sink or a source that accepts and delivers as it     *)
(* likes.  A message here is just its encoding, a byte string; only the    *)
(* number of bytes of the current message that have passed matters.        *)
(*                                                                         *)
(* State [n |-> messages finished, at |-> bytes of the current message     *)
(* that have passed, ph |-> phase]; phases                                 *)
(*   idle      between messages                                            *)
(*   busy      inside a message                                            *)
(*   broken    the other side failed or ended while a byte was missing     *)
(*   over      an error was reported; nothing is promised afterwards       *)
(*                                                                         *)
(* Each step is given as a guard (the reason it is not allowed, "" if it   *)
(* is) and an effect.  Sink and source differ in names only, except that   *)
(* a source that offers more bytes than the message has must not be asked. *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start == [n |-> 0, at |-> 0, ph |-> "idle"]

BeginWhy(s, count) ==
  IF s.ph # "idle" THEN "began in the middle of a message"
  ELSE IF s.n >= count THEN "began one message too many" ELSE ""
Begin(s) == [s EXCEPT !.ph = "busy", !.at = 0]

\* k bytes pass
PassWhy(s, k, size) ==
  IF s.ph \notin {"busy", "broken"} THEN "bytes passed outside a message"
  ELSE IF s.at + k > size THEN "a byte beyond the end of the message"
  ELSE ""
Pass(s, k) == [s EXCEPT !.at = @ + k]

\* an interrupted call: to be retried, no byte passed
IntrWhy(s, size) ==
  IF s.ph \notin {"busy", "broken"} THEN "a call outside a message"
  ELSE IF s.at >= size THEN "a call after the last byte" ELSE ""

\* the other side fails, or says it is full or at its end
BreakWhy(s, size) == IntrWhy(s, size)
Break(s) == [s EXCEPT !.ph = "broken"]

\* success is reported
OkWhy(s, size) ==
  IF s.ph = "idle" THEN "ended before it began"
  ELSE IF s.ph = "broken" THEN "success reported after a failure"
  ELSE IF s.at # size THEN "success reported before the last byte" ELSE ""
Ok(s) == [n |-> s.n + 1, at |-> 0, ph |-> "idle"]

\* an error is reported
ErrWhy(s) == IF s.ph # "broken" THEN "an error without a failure" ELSE ""
Err(s) == [s EXCEPT !.ph = "over"]
=============================================================================
