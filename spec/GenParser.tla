------------------------------ MODULE GenParser -----------------------------
(***************************************************************************)
(* The byte strings MC_Parser goes through, printed as JSON where a value  *)
(* is finished, refused, or still waits for a byte: type (none for a       *)
(* header) and bytes.  They are replayed into the implementation.          *)
(***************************************************************************)
EXTENDS MC_Parser, Json

\* an invariant that prints
Emit ==
  IF ~Busy(q)
  THEN PrintT("CASE " \o ToJson([t |-> t, h |-> IF t = AnyHeader THEN t ELSE HeaderOf(t), b |-> read, e |-> IF Done(q) THEN "done" ELSE IF q.st = "err" THEN "err" ELSE "wait"]))
  ELSE TRUE
=============================================================================
