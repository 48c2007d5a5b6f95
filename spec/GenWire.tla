------------------------------- MODULE GenWire ------------------------------
(***************************************************************************)
(* Random walks through MC_Wire, deeper than it can be explored, each      *)
(* state printed as JSON: type, value, its bytes and the bytes of its      *)
(* header.  They are replayed into the implementation.                     *)
(***************************************************************************)
EXTENDS MC_Wire, Json, TLC

\* an invariant that prints
Emit ==
  LET e == Enc(t, v) IN
  IF d > 0 /\ Len(e) <= 600
  THEN PrintT("CASE " \o ToJson([t |-> t, v |-> v, b |-> e, h |-> HEnc(HeaderOf(t))])) ELSE TRUE
=============================================================================
