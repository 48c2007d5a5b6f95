------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* Type headers and dynamic bodies.                                        *)
(*                                                                         *)
(* A header is a type of Wire built from the kinds of Code only.  A body   *)
(* carries its own kinds: [k |-> kind, v |-> value], where                 *)
(*   opt   v = <<>> or <<body>>        seq, tup   v = <<body, ...>>        *)
(*   map   v = <<<<key, body>>, ...>> in increasing key order              *)
(*   enum  v = <<index, body>>         others     v as in Wire             *)
(***************************************************************************)
EXTENDS Wire, FiniteSets

Codes == [unit |-> 0, opt |-> 1, bool |-> 2, u8 |-> 3, u16 |-> 4, u32 |-> 5,
          u64 |-> 6, i8 |-> 8, i16 |-> 9, i32 |-> 10, i64 |-> 11, f32 |-> 13,
          f64 |-> 14, buint |-> 15, bint |-> 16, bdec |-> 17, str |-> 18,
          bytes |-> 19, seq |-> 20, tup |-> 21, map |-> 23, enum |-> 24,
          date |-> 25, dt |-> 26]
Nested == {"opt", "seq", "map"}
Counted == {"tup", "enum"}
Leaves == DOMAIN Codes \ (Nested \cup Counted)
KindOf == [c \in {Codes[k] : k \in DOMAIN Codes} |-> CHOOSE k \in DOMAIN Codes : Codes[k] = c]

H(k, s) == [k |-> k, s |-> s, n |-> 0]

MaxCount == 65535

RECURSIVE Expressible(_)
Expressible(h) ==
  Len(h.s) <= MaxCount /\ \A i \in 1..Len(h.s) : Expressible(h.s[i])

RECURSIVE HEnc(_)
HEnc(h) ==
  <<Codes[h.k]>>
  \o (IF h.k \in Counted THEN U16Enc(LE(Len(h.s), 2)) ELSE <<>>)
  \o Cat([i \in 1..Len(h.s) |-> HEnc(h.s[i])])

\* e is "" on success, "eof" when bytes are missing, "code" for an unknown code
HBad(e) == [ok |-> FALSE, h |-> H("unit", <<>>), p |-> 0, c |-> TRUE, e |-> e]
HGot(h, p, c) == [ok |-> TRUE, h |-> h, p |-> p, c |-> c, e |-> ""]

RECURSIVE HDec(_, _)
HDecMany(n, b, p, c0) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> p, c |-> c0, e |-> ""]
  ELSE FoldLeft(LAMBDA a, i :
         IF ~a.ok THEN a
         ELSE LET d == HDec(b, a.p)
              IN [ok |-> d.ok, v |-> Append(a.v, d.h), p |-> d.p, c |-> a.c /\ d.c, e |-> d.e],
         [ok |-> TRUE, v |-> <<>>, p |-> p, c |-> c0, e |-> ""], [i \in 1..n |-> i])

HDec(b, p) ==
  IF p > Len(b) THEN HBad("eof")
  ELSE IF b[p] \notin DOMAIN KindOf THEN HBad("code")
  ELSE LET k == KindOf[b[p]] IN
       IF k \in Leaves THEN HGot(H(k, <<>>), p + 1, TRUE)
       ELSE IF k \in Nested
       THEN LET d == HDec(b, p + 1) IN IF d.ok THEN HGot(H(k, <<d.h>>), d.p, d.c) ELSE d
       ELSE LET l == DecVar(2, b, p + 1) IN
            IF ~l.ok THEN HBad("eof")
            ELSE LET d == HDecMany(ToInt(l.v), b, l.p, l.c)
                 IN IF d.ok THEN HGot(H(k, d.v), d.p, d.c) ELSE HBad(d.e)

---------------------------------------------------------------------------
\* the header that describes a type
RECURSIVE HeaderOf(_)
HeaderOf(t) ==
  LET k == t.k IN
  CASE k = "us"     -> H("unit", <<>>)
    [] k = "nt"     -> HeaderOf(t.s[1])
    [] k = "char"   -> H("str", <<>>)
    [] k = "nbuint" -> H("buint", <<>>)
    [] k = "nbint"  -> H("bint", <<>>)
    [] k = "nbdec"  -> H("bdec", <<>>)
    [] k = "ndate"  -> H("date", <<>>)
    [] k = "ndt"    -> H("dt", <<>>)
    [] k \in Concat -> H("tup", [i \in 1..Len(t.s) |-> HeaderOf(t.s[i])])
    [] k = "enum"   -> H("enum", [i \in 1..VariantCount(t) |-> HeaderOf(VariantType(t, i - 1))])
    [] k \in Nested -> H(k, <<HeaderOf(t.s[1])>>)
    [] OTHER        -> H(k, <<>>)

---------------------------------------------------------------------------
\* the body that corresponds to a value (map entries must be in key order)
RECURSIVE BodyOf(_, _)
BodyOf(t, v) ==
  LET k == t.k IN
  CASE k \in {"unit", "us"} -> [k |-> "unit", v |-> <<>>]
    [] k = "nt"     -> BodyOf(t.s[1], v)
    [] k = "char"   -> [k |-> "str", v |-> CharBytes(v)]
    [] k = "opt"    -> [k |-> "opt", v |-> IF v = <<>> THEN <<>> ELSE <<BodyOf(t.s[1], v[1])>>]
    [] k = "seq"    -> [k |-> "seq", v |-> [i \in 1..Len(v) |-> BodyOf(t.s[1], v[i])]]
    [] k \in Concat -> [k |-> "tup", v |-> [i \in 1..Len(v) |-> BodyOf(t.s[i], v[i])]]
    [] k = "map"    -> [k |-> "map", v |-> [i \in 1..Len(v) |->
                                             <<v[i][1], BodyOf(t.s[1], v[i][2])>>]]
    [] k = "enum"   -> [k |-> "enum", v |-> <<v[1], BodyOf(VariantType(t, ToInt(v[1])), v[2])>>]
    [] k \in {"bdec", "nbdec"} -> [k |-> "bdec", v |-> NormDec(v)]
    [] OTHER        -> [k |-> HeaderOf(t).k, v |-> v]

\* conformance of a body to a header
RECURSIVE Valid(_, _)
Valid(h, y) ==
  /\ h.k = y.k
  /\ CASE h.k = "opt"  -> y.v = <<>> \/ Valid(h.s[1], y.v[1])
       [] h.k = "seq"  -> \A i \in 1..Len(y.v) : Valid(h.s[1], y.v[i])
       [] h.k = "map"  -> \A i \in 1..Len(y.v) : Valid(h.s[1], y.v[i][2])
       [] h.k = "tup"  -> Len(h.s) = Len(y.v) /\ \A i \in 1..Len(y.v) : Valid(h.s[i], y.v[i])
       [] h.k = "enum" -> LET i == ToInt(y.v[1])
                          IN i < Len(h.s) /\ Valid(h.s[i + 1], y.v[2])
       [] OTHER -> TRUE

\* the bytes of a body, from its own kinds
RECURSIVE BodyEnc(_)
BodyEnc(y) ==
  CASE y.k = "opt"  -> IF y.v = <<>> THEN <<0>> ELSE <<1>> \o BodyEnc(y.v[1])
    [] y.k = "seq"  -> LenEnc(Len(y.v)) \o Cat([i \in 1..Len(y.v) |-> BodyEnc(y.v[i])])
    [] y.k = "tup"  -> Cat([i \in 1..Len(y.v) |-> BodyEnc(y.v[i])])
    [] y.k = "map"  -> LenEnc(Len(y.v)) \o
                       Cat([i \in 1..Len(y.v) |-> BytesEnc(y.v[i][1]) \o BodyEnc(y.v[i][2])])
    [] y.k = "enum" -> U32Enc(y.v[1]) \o BodyEnc(y.v[2])
    [] OTHER        -> Enc(H(y.k, <<>>), y.v)

\* y is the body of the decoded value v of the header h (of Dec(h, ...)): map
\* entries sorted by key, the last of several entries with one key
RECURSIVE IsBodyOf(_, _, _)
IsBodyOf(h, v, y) ==
  /\ h.k = y.k
  /\ CASE h.k = "opt"  -> Len(v) = Len(y.v) /\ (v = <<>> \/ IsBodyOf(h.s[1], v[1], y.v[1]))
       [] h.k = "seq"  -> Len(v) = Len(y.v) /\ \A i \in 1..Len(v) : IsBodyOf(h.s[1], v[i], y.v[i])
       [] h.k = "tup"  -> Len(v) = Len(y.v) /\ \A i \in 1..Len(v) : IsBodyOf(h.s[i], v[i], y.v[i])
       [] h.k = "map"  -> /\ Len(y.v) = Cardinality({v[i][1] : i \in 1..Len(v)})
                          /\ \A i \in 1..Len(v) :
                               (\A j \in (i+1)..Len(v) : v[j][1] # v[i][1])
                               => \E m \in 1..Len(y.v) : y.v[m][1] = v[i][1]
                                                         /\ IsBodyOf(h.s[1], v[i][2], y.v[m][2])
       [] h.k = "enum" -> v[1] = y.v[1] /\ IsBodyOf(VariantType(h, ToInt(v[1])), v[2], y.v[2])
       [] OTHER -> VEq(h, v, y.v)

\* equality of bodies, decimals by the number they denote
RECURSIVE BodyEq(_, _)
BodyEq(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k \in {"opt", "seq", "tup"} ->
            Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : BodyEq(x.v[i], y.v[i])
       [] x.k = "map"  -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) :
                            x.v[i][1] = y.v[i][1] /\ BodyEq(x.v[i][2], y.v[i][2])
       [] x.k = "enum" -> x.v[1] = y.v[1] /\ BodyEq(x.v[2], y.v[2])
       [] OTHER -> VEq(H(x.k, <<>>), x.v, y.v)
=============================================================================
