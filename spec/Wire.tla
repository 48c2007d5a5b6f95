-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format: what bytes a value of a type is, and what value of a   *)
(* type bytes are.                                                         *)
(*                                                                         *)
(* A type is [k |-> kind, s |-> <<subtypes>>, n |-> number].               *)
(*   leaves      unit bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str  *)
(*               bytes buint bint bdec date dt, and the native helpers     *)
(*               nbuint nbint nbdec ndate ndt                              *)
(*   one inside  opt seq map nt (newtype struct)                           *)
(*   several     tup st ts (struct, tuple struct), inside enums tv sv      *)
(*   enum        s lists the payload types of variants 0..Len(s)-1, and    *)
(*               variants Len(s)..n-1 repeat them (unit if s is empty)     *)
(*   us          unit struct                                               *)
(*                                                                         *)
(* Values follow the shape of their type:                                  *)
(*   integers and floats   little-endian bytes of their width              *)
(*   bool 0/1; unit <<>>; char its code point; str, bytes their bytes      *)
(*   opt <<>> or <<v>>; seq, tup, st, ts <<v, ...>>; nt the inner value    *)
(*   map <<<<key, v>>, ...>> in order of writing                           *)
(*   enum <<index as 4 bytes, payload>>                                    *)
(*   buint, bint           canonical digits (BigNum)                       *)
(*   bdec                  <<digits, scale>>                               *)
(*   date <<year, day of year>>, dt <<seconds, nanoseconds>> (Calendar),   *)
(*   <<>> for a decoded date or instant that denotes none                  *)
(***************************************************************************)
EXTENDS Varint, Utf8, BigNum, Calendar

Width(k) == CASE k \in {"u8", "i8"} -> 1 [] k \in {"u16", "i16"} -> 2
              [] k \in {"u32", "i32", "f32"} -> 4 [] k \in {"u64", "i64", "f64"} -> 8

Concat == {"tup", "st", "ts", "tv", "sv"}

VariantType(t, i) ==                 \* i: 0-based index below 2^30
  IF t.s = <<>> THEN [k |-> "unit", s |-> <<>>, n |-> 0] ELSE t.s[(i % Len(t.s)) + 1]
VariantCount(t) == IF t.n > Len(t.s) THEN t.n ELSE Len(t.s)

BytesEnc(b) == LenEnc(Len(b)) \o b

DecimalEnc(d) ==
  LET c == NormDec(d)
  IN IF c[1] = <<>> THEN <<0>> ELSE BytesEnc(c[1]) \o U64Enc(ZigEnc(c[2]))

DateEnc(v) == U32Enc(ZigEnc(LES(v[1] - 2000, 4))) \o U16Enc(LE(v[2] - 1, 2))

InstantEnc(v) == U64Enc(ZigEnc(v[1])) \o U32Enc(v[2])

RECURSIVE Enc(_, _)
Enc(t, v) ==
  LET k == t.k IN
  CASE k \in {"unit", "us"}            -> <<>>
    [] k = "bool"                      -> <<v>>
    [] k \in {"u8", "i8", "f32", "f64"} -> v
    [] k \in {"u16", "u32", "u64"}     -> VarEnc(Width(k), v)
    [] k \in {"i16", "i32", "i64"}     -> VarEnc(Width(k), ZigEnc(v))
    [] k = "char"                      -> BytesEnc(CharBytes(v))
    [] k \in {"str", "bytes"}          -> BytesEnc(v)
    [] k = "opt"                       -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(t.s[1], v[1])
    [] k = "seq"                       -> LenEnc(Len(v)) \o
                                          Cat([i \in 1..Len(v) |-> Enc(t.s[1], v[i])])
    [] k = "map"                       -> LenEnc(Len(v)) \o
                                          Cat([i \in 1..Len(v) |->
                                                BytesEnc(v[i][1]) \o Enc(t.s[1], v[i][2])])
    [] k = "nt"                        -> Enc(t.s[1], v)
    [] k \in Concat                    -> Cat([i \in 1..Len(v) |-> Enc(t.s[i], v[i])])
    [] k = "enum"                      -> U32Enc(v[1]) \o Enc(VariantType(t, ToInt(v[1])), v[2])
    [] k \in {"buint", "bint", "nbuint", "nbint"} -> BytesEnc(v)
    [] k \in {"bdec", "nbdec"}         -> DecimalEnc(v)
    [] k \in {"date", "ndate"}         -> DateEnc(v)
    [] k \in {"dt", "ndt"}             -> InstantEnc(v)

---------------------------------------------------------------------------
\* Decoding at position p of b.  c is TRUE when every count, length and
\* integer in it was in the form an encoder writes.
Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0, c |-> TRUE]
Got(v, p, c) == [ok |-> TRUE, v |-> v, p |-> p, c |-> c]
Left(b, p) == Len(b) - p + 1                       \* bytes from p on

DecVar(w, b, p) ==
  LET d == VarDec(w, b, p)
      n == d.p - p
  IN IF d.ok THEN Got(d.v, d.p, n = VarLen(w, d.v) /\ (n = w + 1 => b[p] = MaxMarker(w)))
     ELSE Bad

DecRaw(n, b, p) ==
  IF n > Left(b, p) THEN Bad ELSE Got(SubSeq(b, p, p + n - 1), p + n, TRUE)

DecBytes(b, p) ==
  LET l == DecVar(8, b, p) IN
  IF ~l.ok THEN Bad
  ELSE LET d == DecRaw(ToInt(l.v), b, l.p)
       IN IF d.ok THEN Got(d.v, d.p, l.c) ELSE Bad

DecStr(b, p) ==
  LET d == DecBytes(b, p) IN IF d.ok /\ IsUtf8(d.v) THEN d ELSE Bad

DecTag(b, p) ==
  IF Left(b, p) < 1 \/ b[p] > 1 THEN Bad ELSE Got(b[p], p + 1, TRUE)

DecDecimal(b, p) ==
  LET d == DecBytes(b, p) IN
  IF ~d.ok THEN Bad
  ELSE IF d.v = <<>> THEN Got(<<<<>>, Zeros(8)>>, d.p, d.c)
  ELSE LET s == DecVar(8, b, d.p)
       IN IF s.ok THEN Got(<<CanonS(d.v), ZigDec(s.v)>>, s.p,
                           d.c /\ s.c /\ IsCanonS(d.v))
          ELSE Bad

\* the year and day of the wire, if they are a date; whether they fit the
\* fields of the crate's own type at all
WireYear(y) == SmallInt(ZigDec(y)) + 2000
YearFits(y) == LET z == ZigDec(y) IN ~SLt(<<47, 248, 255, 127>>, z)   \* 2^31-1-2000
DayFits(o) == o # <<255, 255>>

DecDate(native, b, p) ==
  LET y == DecVar(4, b, p) IN
  IF ~y.ok THEN Bad ELSE
  LET o == DecVar(2, b, y.p) IN
  IF ~o.ok THEN Bad ELSE
  LET yy == WireYear(y.v)  dd == ToInt(o.v) + 1
      good == IsDate(yy, dd)
  IN IF good THEN Got(<<yy, dd>>, o.p, y.c /\ o.c)
     ELSE IF native \/ ~YearFits(y.v) \/ ~DayFits(o.v) THEN Bad
     ELSE Got(<<>>, o.p, FALSE)

DecInstant(native, b, p) ==
  LET s == DecVar(8, b, p) IN
  IF ~s.ok THEN Bad ELSE
  LET n == DecVar(4, b, s.p) IN
  IF ~n.ok THEN Bad ELSE
  LET z == ZigDec(s.v)  i == Instant(z, n.v)
  IN IF i = <<>> /\ native THEN Bad
     ELSE Got(i, n.p, s.c /\ n.c /\ i # <<>> /\ InRange(z) /\ Lt(n.v, Giga))

\* fewest bytes a value of the type can take
RECURSIVE MinWidth(_)
MinWidth(t) ==
  LET k == t.k IN
  CASE k \in {"unit", "us"} -> 0
    [] k = "f32" -> 4 [] k = "f64" -> 8 [] k = "char" -> 2
    [] k \in {"date", "dt", "ndate", "ndt"} -> 2
    [] k = "nt" -> MinWidth(t.s[1])
    [] k \in Concat -> FoldLeft(LAMBDA a, x : a + MinWidth(x), 0, t.s)
    [] OTHER -> 1

RECURSIVE Dec(_, _, _)
DecSeq(ty, key, n, b, p, c0) ==
  IF n * (IF MinWidth(ty) = 0 /\ ~key THEN 0 ELSE 1) > Left(b, p) THEN Bad
  ELSE FoldLeft(LAMBDA a, i :
         IF ~a.ok THEN a
         ELSE IF key
         THEN LET kk == DecStr(b, a.p)
                  d == IF kk.ok THEN Dec(ty, b, kk.p) ELSE Bad
              IN IF d.ok THEN Got(Append(a.v, <<kk.v, d.v>>), d.p, a.c /\ kk.c /\ d.c)
                 ELSE Bad
         ELSE LET d == Dec(ty, b, a.p)
              IN IF d.ok THEN Got(Append(a.v, d.v), d.p, a.c /\ d.c) ELSE Bad,
         Got(<<>>, p, c0), [i \in 1..n |-> i])

Dec(t, b, p) ==
  LET k == t.k IN
  CASE k \in {"unit", "us"} -> Got(<<>>, p, TRUE)
    [] k = "bool" -> DecTag(b, p)
    [] k \in {"u8", "i8", "f32", "f64"} -> DecRaw(Width(k), b, p)
    [] k \in {"u16", "u32", "u64"} -> DecVar(Width(k), b, p)
    [] k \in {"i16", "i32", "i64"} ->
         LET d == DecVar(Width(k), b, p) IN IF d.ok THEN [d EXCEPT !.v = ZigDec(@)] ELSE Bad
    [] k = "char" ->
         LET d == DecBytes(b, p)
         IN IF d.ok /\ IsOneChar(d.v) THEN [d EXCEPT !.v = CharOf(@)] ELSE Bad
    [] k = "str" -> DecStr(b, p)
    [] k = "bytes" -> DecBytes(b, p)
    [] k = "opt" ->
         LET g == DecTag(b, p) IN
         IF ~g.ok THEN Bad
         ELSE IF g.v = 0 THEN Got(<<>>, g.p, TRUE)
         ELSE LET d == Dec(t.s[1], b, g.p) IN IF d.ok THEN [d EXCEPT !.v = <<@>>] ELSE Bad
    [] k \in {"seq", "map"} ->
         LET l == DecVar(8, b, p)
         IN IF l.ok THEN DecSeq(t.s[1], k = "map", ToInt(l.v), b, l.p, l.c) ELSE Bad
    [] k = "nt" -> Dec(t.s[1], b, p)
    [] k \in Concat ->
         FoldLeft(LAMBDA a, ty :
           IF ~a.ok THEN a
           ELSE LET d == Dec(ty, b, a.p)
                IN IF d.ok THEN Got(Append(a.v, d.v), d.p, a.c /\ d.c) ELSE Bad,
           Got(<<>>, p, TRUE), t.s)
    [] k = "enum" ->
         LET i == DecVar(4, b, p) IN
         IF ~i.ok \/ ToInt(i.v) >= VariantCount(t) THEN Bad
         ELSE LET d == Dec(VariantType(t, ToInt(i.v)), b, i.p)
              IN IF d.ok THEN Got(<<i.v, d.v>>, d.p, i.c /\ d.c) ELSE Bad
    [] k \in {"buint", "nbuint"} ->
         LET d == DecBytes(b, p)
         IN IF d.ok THEN Got(CanonU(d.v), d.p, d.c /\ IsCanonU(d.v)) ELSE Bad
    [] k \in {"bint", "nbint"} ->
         LET d == DecBytes(b, p)
         IN IF d.ok THEN Got(CanonS(d.v), d.p, d.c /\ IsCanonS(d.v)) ELSE Bad
    [] k \in {"bdec", "nbdec"} -> DecDecimal(b, p)
    [] k = "date" -> DecDate(FALSE, b, p)
    [] k = "ndate" -> DecDate(TRUE, b, p)
    [] k = "dt" -> DecInstant(FALSE, b, p)
    [] k = "ndt" -> DecInstant(TRUE, b, p)

---------------------------------------------------------------------------
\* equality of decoded values: decimals by the number they denote
RECURSIVE VEq(_, _, _)
VEq(t, a, b) ==
  LET k == t.k IN
  \/ a = b
  \/ CASE k \in {"bdec", "nbdec"} -> SameDec(a, b)
       [] k = "nt"     -> VEq(t.s[1], a, b)
       [] k = "opt"    -> Len(a) = 1 /\ Len(b) = 1 /\ VEq(t.s[1], a[1], b[1])
       [] k = "seq"    -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(t.s[1], a[i], b[i])
       [] k = "map"    -> Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                            a[i][1] = b[i][1] /\ VEq(t.s[1], a[i][2], b[i][2])
       [] k \in Concat -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(t.s[i], a[i], b[i])
       [] k = "enum"   -> a[1] = b[1] /\ VEq(VariantType(t, ToInt(a[1])), a[2], b[2])
       [] OTHER        -> FALSE

---------------------------------------------------------------------------
\* Values outside the format.  seqx, mapx: length not declared; mapk: keys of
\* the type s[2]; u128, i128.  Writable says whether the format can express v.
RECURSIVE Writable(_, _)
Writable(t, v) ==
  LET k == t.k IN
  CASE k \in {"u128", "i128", "seqx", "mapx"} -> FALSE
    [] k = "mapk"   -> \A i \in 1..Len(v) : t.s[2].k = "str" /\ Writable(t.s[1], v[i][2])
    [] k = "map"    -> \A i \in 1..Len(v) : Writable(t.s[1], v[i][2])
    [] k \in {"opt", "seq"} -> \A i \in 1..Len(v) : Writable(t.s[1], v[i])
    [] k = "nt"     -> Writable(t.s[1], v)
    [] k \in Concat -> \A i \in 1..Len(v) : Writable(t.s[i], v[i])
    [] k = "enum"   -> Writable(VariantType(t, ToInt(v[1])), v[2])
    [] OTHER        -> TRUE
\* the same value of the type with mapk read as map
RECURSIVE Plain(_)
Plain(t) == [k |-> IF t.k = "mapk" THEN "map" ELSE t.k, n |-> t.n,
             s |-> IF t.k = "mapk" THEN <<Plain(t.s[1])>> ELSE [i \in 1..Len(t.s) |-> Plain(t.s[i])]]
=============================================================================
