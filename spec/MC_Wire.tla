------------------------------ MODULE MC_Wire -------------------------------
(***************************************************************************)
(* The wire format on its own.  A state is a type and two values of it;    *)
(* each step wraps type and values once more (option, newtype, sequence,   *)
(* map, tuple, struct, enum), so the reachable states are every type of    *)
(* at most Depth wraps over every leaf, with values that differ in every   *)
(* way the wrap allows.  The invariants are the properties of the format:  *)
(* round trip whatever follows, no proper prefix, distinct values distinct *)
(* and prefix-free encodings, one canonical form, agreement of the typed   *)
(* and the dynamic reading, and a header that survives itself.             *)
(***************************************************************************)
EXTENDS Header

CONSTANTS Depth,     \* wraps
          Kinds,     \* leaves to start from
          Rich       \* TRUE: more values per leaf, more ways to combine

VARIABLES t, v, w, d
vars == <<t, v, w, d>>

L(k) == [k |-> k, s |-> <<>>, n |-> 0]
N(k, s) == [k |-> k, s |-> s, n |-> 0]

Rep(x, n) == [i \in 1..n |-> x]
Wide(lo, n) == LE(lo, n)

IntVals(n) ==
  {Zeros(n), Rep(255, n), Wide(1, n), Wide(127, n), Wide(128, n)}
  \cup (IF Rich THEN {Complement(Wide(64, n)), [Zeros(n) EXCEPT ![n] = 128], [Rep(255, n) EXCEPT ![n] = 127]} ELSE {})
  \cup (IF n > 1 THEN {Wide(16383, n), Wide(16384, n), Complement(Wide(8191, n)), Complement(Wide(8192, n))} ELSE {})

LeafVals(k) ==
  CASE k \in {"unit", "us"} -> {<<>>}
    [] k = "bool" -> {0, 1}
    [] k \in {"u8", "i8"} -> IntVals(1)
    [] k \in {"u16", "i16"} -> IntVals(2)
    [] k \in {"u32", "i32"} -> IntVals(4)
    [] k \in {"u64", "i64"} -> IntVals(8)
    [] k = "f32" -> {Zeros(4), <<0, 0, 128, 63>>, <<0, 0, 192, 255>>}
    [] k = "f64" -> {Zeros(8), <<0, 0, 0, 0, 0, 0, 240, 63>>, <<1, 0, 0, 0, 0, 0, 240, 127>>}
    [] k = "char" -> {0, 97, 233, 26085, 1114111}
    [] k = "str" -> {<<>>, <<0>>, <<97, 98>>, <<195, 169>>} \cup (IF Rich THEN {Rep(120, 127), Rep(120, 128)} ELSE {})
    [] k = "bytes" -> {<<>>, <<0>>, <<255, 0>>, <<1>>} \cup (IF Rich THEN {Rep(200, 128)} ELSE {})
    [] k \in {"buint", "nbuint"} -> {<<>>, <<1>>, <<255>>, <<0, 1>>}
    [] k \in {"bint", "nbint"} -> {<<>>, <<1>>, <<255>>, <<128>>, <<128, 0>>, <<127, 255>>}
    [] k \in {"bdec", "nbdec"} -> {<<<<>>, Zeros(8)>>, <<<<1>>, Zeros(8)>>, <<<<10>>, Wide(1, 8)>>, <<<<1>>, Wide(1, 8)>>,
                                   <<<<100>>, Complement(Wide(1, 8))>>, <<<<255>>, Complement(Wide(2, 8))>>}
    [] k \in {"date", "ndate"} -> {<<2000, 1>>, <<1999, 365>>, <<2024, 366>>, <<-9999, 1>>, <<9999, 365>>}
    [] k \in {"dt", "ndt"} -> {<<Zeros(8), Zeros(4)>>, <<Rep(255, 8), <<255, 201, 154, 59>>>>, <<MinSecs, Zeros(4)>>,
                               <<MaxSecs, <<255, 201, 154, 59>>>>}

U8 == L("u8")

Init ==
  /\ d = 0
  /\ \E k \in Kinds : t = L(k) /\ v \in LeafVals(k) /\ w \in LeafVals(k)

\* every second leaf of a tuple or enum, with two values
Partners == {<<L("str"), <<>>, <<97>>>>, <<L("u16"), <<255, 0>>, <<0, 1>>>>}
            \cup (IF Rich THEN {<<L("unit"), <<>>, <<>>>>, <<L("bool"), 0, 1>>} ELSE {})
Key1 == <<>>
Key2 == <<107>>
Set(ty, a, b) == t' = ty /\ v' = a /\ w' = b

Opt == Set(N("opt", <<t>>), <<v>>, <<w>>) \/ Set(N("opt", <<t>>), <<>>, <<w>>)
Nt  == Rich /\ Set(N("nt", <<t>>), v, w)
Seq1 ==
  LET ty == N("seq", <<t>>) IN
  \/ Set(ty, <<v>>, <<w>>) \/ Set(ty, <<>>, <<v>>) \/ Set(ty, <<v>>, <<v, w>>)
  \/ Set(ty, <<v, w>>, <<w, v>>)
  \/ Rich /\ Set(ty, <<v, v, w>>, <<v, w, w>>)
  \/ Rich /\ d = 0 /\ Set(ty, Rep(v, 127), Rep(v, 128))
Map1 ==
  LET ty == N("map", <<t>>) IN
  \/ Set(ty, << <<Key1, v>> >>, << <<Key2, v>> >>)
  \/ Set(ty, << <<Key2, v>> >>, << <<Key2, w>> >>)
  \/ Set(ty, << <<Key1, v>>, <<Key2, w>> >>, << <<Key1, w>>, <<Key2, v>> >>)
  \/ Rich /\ Set(ty, <<>>, << <<Key1, w>> >>)
Tuple1 ==
  \/ \E p \in Partners, k \in (IF Rich THEN {"tup", "st", "ts"} ELSE {"tup"}) :
       \/ Set(N(k, <<t, p[1]>>), <<v, p[2]>>, <<w, p[3]>>)
       \/ Set(N(k, <<p[1], t>>), <<p[2], v>>, <<p[3], w>>)
       \/ Rich /\ Set(N(k, <<p[1], t>>), <<p[2], v>>, <<p[2], w>>)
       \/ Rich /\ Set(N(k, <<p[1], t, p[1]>>), <<p[3], v, p[2]>>, <<p[2], w, p[3]>>)
  \/ Set(N("tup", <<t, t>>), <<v, w>>, <<w, v>>)
  \/ Set(N("st", <<t>>), <<v>>, <<w>>)
\* the header of an enum spells out every variant
RECURSIVE HasMany(_)
HasMany(ty) == ty.n > 3 \/ \E i \in DOMAIN ty.s : HasMany(ty.s[i])
Enum1 ==
  LET Idx(i) == LE(i, 4)
      one == [k |-> "enum", s |-> <<t>>, n |-> 2]
      two == [k |-> "enum", s |-> <<L("unit"), t>>, n |-> 3]
      many == [k |-> "enum", s |-> <<t>>, n |-> 300]
      tv == [k |-> "enum", s |-> <<N("tv", <<t, U8>>), N("sv", <<U8, t>>)>>, n |-> 2] IN
  \/ Set(one, <<Idx(0), v>>, <<Idx(0), w>>) \/ Set(one, <<Idx(0), v>>, <<Idx(1), v>>)
  \/ Set(two, <<Idx(1), v>>, <<Idx(2), <<>>>>) \/ Set(two, <<Idx(1), v>>, <<Idx(0), <<>>>>)
  \/ Rich /\ ~HasMany(t) /\ Set(many, <<Idx(128), v>>, <<Idx(299), v>>)
  \/ Set(tv, <<Idx(0), <<v, <<0>>>>>>, <<Idx(1), <<<<0>>, w>>>>)

Next == d < Depth /\ d' = d + 1 /\ (Opt \/ Nt \/ Seq1 \/ Map1 \/ Tuple1 \/ Enum1)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Junk == {<<>>, <<0>>, <<255, 1>>}

RoundTrip ==
  LET e == Enc(t, v) IN
  /\ \A j \in Junk : LET r == Dec(t, e \o j, 1) IN r.ok /\ r.c /\ r.p = Len(e) + 1 /\ VEq(t, v, r.v)
  /\ Len(e) >= MinWidth(t)
  \* at any position, not only the first
  /\ LET r == Dec(t, <<1, 2>> \o e, 3) IN r.ok /\ r.p = Len(e) + 3 /\ VEq(t, v, r.v)

Truncation ==
  LET e == Enc(t, v) IN \A n \in 0..(Len(e) - 1) : ~Dec(t, SubSeq(e, 1, n), 1).ok

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Injective ==
  LET e == Enc(t, v)  f == Enc(t, w) IN
  IF VEq(t, v, w) THEN e = f ELSE ~IsPrefixOf(e, f) /\ ~IsPrefixOf(f, e)

RECURSIVE Has(_, _)
Has(ty, ks) == ty.k \in ks \/ \E i \in 1..Len(ty.s) : Has(ty.s[i], ks)

\* bytes changed one at a time: what is accepted has one canonical form, no
\* longer than what was read, and the dynamic reading accepts the same
Substitutes == {0, 1, 2, 127, 128, 192, 255}
Corruption ==
  LET e == Enc(t, v)  h == HeaderOf(t) IN
  Len(e) <= 40 => \A i \in 1..Len(e) : \A c \in Substitutes :
    LET b == [e EXCEPT ![i] = c]  r == Dec(t, b, 1)  q == Dec(h, b, 1) IN
    /\ r.ok /\ ~Has(t, {"date", "dt", "buint", "bint", "bdec", "nbdec", "nbuint", "nbint"}) =>
         LET x == Enc(t, r.v) IN
         /\ Len(x) <= r.p - 1
         /\ r.c => x = SubSeq(b, 1, r.p - 1)
    /\ ~Has(t, {"char", "ndate", "ndt"}) => (r.ok <=> q.ok) /\ (r.ok => r.p = q.p)

Dynamic ==
  LET e == Enc(t, v)  h == HeaderOf(t)  y == BodyOf(t, v)  r == Dec(h, e \o <<9>>, 1) IN
  /\ r.ok /\ r.p = Len(e) + 1
  /\ IsBodyOf(h, r.v, y)
  /\ Valid(h, y)
  /\ BodyEnc(y) = e
  /\ BodyEq(y, BodyOf(t, w)) <=> VEq(t, v, w)

\* a body is valid for another header only if that header reads its bytes
OtherHeaders == {L("unit"), L("u8"), L("str"), N("opt", <<L("bool")>>), N("seq", <<L("u16")>>),
                 N("tup", <<HeaderOf(t), L("str")>>), N("tup", <<HeaderOf(t), L("u16")>>), N("enum", <<HeaderOf(t)>>), N("map", <<HeaderOf(t)>>),
                 N("opt", <<HeaderOf(t)>>), N("seq", <<HeaderOf(t)>>)}
Conformance ==
  LET e == Enc(t, v)  y == BodyOf(t, v) IN
  \A h \in OtherHeaders :
    Valid(h, y) => LET r == Dec(h, e, 1) IN r.ok /\ r.p = Len(e) + 1 /\ IsBodyOf(h, r.v, y)

Header2 ==
  LET h == HeaderOf(t)  b == HEnc(h) IN
  /\ Expressible(h)
  /\ \A j \in Junk : HDec(b \o j, 1) = HGot(h, Len(b) + 1, TRUE)
  /\ Len(b) <= 80 => \A n \in 0..(Len(b) - 1) : HDec(SubSeq(b, 1, n), 1).e = "eof"
=============================================================================
