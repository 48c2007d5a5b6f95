------------------------------ MODULE MC_Parser -----------------------------
(***************************************************************************)
(* The byte-at-a-time parser against the declarative decoder: over every   *)
(* byte string of an alphabet, a byte at a time, for a list of types and   *)
(* for headers.                                                            *)
(***************************************************************************)
EXTENDS Parser, TLC

CONSTANTS MaxLen, Rich

VARIABLES t,        \* the type, or AnyHeader for a header
          q,        \* the parser
          read,     \* the bytes it was given
          work      \* steps since the last byte
vars == <<t, q, read, work>>

AnyHeader == [k |-> "any", s |-> <<>>, n |-> 0]
L(k) == [k |-> k, s |-> <<>>, n |-> 0]
N(k, s) == [k |-> k, s |-> s, n |-> 0]
E(s, n) == [k |-> "enum", s |-> s, n |-> n]

AllLeaves == {"unit", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "char", "str", "bytes",
              "buint", "bint", "bdec", "nbdec", "date", "ndate", "dt", "ndt"}
Inner == {"bool", "u16", "str", "char", "ndt", "bint"} \cup (IF Rich THEN AllLeaves \ {"unit"} ELSE {})
Types ==
  {AnyHeader} \cup {L(k) : k \in AllLeaves}
  \cup {N(c, <<L(k)>>) : c \in {"opt", "seq", "map"}, k \in Inner}
  \cup {N("tup", <<L(k), L("bool")>>) : k \in Inner}
  \cup {E(<<L("unit"), L(k)>>, 3) : k \in Inner}
  \cup {N("opt", <<N("opt", <<L("unit")>>)>>), N("seq", <<N("seq", <<L("bool")>>)>>), N("map", <<N("map", <<L("u8")>>)>>),
        N("seq", <<E(<<L("bool"), N("tup", <<L("u8"), L("str")>>)>>, 4)>>), N("opt", <<N("map", <<N("opt", <<L("unit")>>)>>)>>),
        N("st", <<N("nt", <<L("u32")>>), N("opt", <<L("char")>>), L("us")>>), N("tup", <<>>), E(<<>>, 0), E(<<>>, 200),
        N("seq", <<N("tup", <<L("unit"), L("bool")>>)>>)}

Alphabet == {0, 1, 2, 3, 97, 128, 169, 192, 195, 255} \cup (IF Rich THEN {127, 224, 240, 20} ELSE {})
HeaderAlphabet == {0, 1, 2, 7, 20, 21, 23, 24, 22, 128, 255} \cup (IF Rich THEN {3, 12, 26, 27, 192} ELSE {})
Over == IF t = AnyHeader THEN HeaderAlphabet ELSE Alphabet

Init == /\ t \in Types
        /\ q = IF t = AnyHeader THEN ParseHeader ELSE ParseType(t)
        /\ read = <<>> /\ work = 0

Step == Busy(q) /\ q' = Work(q) /\ work' = work + 1 /\ UNCHANGED <<t, read>>
Read == /\ Wants(q) /\ Len(read) < MaxLen
        /\ \E x \in Over : read' = Append(read, x) /\ q' = Feed(q, x)
        /\ work' = 0 /\ t' = t
Next == Step \/ Read
Spec == Init /\ [][Next]_vars /\ WF_work(Step)

---------------------------------------------------------------------------
D(b) == IF t = AnyHeader
        THEN LET d == HDec(b, 1) IN [ok |-> d.ok, v |-> d.h, p |-> d.p, c |-> d.c, e |-> d.e]
        ELSE LET d == Dec(t, b, 1) IN [ok |-> d.ok, v |-> d.v, p |-> d.p, c |-> d.c, e |-> ""]
Same(a, b) == IF t = AnyHeader THEN a = b ELSE VEq(t, a, b)
After2 == {<<>>, <<0>>, <<1, 255>>, Zeros(9), [i \in 1..9 |-> 128]}

\* finished: exactly the value of the bytes read, no more of them, no fewer
Exact ==
  Done(q) => /\ Len(q.out) = 1
             /\ \A j \in After2 : LET d == D(read \o j)
                                  IN d.ok /\ d.p = Len(read) + 1 /\ Same(d.v, q.out[1])
\* refused: no continuation of these bytes is a value
Refused ==
  q.st = "err" => \A j \in After2 : LET d == D(read \o j) IN ~d.ok /\ (t = AnyHeader => d.e = "code")
\* waiting: the bytes so far are not a value, whatever comes
Starved == Wants(q) => LET d == D(read) IN ~d.ok /\ (t = AnyHeader => d.e = "eof")

\* what was accepted in its shortest form is what the value is written as,
\* and other forms are longer (decimals also have several forms, and dates
\* of the crate's own type need not be dates)
RECURSIVE Free(_)
Free(ty) == ty.k \in {"bdec", "nbdec", "date", "dt"} \/ \E i \in 1..Len(ty.s) : Free(ty.s[i])
Again ==
  Done(q) /\ ~Free(t) =>
    LET d == D(read)
        e == IF t = AnyHeader THEN HEnc(d.v) ELSE Enc(t, d.v) IN
    IF d.c THEN e = read
    ELSE Len(e) <= Len(read)

\* termination: a bounded amount of work per byte
WorkPerByte == work <= 3 * TypeSize(t) + 3 * Len(read) + 3
\* memory: bounded by the type and the bytes that arrived
Memory == Pending(q) + Held(q) <= 2 * TypeSize(t) + 3 * Len(read) + 2

\* every parse ends, or waits for a byte
Ends == <>[](~Busy(q))
=============================================================================
