------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Declarations that derive both serialization and a header: what serde    *)
(* writes for their values, and the header that must describe it.          *)
(*                                                                         *)
(* A field is [t |-> type, skip |-> "no" | "skip" | "ser" | "de"]: kept,   *)
(* skip, skip_serializing, skip_deserializing (the last one is written).   *)
(* A declaration is                                                        *)
(*   [d |-> "struct", shape |-> "named"|"tuple"|"unit", f |-> fields,      *)
(*    vs |-> <<>>]                                                         *)
(*   [d |-> "enum", shape |-> "", f |-> <<>>, vs |-> variants], a variant  *)
(*   being [shape, f, skip].                                               *)
(* A type inside may be another declaration: [k |-> "decl", s |-> <<decl>>,*)
(* n |-> its number].                                                      *)
(*                                                                         *)
(* A value of a struct is the list of the values of its kept fields; of an *)
(* enum <<position of the variant (from 0), values of its kept fields>>.   *)
(***************************************************************************)
EXTENDS Header, TLC

Written(skip) == skip \in {"no", "de"}
Kept(fs) == SelectSeq(fs, LAMBDA f : Written(f.skip))

\* serde counts every variant, written or not; the header lists the written
\* ones.  They agree when no skipped variant precedes a written one.
Aligned(d) ==
  \A i, j \in 1..Len(d.vs) : i < j /\ ~Written(d.vs[i].skip) => ~Written(d.vs[j].skip)

\* the type of Wire that a declaration amounts to
RECURSIVE DeclType(_), Resolve(_)
Resolve(t) ==
  IF t.k = "decl" THEN DeclType(t.s[1])
  ELSE [t EXCEPT !.s = [i \in 1..Len(t.s) |-> Resolve(t.s[i])]]

Unit == [k |-> "unit", s |-> <<>>, n |-> 0]
Types(fs) == LET ks == Kept(fs) IN [i \in 1..Len(ks) |-> Resolve(ks[i].t)]
Payload(fs) ==
  LET ts == Types(fs) IN
  IF ts = <<>> THEN Unit
  ELSE IF Len(ts) = 1 THEN ts[1]
  ELSE [k |-> "sv", s |-> ts, n |-> 0]
DeclType(d) ==
  IF d.d = "struct" THEN [k |-> "st", s |-> Types(d.f), n |-> 0]
  ELSE LET vs == SelectSeq(d.vs, LAMBDA v : Written(v.skip))
       IN [k |-> "enum", s |-> [i \in 1..Len(vs) |-> Payload(vs[i].f)], n |-> Len(vs)]

DeclHeader(d) == HeaderOf(DeclType(d))

\* what serde writes: fields in order, an index and the fields of a variant
Fields(fs, vals) ==
  LET ts == Types(fs) IN Cat([i \in 1..Len(ts) |-> Enc(ts[i], vals[i])])
DeclEnc(d, v) ==
  IF d.d = "struct" THEN Fields(d.f, v)
  ELSE U32Enc(LE(v[1], 4)) \o Fields(d.vs[v[1] + 1].f, v[2])

\* the body that corresponds to the value
FieldsBody(fs, vals) ==
  LET ts == Types(fs)  bs == [i \in 1..Len(ts) |-> BodyOf(ts[i], vals[i])] IN bs
DeclBody(d, v) ==
  IF d.d = "struct" THEN [k |-> "tup", v |-> FieldsBody(d.f, v)]
  ELSE LET bs == FieldsBody(d.vs[v[1] + 1].f, v[2])
       IN [k |-> "enum", v |-> <<LE(v[1], 4),
             IF bs = <<>> THEN [k |-> "unit", v |-> <<>>]
             ELSE IF Len(bs) = 1 THEN bs[1]
             ELSE [k |-> "tup", v |-> bs]>>]

---------------------------------------------------------------------------
\* the property on the specification: the header describes the bytes
Describes(d, v) ==
  LET h == DeclHeader(d)  e == DeclEnc(d, v)  x == Dec(h, e, 1)
  IN x.ok /\ x.p = Len(e) + 1 /\ IsBodyOf(h, x.v, DeclBody(d, v)) /\ Valid(h, DeclBody(d, v))

\* One recorded value of one derived type: d, v, the header bytes h, whether
\* it serialized (s) and to what (b), and the body decoded under the header
\* (r, y, n).
Misaligned == "the index counts skipped variants, the header does not"
WhyDerived(o) ==
  LET hb == HEnc(DeclHeader(o.d))  e == DeclEnc(o.d, o.v) IN
  IF o.h # hb THEN "wrong derived header, expected " \o ToString(hb)
  ELSE IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes, expected " \o ToString(e)
  ELSE IF o.d.d = "enum" /\ ~Aligned(o.d)
  THEN IF o.r = 1 /\ o.n = Len(e) /\ BodyEq(DeclBody(o.d, o.v), o.y) THEN "" ELSE Misaligned
  ELSE IF o.r = 0 THEN "does not decode under its header"
  ELSE IF ~BodyEq(DeclBody(o.d, o.v), o.y) THEN "another body under its header"
  ELSE IF o.n # Len(e) THEN "the body took another number of bytes" ELSE ""

\* One recorded value of one declaration that is read as it is written: what
\* it serialized to (s, b), whether its own type decoded that (r, n) and what
\* the outcome serialized to (s2, b2).  What it holds in fields that are not
\* written is not compared.
WhyTyped(o) ==
  LET e == DeclEnc(o.d, o.v) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes, expected " \o ToString(e)
  ELSE IF o.r = 0 THEN "the declared type does not decode what it wrote"
  ELSE IF o.n # Len(e) THEN "the declared type took another number of bytes"
  ELSE IF o.s2 = 0 \/ o.b2 # e THEN "the declared type decodes another value" ELSE ""

\* A declaration of o.c fields or variants, seen only as whether the macro
\* accepted it (ok) and the bytes its header begins with (<<>>: not known).
WhyWideDecl(o) ==
  IF o.c > MaxCount THEN IF o.ok = 1 THEN "derived a header the format cannot express" ELSE ""
  ELSE IF o.ok = 0 THEN "refused to derive"
  ELSE LET pre == <<Codes[o.k]>> \o U16Enc(LE(o.c, 2)) IN
       IF o.head # <<>> /\ (Len(o.head) < Len(pre) \/ SubSeq(o.head, 1, Len(pre)) # pre) THEN "wrong derived header" ELSE ""

\* a declaration whose fields are written for some values only
WhyNoDecl(o) == IF o.ok = 1 THEN "derived a header for " \o o.what ELSE ""
=============================================================================
