----------------------------- MODULE GenDerive ------------------------------
(***************************************************************************)
(* Builds declarations step by step, then values of them.  Checked         *)
(* exhaustively over small choices (MC_Derive.cfg), and simulated over     *)
(* large ones to give the declarations that are compiled with the real     *)
(* derive macro (GenDerive.cfg): every finished one is printed as JSON.    *)
(***************************************************************************)
EXTENDS Derive, Json

CONSTANTS Choice      \* "small" or "large"

VARIABLES d,          \* the declaration so far
          stage,      \* "decl", "value", "done"
          vals,       \* finished values
          cur,        \* the value being built
          goal        \* <<fields or variants wanted at least, 0 if a written
                      \*   variant may follow a skipped one>>

vars == <<d, stage, vals, cur, goal>>

L(k) == [k |-> k, s |-> <<>>, n |-> 0]
N(k, s) == [k |-> k, s |-> s, n |-> 0]
Kf(t) == [t |-> t, skip |-> "no"]
Struct(sh, f) == [d |-> "struct", shape |-> sh, f |-> f, vs |-> <<>>]
Enum(vs) == [d |-> "enum", shape |-> "", f |-> <<>>, vs |-> vs]
Var(sh, f) == [shape |-> sh, f |-> f, skip |-> "no"]

\* declarations that fields of other declarations may use, by number
Inner == <<
  Struct("named", <<Kf(L("bool")), [t |-> L("str"), skip |-> "skip"], Kf(L("u16"))>>),
  Enum(<<Var("unit", <<>>), Var("tuple", <<Kf(L("i32"))>>), Var("named", <<Kf(L("u8")), Kf(L("bool"))>>)>>),
  Struct("unit", <<>>),
  Struct("tuple", <<Kf(L("u64"))>>),
  Struct("named", <<[t |-> L("u8"), skip |-> "skip"]>>)>>
InnerTypes == {[k |-> "decl", s |-> <<Inner[i]>>, n |-> i] : i \in 1..Len(Inner)}

LeafKinds == {"unit", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64",
              "f32", "f64", "str", "bytes", "buint", "bint", "date", "dt"}
LargeTypes ==
  LET l == {L(k) : k \in LeafKinds}
      few == {L("bool"), L("u16"), L("str"), L("unit")}
  IN l \cup InnerTypes
     \cup {N("opt", <<x>>) : x \in l} \cup {N("seq", <<x>>) : x \in l \ {L("unit")}}
     \cup {N("map", <<x>>) : x \in few} \cup {N("tup", <<x, y>>) : x, y \in few}
     \cup {N("opt", <<N("seq", <<x>>)>>) : x \in InnerTypes \cup {L("str")}}
     \cup {N("seq", <<N("tup", <<L("u8"), N("opt", <<L("i64")>>), x>>)>>) : x \in few}
     \cup {N("opt", <<N("opt", <<x>>)>>) : x \in few}
SmallTypes == {L("u8"), N("opt", <<L("bool")>>), L("unit")}

FieldTypes == IF Choice = "small" THEN SmallTypes ELSE LargeTypes
\* "no2".. are more ways to say no, so that simulation keeps most fields
Skips == IF Choice = "small" THEN {"no", "skip"}
         ELSE {"no", "no2", "no3", "no4", "skip", "ser", "de"}
Skip(s) == IF s \in {"no2", "no3", "no4"} THEN "no" ELSE s
Goals == IF Choice = "small" THEN {<<0, 0>>} ELSE {<<i, j>> : i \in 1..6, j \in 0..7}
Shapes == IF Choice = "small" THEN {"tuple"} ELSE {"tuple", "named"}
MaxFields == IF Choice = "small" THEN 3 ELSE 6
MaxVariants == IF Choice = "small" THEN 2 ELSE 5
MaxVariantFields == IF Choice = "small" THEN 2 ELSE 4

\* some values of a type, as a sequence
RECURSIVE Vals(_)
Vals(t) ==
  LET k == t.k
      Sub(i) == LET w == Vals(t.s[1]) IN w[1 + (i % Len(w))] IN
  CASE k \in {"unit", "us"} -> << <<>> >>
    [] k = "bool" -> <<0, 1>>
    [] k \in {"u8", "i8"} -> << <<0>>, <<127>>, <<200>> >>
    [] k \in {"u16", "i16"} -> << <<1, 0>>, <<255, 255>>, <<57, 48>> >>
    [] k \in {"u32", "i32", "f32"} -> << <<0, 0, 0, 0>>, <<255, 255, 255, 127>>, <<1, 2, 60, 192>> >>
    [] k \in {"u64", "i64", "f64"} -> << <<5, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 200>> >>
    [] k = "str" -> << <<>>, <<104, 195, 169>> >>
    [] k = "bytes" -> << <<>>, <<255, 0, 1>> >>
    [] k = "buint" -> << <<>>, <<0, 0, 1>> >>
    [] k = "bint" -> << <<128>>, <<128, 0>> >>
    [] k = "date" -> << <<2024, 366>>, <<1970, 1>> >>
    [] k = "dt" -> << <<<<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 101, 205, 29>>>> >>
    [] k = "opt" -> << <<>>, <<Sub(0)>>, <<Sub(1)>> >>
    [] k = "seq" -> << <<>>, <<Sub(0), Sub(1)>>, <<Sub(1)>> >>
    [] k = "map" -> << <<>>, <<<< <<107>>, Sub(1) >>>> >>
    [] k \in {"tup", "st", "sv"} ->
         << [i \in 1..Len(t.s) |-> Vals(t.s[i])[1]],
            [i \in 1..Len(t.s) |-> LET w == Vals(t.s[i]) IN w[Len(w)]] >>
    [] k = "enum" -> [i \in 1..Len(t.s) |-> LET w == Vals(t.s[i]) IN <<LE(i - 1, 4), w[Len(w)]>>]
    [] k = "decl" -> Vals(DeclType(t.s[1]))

Init ==
  /\ d \in {Struct(sh, <<>>) : sh \in Shapes \cup {"unit"}} \cup {Enum(<<>>)}
  /\ stage = "decl" /\ vals = <<>> /\ cur = <<>>
  /\ goal \in Goals

Field(t, s) == [t |-> t, skip |-> Skip(s)]

AddField ==
  /\ stage = "decl" /\ d.d = "struct" /\ d.shape # "unit" /\ Len(d.f) < MaxFields
  /\ \E t \in FieldTypes, s \in Skips : d' = [d EXCEPT !.f = Append(@, Field(t, s))]
  /\ UNCHANGED <<stage, vals, cur, goal>>

AddVariant ==
  /\ stage = "decl" /\ d.d = "enum" /\ Len(d.vs) < MaxVariants
  /\ \E sh \in Shapes \cup {"unit"}, s \in Skips \ {"ser"} :
       /\ d' = [d EXCEPT !.vs = Append(@, [shape |-> sh, f |-> <<>>, skip |-> Skip(s)])]
       /\ goal[2] = 0 \/ Aligned(d')
  /\ UNCHANGED <<stage, vals, cur, goal>>

AddVariantField ==
  /\ stage = "decl" /\ d.d = "enum" /\ d.vs # <<>>
  /\ LET n == Len(d.vs) IN
     /\ d.vs[n].shape # "unit" /\ Len(d.vs[n].f) < MaxVariantFields
     /\ \E t \in FieldTypes, s \in Skips : d' = [d EXCEPT !.vs[n].f = Append(@, Field(t, s))]
  /\ UNCHANGED <<stage, vals, cur, goal>>

\* values are tuples of one of the sample values of each field, all of them
\* in the small model, three in the large one
MaxVals == IF Choice = "small" THEN 1 ELSE 4
Fs(i) == IF d.d = "struct" THEN d.f ELSE d.vs[i + 1].f
CanClose ==
  IF d.d = "struct" THEN d.shape = "unit" \/ Len(d.f) >= goal[1] - 1
  ELSE Len(d.vs) >= (IF goal[1] > MaxVariants THEN MaxVariants ELSE goal[1])
       /\ \E i \in 1..Len(d.vs) : Written(d.vs[i].skip)

StartValue ==
  /\ stage \in {"decl", "value"} /\ CanClose /\ Len(vals) < MaxVals
  /\ stage = "decl" \/ cur = <<>>
  /\ stage' = "fill"
  /\ \E i \in (IF d.d = "struct" THEN {0} ELSE {j - 1 : j \in {j \in 1..Len(d.vs) : Written(d.vs[j].skip)}}) :
       cur' = <<i, <<>>>>
  /\ UNCHANGED <<d, vals, goal>>

FillValue ==
  /\ stage = "fill"
  /\ LET ts == Kept(Fs(cur[1]))  k == Len(cur[2]) IN
     IF k < Len(ts)
     THEN /\ \E x \in Range(Vals(ts[k + 1].t)) : cur' = <<cur[1], Append(cur[2], x)>>
          /\ UNCHANGED <<d, stage, vals, goal>>
     ELSE /\ vals' = Append(vals, IF d.d = "struct" THEN cur[2] ELSE cur)
          /\ cur' = <<>>
          /\ stage' = IF Len(vals) + 1 = MaxVals THEN "done" ELSE "value"
          /\ UNCHANGED <<d, goal>>

\* one step that prints the finished declaration
Emit ==
  /\ stage = "done" /\ Choice = "large"
  /\ PrintT("DECL " \o ToJson([d |-> d, vals |-> vals]))
  /\ stage' = "printed" /\ UNCHANGED <<d, vals, cur, goal>>

Next == AddField \/ AddVariant \/ AddVariantField \/ StartValue \/ FillValue \/ Emit

Spec == Init /\ [][Next]_vars

TypeOK == stage \in {"decl", "value", "fill", "done", "printed"}

\* the derived header describes what is written, for every finished value
Property ==
  stage = "done" /\ (d.d = "struct" \/ Aligned(d)) => \A i \in 1..Len(vals) : Describes(d, vals[i])

\* Why the restriction: false for some misaligned enum (known finding).
AlwaysDescribes == stage = "done" => \A i \in 1..Len(vals) : Describes(d, vals[i])
=============================================================================
