------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* A parser that works through bytes one at a time.                        *)
(*                                                                         *)
(* State [st, todo, out]:                                                  *)
(*   st    "run", "err"; finished when "run" and todo is empty             *)
(*   todo  what is still to be parsed, next first (the stack)              *)
(*   out   values finished so far, last first                              *)
(*                                                                         *)
(* A frame of todo either works without a byte (Work) or takes one (Feed). *)
(*   ty t          a value of type t                                       *)
(*   byte c        one byte, then c                                        *)
(*   var w c       a varint of w bytes, then c                             *)
(*   more w n a c  n more bytes after the varint's first, a so far         *)
(*   raw n a c     n bytes, a so far, then c                               *)
(*   items n a t   n elements or entries, those in a are finished          *)
(*   make k n      take the last n values and make one of kind k           *)
(*   hdr           a header                                                *)
(* c names what becomes of the bytes (After).                              *)
(***************************************************************************)
EXTENDS Header

Run(todo, out) == [st |-> "run", todo |-> todo, out |-> out]
Err == [st |-> "err", todo |-> <<>>, out |-> <<>>]

\* all frames have the same fields
F(f, t, w, n, a, c) == [f |-> f, t |-> t, w |-> w, n |-> n, a |-> a, c |-> c]
NoType == [k |-> "unit", s |-> <<>>, n |-> 0]
Ty(t)          == F("ty", t, 0, 0, <<>>, "")
OneByte(c, t)  == F("byte", t, 0, 0, <<>>, c)
Var(w, c, t)   == F("var", t, w, 0, <<>>, c)
More(w, n, a, c, t) == F("more", t, w, n, a, c)
Raw(n, a, c, t)   == F("raw", t, 0, n, a, c)
Items(n, a, c, t) == F("items", t, 0, n, a, c)
Make(k, n, t)  == F("make", t, 0, n, <<>>, k)
Hdr            == F("hdr", NoType, 0, 0, <<>>, "")

Top1(q) == q.todo[1]
Rest(q) == Tail(q.todo)
Push(q, v) == Run(Rest(q), <<v>> \o q.out)         \* frame done, value v
Instead(q, fs) == Run(fs \o Rest(q), q.out)        \* frame replaced by others

Done(q) == q.st = "run" /\ q.todo = <<>>
Wants(q) == q.st = "run" /\ q.todo # <<>>
            /\ (Top1(q).f \in {"byte", "var", "hdr"} \/ (Top1(q).f \in {"more", "raw"} /\ Top1(q).n > 0))
Busy(q) == q.st = "run" /\ q.todo # <<>> /\ ~Wants(q)

---------------------------------------------------------------------------
\* the frames a type starts with
Start1(t) ==
  LET k == t.k IN
  CASE k = "bool"                      -> <<OneByte("tag", t)>>
    [] k \in {"u8", "i8", "f32", "f64"} -> <<Raw(Width(k), <<>>, "id", t)>>
    [] k \in {"u16", "u32", "u64"}     -> <<Var(Width(k), "id", t)>>
    [] k \in {"i16", "i32", "i64"}     -> <<Var(Width(k), "zig", t)>>
    [] k \in {"char", "str", "bytes", "buint", "nbuint", "bint", "nbint", "bdec", "nbdec"} ->
         <<Var(8, "length", t)>>
    [] k = "opt"                       -> <<OneByte("tag", t)>>
    [] k \in {"seq", "map"}            -> <<Var(8, "count", t)>>
    [] k = "nt"                        -> <<Ty(t.s[1])>>
    [] k \in Concat                    -> [i \in 1..Len(t.s) |-> Ty(t.s[i])] \o <<Make("tup", Len(t.s), t)>>
    [] k = "enum"                      -> <<Var(4, "index", t)>>
    [] k \in {"date", "ndate"}         -> <<Var(4, "id", t), Var(2, "id", t), Make("date", 2, t)>>
    [] k \in {"dt", "ndt"}             -> <<Var(8, "id", t), Var(4, "id", t), Make("dt", 2, t)>>

\* bytes x are complete and go to c
After(q, c, t, x) ==
  CASE c = "id"  -> Push(q, x)
    [] c = "zig" -> Push(q, ZigDec(x))
    [] c = "tag" ->
         IF x[1] > 1 THEN Err
         ELSE IF t.k = "bool" THEN Push(q, x[1])
         ELSE IF x[1] = 0 THEN Push(q, <<>>)
         ELSE Instead(q, <<Ty(t.s[1]), Make("some", 1, t)>>)
    [] c = "length" -> Instead(q, <<Raw(ToInt(x), <<>>, "content", t)>>)
    [] c = "content" ->
         (CASE t.k = "char"  -> IF IsOneChar(x) THEN Push(q, CharOf(x)) ELSE Err
            [] t.k \in {"str", "key"} -> IF IsUtf8(x) THEN Push(q, x) ELSE Err
            [] t.k = "bytes" -> Push(q, x)
            [] t.k \in {"buint", "nbuint"} -> Push(q, CanonU(x))
            [] t.k \in {"bint", "nbint"}   -> Push(q, CanonS(x))
            [] t.k \in {"bdec", "nbdec"}   ->
                 IF x = <<>> THEN Push(q, <<<<>>, Zeros(8)>>)
                 ELSE Run(<<Var(8, "zig", t), Make("dec", 2, t)>> \o Rest(q), <<CanonS(x)>> \o q.out))
    [] c = "count"   -> Instead(q, <<Items(ToInt(x), <<>>, "", t)>>)
    [] c = "index"   ->
         IF ToInt(x) >= VariantCount(t) THEN Err
         ELSE Run(<<Ty(VariantType(t, ToInt(x))), Make("enum", 2, t)>> \o Rest(q), <<x>> \o q.out)
    [] c = "hcount"  ->
         Instead(q, <<[Items(ToInt(x), <<>>, "", t) EXCEPT !.w = 1]>>)

\* one value from the last n, the last one first in q.out
Made(q) ==
  LET m == Top1(q)  n == m.n  o == q.out
      xs == [i \in 1..n |-> o[n + 1 - i]]
      left == SubSeq(o, n + 1, Len(o))
      P(v) == Run(Rest(q), <<v>> \o left) IN
  CASE m.c \in {"tup", "some", "enum"} -> P(xs)
    [] m.c = "dec"  -> P(<<xs[1], xs[2]>>)
    [] m.c = "date" ->
         LET yy == WireYear(xs[1])  dd == ToInt(xs[2]) + 1 IN
         IF IsDate(yy, dd) THEN P(<<yy, dd>>)
         ELSE IF m.t.k = "ndate" \/ ~YearFits(xs[1]) \/ ~DayFits(xs[2]) THEN Err ELSE P(<<>>)
    [] m.c = "dt"   ->
         LET i == Instant(ZigDec(xs[1]), xs[2]) IN IF i = <<>> /\ m.t.k = "ndt" THEN Err ELSE P(i)
    [] m.c = "hdr"  -> P(H(m.t.k, xs))

\* a step that needs no byte
Work(q) ==
  LET m == Top1(q) IN
  CASE m.f = "ty"    -> IF m.t.k \in {"unit", "us"} THEN Push(q, <<>>) ELSE Instead(q, Start1(m.t))
    [] m.f = "make"  -> Made(q)
    [] m.f = "raw"   -> After(q, m.c, m.t, m.a)
    [] m.f = "more"  -> (LET v == VarDec(m.w, m.a, 1) IN After(q, m.c, m.t, v.v))
    [] m.f = "items" ->
         \* an element that was just finished is the last value; w = 1 means headers
         LET got == m.c = "back"
             key == m.w = 0 /\ m.t.k = "map"
             a == IF ~got THEN m.a ELSE Append(m.a, IF key THEN <<q.out[2], q.out[1]>> ELSE q.out[1])
             o == IF ~got THEN q.out ELSE SubSeq(q.out, IF key THEN 3 ELSE 2, Len(q.out))
             again == [m EXCEPT !.a = a, !.c = "back"] IN
         IF Len(a) = m.n THEN Run(Rest(q), <<IF m.w = 1 THEN H(m.t.k, a) ELSE a>> \o o)
         ELSE Run((IF key THEN <<Ty([NoType EXCEPT !.k = "str"])>> ELSE <<>>)
                  \o <<IF m.w = 1 THEN Hdr ELSE Ty(m.t.s[1]), again>> \o Rest(q), o)

\* a step that takes byte x
Feed(q, x) ==
  LET m == Top1(q) IN
  CASE m.f = "byte" -> After(q, m.c, m.t, <<x>>)
    [] m.f = "var"  -> Instead(q, <<More(m.w, VarExtra(m.w, x), <<x>>, m.c, m.t)>>)
    [] m.f = "more" -> Instead(q, <<More(m.w, m.n - 1, Append(m.a, x), m.c, m.t)>>)
    [] m.f = "raw"  -> Instead(q, <<Raw(m.n - 1, Append(m.a, x), m.c, m.t)>>)
    [] m.f = "hdr"  ->
         IF x \notin DOMAIN KindOf THEN Err
         ELSE LET k == KindOf[x] IN
              IF k \in Leaves THEN Push(q, H(k, <<>>))
              ELSE IF k \in Nested THEN Instead(q, <<Hdr, Make("hdr", 1, H(k, <<>>))>>)
              ELSE Instead(q, <<Var(2, "hcount", H(k, <<>>))>>)

ParseType(t) == Run(<<Ty(t)>>, <<>>)
ParseHeader  == Run(<<Hdr>>, <<>>)

---------------------------------------------------------------------------
\* Memory: the cells a parser holds.  What is pending is as large as the type
\* it comes from, what is held as the bytes it was made of.
RECURSIVE TypeSize(_)
TypeSize(t) == 1 + FoldLeft(LAMBDA a, x : a + TypeSize(x), 0, t.s)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Pending(q) == Len(q.todo) + Sum([i \in 1..Len(q.todo) |-> Len(q.todo[i].a)])
Held(q) == Len(q.out)
=============================================================================
