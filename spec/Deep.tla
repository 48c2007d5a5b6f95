-------------------------------- MODULE Deep --------------------------------
(***************************************************************************)
(* Values nested to any depth, as a chain of layers around one byte.  The  *)
(* encoding of a chain is what its layers write before what they hold,     *)
(* from the outside in, the byte, and what they write after it, from the   *)
(* inside out: no layer knows how deep it is.  MC_Deep shows that this is  *)
(* Enc of the type a chain stands for.                                     *)
(***************************************************************************)
EXTENDS Header

LayerNames == {"opt", "seq", "map", "nt", "tup", "st", "nv", "tv", "sv"}

\* b, a: bytes before and after;  hb, ha: codes before and after
Layer(w) ==
  LET c(k) == Codes[k]  L(b, a, hb, ha) == [b |-> b, a |-> a, hb |-> hb, ha |-> ha] IN
  CASE w = "opt" -> L(<<1>>, <<>>, <<c("opt")>>, <<>>)
    [] w = "seq" -> L(<<1>>, <<>>, <<c("seq")>>, <<>>)
    [] w = "map" -> L(<<1, 1, 107>>, <<>>, <<c("map")>>, <<>>)
    [] w = "nt"  -> L(<<>>, <<>>, <<>>, <<>>)
    [] w = "tup" -> L(<<>>, <<6>>, <<c("tup"), 2>>, <<c("u8")>>)
    [] w = "st"  -> L(<<5>>, <<>>, <<c("tup"), 2, c("u8")>>, <<>>)
    [] w = "nv"  -> L(<<1>>, <<>>, <<c("enum"), 2, c("unit")>>, <<>>)
    [] w = "tv"  -> L(<<0>>, <<6>>, <<c("enum"), 1, c("tup"), 2>>, <<c("u8")>>)
    [] w = "sv"  -> L(<<2, 5>>, <<>>, <<c("enum"), 3, c("unit"), c("unit"), c("tup"), 2, c("u8")>>, <<>>)

Around(ws, Pre(_), Mid, Post(_)) ==
  LET n == Len(ws) IN
  Cat([i \in 1..n |-> Pre(ws[i])]) \o Mid \o Cat([i \in 1..n |-> Post(ws[n + 1 - i])])

\* a byte 7 within the layers ws
EncDeep(ws)  == Around(ws, LAMBDA w : Layer(w).b, <<7>>, LAMBDA w : Layer(w).a)
HEncDeep(ws) == Around(ws, LAMBDA w : Layer(w).hb, <<Codes["u8"]>>, LAMBDA w : Layer(w).ha)

\* what a chain stands for
T(k, s) == [k |-> k, s |-> s, n |-> 0]
RECURSIVE TypeDeep(_)
TypeDeep(ws) ==
  IF ws = <<>> THEN T("u8", <<>>)
  ELSE LET t == TypeDeep(Tail(ws))  w == Head(ws)  u8 == T("u8", <<>>)  u == T("unit", <<>>) IN
       CASE w \in {"opt", "seq", "map", "nt"} -> T(w, <<t>>)
         [] w = "tup" -> T("tup", <<t, u8>>)
         [] w = "st"  -> T("st", <<u8, t>>)
         [] w = "nv"  -> T("enum", <<u, t>>)
         [] w = "tv"  -> T("enum", <<T("tv", <<t, u8>>)>>)
         [] w = "sv"  -> T("enum", <<u, u, T("sv", <<u8, t>>)>>)
RECURSIVE ValueDeep(_)
ValueDeep(ws) ==
  IF ws = <<>> THEN <<7>>
  ELSE LET v == ValueDeep(Tail(ws))  w == Head(ws) IN
       CASE w \in {"opt", "seq"} -> <<v>>
         [] w = "map" -> <<<<<<107>>, v>>>>
         [] w = "nt"  -> v
         [] w = "tup" -> <<v, <<6>>>>
         [] w = "st"  -> <<<<5>>, v>>
         [] w = "nv"  -> <<LE(1, 4), v>>
         [] w = "tv"  -> <<LE(0, 4), <<v, <<6>>>>>>
         [] w = "sv"  -> <<LE(2, 4), <<<<5>>, v>>>>

Repeat(ws, n) == [i \in 1..(n * Len(ws)) |-> ws[((i - 1) % Len(ws)) + 1]]
=============================================================================
