------------------------------ MODULE TraceOps ------------------------------
(***************************************************************************)
(* Recorded calls of the implementation, judged against Wire and Header.   *)
(*                                                                         *)
(* A session is a list of calls.  The specification walks through each     *)
(* session; a call whose outcome it does not allow is reported and the     *)
(* walk goes on, so one run shows every call that is wrong.                *)
(***************************************************************************)
EXTENDS Derive, Deep, Runs, Json, IOUtils, TLC

VARIABLES sess, at

Trace == ndJsonDeserialize(IOEnv.TRACE)

Leaf(k) == [k |-> k, s |-> <<>>, n |-> 0]

\* memory: a multiple of what arrived, and what is allowed on top
PerByte == 1024
Allowance == 2097152

---------------------------------------------------------------------------
\* A decoder must accept what an encoder writes and refuse what denotes no
\* value.  Longer forms of counts and integers denote a value, and may be
\* accepted or refused; accepted, they mean what their bits spell.
DecOk(d, r) == IF d.ok THEN r = 1 \/ ~d.c ELSE r = 0

WhyDec(t, b, o) ==
  LET d == Dec(t, b, 1) IN
  IF ~DecOk(d, o.r) THEN IF d.ok THEN "a valid encoding was refused" ELSE "bytes that denote no value were accepted"
  ELSE IF o.r = 0 THEN ""
  ELSE IF ~VEq(t, d.v, o.w) THEN "not the value the bytes spell"
  ELSE IF o.n # d.p - 1 THEN "wrong number of bytes consumed" ELSE ""

IntRow(k, r) ==
  LET e == Enc(Leaf(k), r[1]) IN r[2] = e /\ r[3] = r[1] /\ r[4] = Len(e)
IntdRow(k, r) ==
  LET d == Dec(Leaf(k), r[1], 1)
  IN DecOk(d, r[2]) /\ (r[2] = 1 => r[3] = d.v /\ r[4] = d.p - 1)
HdecRow(r) ==
  LET d == HDec(r[1], 1)
  IN /\ DecOk(d, r[2])
     /\ IF r[2] = 1 THEN r[3] = HEnc(d.h) /\ r[4] = d.p - 1 /\ Len(r[3]) <= r[4]
        ELSE d.e = "code" => r[4] = 1

\* the first row that is wrong
Rows(rows, Ok(_)) ==
  LET bad == {i \in 1..Len(rows) : ~Ok(rows[i])}
  IN IF bad = {} THEN ""
     ELSE "row " \o ToString(rows[CHOOSE i \in bad : \A j \in bad : i <= j])

WhyRt(o) ==
  LET e == Enc(o.t, o.v) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes, expected " \o ToString(e)
  ELSE IF o.same # 1 THEN "different bytes through a used serializer"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF ~VEq(o.t, o.v, o.w) THEN "decodes to another value"
  ELSE IF o.n # Len(e) THEN "wrong number of bytes consumed" ELSE ""

WhyRle(o) ==
  LET n == RunLen(o.c)  h == LenEnc(n) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.h # h \/ o.e # o.c THEN "wrong bytes"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.w # o.c THEN "decodes to another value"
  ELSE IF o.n # Len(h) + n THEN "wrong number of bytes consumed"
  ELSE IF o.q # 0 THEN "a truncated encoding was accepted" ELSE ""

\* numbers of any length, digits as runs: the canonical digits, then the scale
WhyBigRuns(o) ==
  LET u == o.k \in {"buint", "nbuint"}
      Canon(c) == IF u THEN RunCanonU(c) ELSE RunCanonS(c)
      dec == o.k \in {"bdec", "nbdec"}
      q == Canon(o.c)
      scale == IF dec /\ q # <<>> THEN Enc(Leaf("i64"), o.sc) ELSE <<>>
      e == RunCat(RunCat(RunsOf(LenEnc(RunLen(q))), q), RunsOf(scale))
      sc == IF q = <<>> THEN Zeros(8) ELSE o.sc
  IN
  IF dec /\ q # <<>> /\ Tenfold(q) THEN ""        \* not a normal form: left to the byte-wise calls
  ELSE IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.e # e THEN "wrong bytes of a long number"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.w # q \/ (dec /\ o.ws # sc) THEN "decodes to another value"
  ELSE IF o.n # RunLen(e) THEN "wrong number of bytes consumed"
  ELSE IF q = o.c /\ o.d2 = 0 THEN "a valid encoding was refused"
  ELSE IF o.d2 = 1 /\ (o.w2 # q \/ (dec /\ o.ws2 # (IF o.c = <<>> THEN Zeros(8) ELSE o.sc))) THEN "not the value the bytes spell" ELSE ""

\* m times a power of ten, with a scale larger by as much, is m: NormDec of
\* both is the same (MC_Num, Decimals), so that one is enough here
WhyTens(o) ==
  LET v == <<o.m, o.sc>>  q == NormDec(v) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # Enc(Leaf("bdec"), v) THEN "equal numbers, other bytes"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.w # q THEN "decodes to another value" ELSE ""

\* a wide header into a sink that takes r[1] bytes and then fails: [bytes,
\* success, whether what it took is the start of the encoding]
WhyHfull(o) ==
  LET n == (IF o.wrap = 1 THEN 3 ELSE 0) + 1 + Len(U16Enc(LE(o.c, 2))) + o.c * Len(HEnc(o.e))
      Some(P(_)) == \E i \in 1..Len(o.rows) : P(o.rows[i])
  IN
  IF o.n # n THEN "wrong number of bytes written"
  ELSE IF Some(LAMBDA r : r[1] < n /\ r[2] = 1) THEN "success reported after a failure"
  ELSE IF Some(LAMBDA r : r[3] = 0) THEN "wrong bytes accepted"
  ELSE IF Some(LAMBDA r : r[1] >= n /\ r[2] = 0) THEN "an error without a failure" ELSE ""

\* every proper prefix must fail, whether the source ends or fails there
WhyTrunc(o, e, Has(_)) ==
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b = e
  THEN IF \A i \in 1..Len(o.rows) : o.rows[i][2] = 0 /\ o.rows[i][3] = 0 THEN ""
       ELSE "accepted a truncated encoding"
  ELSE IF \A i \in 1..Len(o.rows) :
            (o.rows[i][2] = 1 \/ o.rows[i][3] = 1) => Has(SubSeq(o.b, 1, o.rows[i][1])) THEN ""
       ELSE "accepted a truncated encoding"

WhyRefuse(o) ==
  IF o.s = 0 THEN ""
  ELSE IF ~Writable(o.t, o.v) THEN "wrote what the format cannot express"
  ELSE IF o.b # Enc(Plain(o.t), o.v) THEN "success, but bytes that do not decode back" ELSE ""

\* A collection handed over as an iterator.  One that knows its length is
\* written; another one is refused, or written right (its length may be found
\* by other means), never with a count that is not its length.
WhyHint(o) ==
  IF o.s = 0 THEN IF o.exact = 1 THEN "refused to serialize" ELSE ""
  ELSE IF o.b # Enc(o.t, o.v) THEN "success, but bytes that do not decode back" ELSE ""

WhyHrt(o) ==
  IF ~Expressible(o.h) THEN IF o.s = 1 THEN "wrote a header the format cannot express" ELSE ""
  ELSE LET e == HEnc(o.h) IN
       IF o.s = 0 THEN "refused to serialize"
       ELSE IF o.b # e THEN "wrong bytes, expected " \o ToString(e)
       ELSE IF o.d = 0 THEN "does not decode"
       ELSE IF o.w # o.h \/ o.eq # 1 THEN "decodes to another header"
       ELSE IF o.n # Len(e) THEN "wrong number of bytes consumed" ELSE ""

WhyHwide(o) ==
  IF o.c > MaxCount THEN IF o.s = 1 THEN "wrote a header the format cannot express" ELSE ""
  ELSE LET pre == (IF o.wrap = 1 THEN <<Codes["tup"], 2, Codes["bool"]>> ELSE <<>>)
                  \o <<Codes[o.k]>> \o U16Enc(LE(o.c, 2)) IN
       IF o.s = 0 THEN "refused to serialize"
       ELSE IF o.head # pre \/ o.rest # <<<<Codes[o.e], o.c>>>> THEN "wrong bytes"
       ELSE IF o.eq # 1 THEN "decodes to another header"
       ELSE IF o.n # Len(pre) + o.c THEN "wrong number of bytes consumed" ELSE ""

\* a chain of o.c headers of one kind around a boolean
WhyHdeep(o) ==
  LET step == <<Codes[o.k]>> \o (IF o.k \in Counted THEN <<1>> ELSE <<>>)
      e == Cat([i \in 1..o.c |-> step]) \o <<Codes["bool"]>> IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes"
  ELSE IF o.eq # 1 THEN "decodes to another header"
  ELSE IF o.n # Len(e) THEN "wrong number of bytes consumed" ELSE ""

WhyHdec(o) ==
  LET d == HDec(o.b, 1) IN
  IF ~DecOk(d, o.r) THEN IF d.ok THEN "a valid header was refused" ELSE "malformed header accepted"
  ELSE IF o.r = 1
  THEN IF o.w # d.h THEN "not the header the bytes spell"
       ELSE IF o.n # d.p - 1 THEN "wrong number of bytes consumed"
       ELSE IF o.eb # HEnc(d.h) THEN "wrong bytes on writing it again"
       ELSE IF Len(o.eb) > o.n THEN "longer when written again" ELSE ""
  ELSE IF d.e = "code" /\ o.e # "code" THEN "unknown code not reported as invalid data" ELSE ""

WhyMem(o) ==
  IF o.peak > Allowance + PerByte * o.len
  THEN "peak of " \o ToString(o.peak) \o " bytes for " \o ToString(o.len) ELSE ""

\* members without bytes: the memory of an element is bounded by its header
\* only, so that of a body by elements times members (known finding)
WhyZmem(o) ==
  LET w == WhyMem(o) IN
  IF w # "" /\ (o.peak - Allowance) \div PerByte <= o.len + o.units * o.elements
  THEN "members without bytes take memory" ELSE w

WhyDyn(o) ==
  LET e == Enc(o.t, o.v)  y == BodyOf(o.t, o.v)  h == HeaderOf(o.t) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.hb # HEnc(h) THEN "wrong header bytes"
  ELSE IF o.b # e THEN "wrong typed bytes, expected " \o ToString(e)
  ELSE IF o.r = 0 THEN "typed bytes do not decode as a body"
  ELSE IF ~BodyEq(y, o.y) THEN "not the corresponding body"
  ELSE IF o.n # Len(e) THEN "the body took another number of bytes"
  ELSE IF o.yb # e THEN "the decoded body encodes differently"
  ELSE IF o.va # 1 THEN "the decoded body does not validate"
  ELSE IF o.zb # e THEN "the body built by hand encodes differently"
  ELSE IF o.d = 0 THEN "an encoded body does not decode as the type"
  ELSE IF ~VEq(o.t, o.v, o.w) THEN "an encoded body decodes to another value"
  ELSE IF o.m # Len(e) THEN "wrong number of bytes consumed" ELSE ""

WhyDdec(o) ==
  LET d == Dec(o.h, o.b, 1) IN
  IF ~DecOk(d, o.r) THEN IF d.ok THEN "a valid body was refused" ELSE "bytes that denote no body were accepted"
  ELSE IF o.r = 0 THEN ""
  ELSE IF ~IsBodyOf(o.h, d.v, o.y) THEN "not the body the bytes spell"
  ELSE IF o.n # d.p - 1 THEN "wrong number of bytes consumed"
  ELSE IF o.va # 1 THEN "a decoded body does not validate"
  ELSE IF o.eq # 1 THEN "a decoded body does not survive encoding" ELSE ""

WhyVal(o) ==
  LET y == Valid(o.h, o.y) IN
  IF y /\ o.r = 0 THEN "a conforming body was refused"
  ELSE IF ~y /\ o.r = 1 THEN "a body that does not conform was accepted"
  ELSE IF ~y THEN ""
  ELSE IF o.b # BodyEnc(o.y) THEN "wrong bytes of a valid body"
  ELSE IF o.eq # 1 THEN "a valid body does not decode back to itself" ELSE ""

WhyStat(o) ==
  LET e == Enc(o.t, o.v)  hb == HEnc(HeaderOf(o.t)) IN
  IF o.hb # hb THEN "wrong static header, expected " \o ToString(hb)
  ELSE IF o.h2 # hb THEN "differs from the encoding of the header value"
  ELSE IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.d = 0 \/ o.left # 0 THEN "the real type does not decode"
  ELSE IF o.ok = 0 \/ o.b # e THEN "the real type writes other bytes"
  ELSE IF o.r = 0 THEN "does not decode under its header"
  ELSE IF ~BodyEq(BodyOf(o.t, o.v), o.y) THEN "another body under its header"
  ELSE IF o.n # Len(e) THEN "the body took another number of bytes" ELSE ""

WhyStd(o) ==
  LET e == Enc(o.t, o.v) IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes, expected " \o ToString(e)
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.ok = 0 \/ o.b2 # e THEN "written again it differs"
  ELSE IF o.ok3 = 0 \/ o.b3 # e \/ o.n3 # Len(e) THEN "in the place of another value it differs"
  ELSE IF o.n # Len(e) THEN "wrong number of bytes consumed" ELSE ""

\* What each step of a history wrote and what was read back there, whatever
\* came before it and whatever else was going on in the middle of it.
HistRow(r) == r.s = 1 /\ r.b = (IF r.m = "header" THEN HEnc(r.t) ELSE Enc(r.t, r.v))
HistRead(r) ==
  /\ r.d = 1 /\ r.n = Len(r.b)
  /\ IF r.m = "header" THEN r.w = r.t ELSE VEq(r.t, r.v, r.w)
WhyHist(o) ==
  LET w == Rows(o.rows, HistRow) IN
  IF w # "" THEN "other bytes in this history: " \o w
  ELSE LET v == Rows(o.rows, HistRead) IN IF v = "" THEN "" ELSE "not read back in this history: " \o v
\* An instant under an offset: nothing but the instant is written.  One that
\* lies beyond the native years under the offset 0 may be refused.
WhyOff(o) ==
  IF o.s = 0 /\ ~InRange(o.v[1]) THEN ""
  ELSE IF o.s = 1 /\ o.b = Enc(o.t, o.v) THEN "" ELSE "the offset changed the bytes"
WhyRep(o) ==
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.all = 0 \/ o.b # Enc(o.t, o.v) THEN "other bytes when written again and again" ELSE ""

\* Long values: a sample of the elements with the bytes each is alone, the
\* bytes before the first one, and whether the elements follow one another.
BulkPart(o, r) ==
  IF o.k \in {"str"} THEN r[3] = CharBytes(r[2])
  ELSE r[3] = (IF o.k = "map" THEN BytesEnc(r[1]) ELSE <<>>) \o Enc(o.t, r[2])
BulkHead(o) ==
  CASE o.k \in {"seq", "map", "bytes"} -> LenEnc(o.n)
    [] o.k = "str"                    -> LenEnc(o.sum)
    [] OTHER                          -> <<>>
WhyBulk(o) ==
  LET size == Len(BulkHead(o)) + o.sum
      Some(f, P(_)) == \E i \in 1..Len(f) : P(f[i])
  IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF Some(o.rows, LAMBDA r : ~BulkPart(o, r)) \/ o.h # BulkHead(o) \/ o.same = 0 THEN "wrong bytes of a long value"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.eq = 0 THEN "decodes to another value"
  ELSE IF o.used # size THEN "wrong number of bytes consumed"
  ELSE IF Some(o.cuts, LAMBDA r : r[2] = 1 \/ r[3] = 1) THEN "a truncated encoding was accepted"
  ELSE IF Some(o.sinks, LAMBDA r : r[2] = 0 \/ r[3] = 0) THEN "other bytes through short writes"
  ELSE IF Some(o.srcs, LAMBDA r : r[2] = 0 \/ r[3] = 0 \/ r[4] # size) THEN "another outcome through short reads"
  ELSE IF Some(o.full, LAMBDA r : r[2] = 1) THEN "success reported after a failure"
  ELSE IF Some(o.full, LAMBDA r : r[3] = 0) THEN "wrong bytes accepted" ELSE ""
WhyBulkBody(o) ==
  LET w == WhyBulk(o) IN
  IF w # "" THEN w
  ELSE IF o.va = 0 THEN "the decoded body does not validate"
  ELSE IF \E i \in 1..Len(o.odd) : o.odd[i] = 1 THEN "a body that does not conform was accepted"
  ELSE IF o.td = 0 THEN "an encoded body does not decode as the type"
  ELSE IF o.teq = 0 THEN "an encoded body decodes to another value"
  ELSE IF o.m # o.used THEN "wrong number of bytes consumed" ELSE ""

WhyDeep(o) ==
  LET ws == Repeat(o.ws, o.times)  e == EncDeep(ws)
      Some(f, P(_)) == \E i \in 1..Len(f) : P(f[i])
  IN
  IF o.s = 0 THEN "refused to serialize"
  ELSE IF o.b # e THEN "wrong bytes of a deep value"
  ELSE IF o.d = 0 THEN "does not decode"
  ELSE IF o.eq = 0 THEN "decodes to another value"
  ELSE IF o.used # Len(e) THEN "wrong number of bytes consumed"
  ELSE IF Some(o.cuts, LAMBDA r : r[2] = 1) THEN "a truncated encoding was accepted"
  ELSE IF Some(o.full, LAMBDA r : r[2] = 1) THEN "success reported after a failure"
  ELSE IF Some(o.full, LAMBDA r : r[3] = 0) THEN "wrong bytes accepted"
  ELSE IF "hb" \in DOMAIN o
  THEN IF o.hb # HEncDeep(ws) THEN "wrong header bytes"
       ELSE IF o.heq = 0 \/ o.hn # Len(o.hb) THEN "decodes to another header"
       ELSE IF o.yb # e THEN "wrong bytes of a body"
       ELSE IF o.yeq = 0 THEN "not the corresponding body"
       ELSE IF o.yn # Len(e) THEN "wrong number of bytes consumed"
       ELSE IF o.va = 0 THEN "the decoded body does not validate"
       ELSE IF o.vb = 1 THEN "a body that does not conform validates" ELSE ""
  ELSE ""

\* a value far beyond any limit: so many equal (or, in a map, numbered) parts
HugePart(o, r) ==
  CASE o.k = "bytes" -> r = <<200>>
    [] o.k = "str"   -> r = <<97, 195, 169, 230, 151, 165, 244, 143, 191, 191>>
    [] o.k = "map"   -> Len(r) = 9 /\ r[1] = 7
    [] OTHER         -> r \in {<<7>>, <<1>>, <<1, 9>>, VarEnc(2, LE(300, 2)) \o <<0>>, <<>>}
WhyHuge(o) ==
  IF o.s = 0 THEN "refused to serialize"
  ELSE LET w == Len(o.rows[1])
           h == LenEnc(IF o.k = "str" THEN o.n * w ELSE o.n)
       IN IF o.h # h \/ o.same = 0 \/ \E i \in 1..3 : ~HugePart(o, o.rows[i]) THEN "wrong bytes of a huge value"
          ELSE IF o.d = 0 THEN "does not decode"
          ELSE IF o.eq = 0 THEN "decodes to another value"
          ELSE IF o.used # Len(h) + o.n * w THEN "wrong number of bytes consumed"
          ELSE IF o.cut = 1 THEN "a truncated encoding was accepted"
          ELSE IF "va" \in DOMAIN o /\ o.va = 0 THEN "the body does not validate" ELSE ""
WhyVolume(o) ==
  LET h == LenEnc(o.n) IN
  IF o.wrote # o.times THEN "refused to serialize"
  ELSE IF SubSeq(o.h, 1, Len(h)) # h \/ o.size # Len(h) + o.n \/ o.same = 0 THEN "wrong bytes"
  ELSE IF o.read # o.times THEN "does not decode"
  ELSE IF o.left # 0 THEN "wrong number of bytes consumed" ELSE ""

\* one value over and over: its bytes never change, each is read back
SteadyRow(o, e, times) ==
  IF o.wrote # times THEN "refused to serialize"
  ELSE IF o.b # e \/ o.same = 0 THEN "wrong bytes of a value written over and over" ELSE ""
SteadyRead(o, times) ==
  IF o.read # <<times, times>> THEN "does not decode"
  ELSE IF o.left # <<0, 0>> THEN "wrong number of bytes consumed" ELSE ""
WhySteady(o) ==
  LET w == SteadyRow(o, Enc(o.t, o.v), o.times) IN IF w # "" THEN w ELSE SteadyRead(o, o.times)
WhySteadyD(o) ==
  LET w == WhySteady(o)  h == SteadyRow(o.hd, HEnc(HeaderOf(o.t)), o.times) IN
  IF w # "" THEN w
  ELSE IF o.valid # o.times THEN "the body does not validate"
  ELSE IF h # "" THEN h
  ELSE IF o.hd.read # o.times \/ o.hd.left # 0 THEN "not the header" ELSE ""

\* each look of a value in a long session: its bytes there, the bytes of what
\* was read there, how many were taken
LongRow(r) ==
  LET e == Enc(r[1], r[2]) IN
  IF r[3] # e THEN "wrong bytes"
  ELSE IF r[4] # e THEN "decodes to another value"
  ELSE IF r[5] # Len(e) THEN "wrong number of bytes consumed" ELSE ""

WhyRe(o) ==
  LET d == Dec(o.t, o.b, 1) IN
  IF ~(d.ok /\ d.c /\ d.p = Len(o.b) + 1) THEN "case is not canonical"
  ELSE IF o.r = 0 THEN "does not decode under these features"
  ELSE IF o.b2 # o.b THEN "different bytes under these features"
  ELSE IF o.n # Len(o.b) THEN "wrong number of bytes consumed"
  ELSE IF o.yr = 0 \/ o.b3 # o.b \/ o.m # Len(o.b) THEN "different bytes of the body under these features" ELSE ""

WhyHre(o) ==
  IF o.b # HEnc(o.h) THEN "case is not canonical"
  ELSE IF o.r = 0 \/ o.b2 # o.b \/ o.b3 # o.b \/ o.n # Len(o.b)
  THEN "different header bytes under these features" ELSE ""

Why(o) ==
  IF o.x # "ok" THEN o.x
  ELSE CASE o.o = "ints"   -> Rows(o.rows, LAMBDA r : IntRow(o.k, r))
         [] o.o = "intd"   -> Rows(o.rows, LAMBDA r : IntdRow(o.k, r))
         [] o.o = "rt"     -> WhyRt(o)
         [] o.o = "off"    -> WhyOff(o)
         [] o.o = "wr"     -> IF o.s = 1 /\ o.b = Enc(o.t, o.v) THEN "" ELSE "wrong bytes"
         [] o.o = "rle"    -> WhyRle(o)
         [] o.o = "bigrun" -> WhyBigRuns(o)
         [] o.o = "tens"   -> WhyTens(o)
         [] o.o = "hfull"  -> WhyHfull(o)
         [] o.o = "dec"    -> WhyDec(o.t, o.b, o)
         [] o.o \in {"trunc", "dtrunc"} ->
              WhyTrunc(o, Enc(o.t, o.v), LAMBDA b : Dec(o.t, b, 1).ok)
         [] o.o = "htrunc" -> WhyTrunc(o, HEnc(o.h), LAMBDA b : HDec(b, 1).ok)
         [] o.o = "refuse" -> WhyRefuse(o)
         [] o.o = "hint"   -> WhyHint(o)
         [] o.o = "hrt"    -> WhyHrt(o)
         [] o.o = "hdeep"  -> WhyHdeep(o)
         [] o.o = "hwide"  -> WhyHwide(o)
         [] o.o = "hdec"   -> WhyHdec(o)
         [] o.o = "hdecs"  -> Rows(o.rows, HdecRow)
         [] o.o \in {"mem", "hmem", "dmem"} -> WhyMem(o)
         [] o.o = "zmem"   -> WhyZmem(o)
         [] o.o = "dyn"    -> WhyDyn(o)
         [] o.o = "ddec"   -> WhyDdec(o)
         [] o.o = "val"    -> WhyVal(o)
         [] o.o = "stat"   -> WhyStat(o)
         [] o.o = "head"   -> IF o.hb = HEnc(HeaderOf(o.t)) THEN "" ELSE "wrong static header"
         [] o.o = "std"    -> WhyStd(o)
         [] o.o = "any"    -> ""
         [] o.o = "hist"   -> WhyHist(o)
         [] o.o = "rep"    -> WhyRep(o)
         [] o.o = "bulk"   -> WhyBulk(o)
         [] o.o = "bulkd"  -> WhyBulkBody(o)
         [] o.o = "deep"   -> WhyDeep(o)
         [] o.o = "huge"   -> WhyHuge(o)
         [] o.o = "volume" -> WhyVolume(o)
         [] o.o = "steady" -> WhySteady(o)
         [] o.o = "steadyd" -> WhySteadyD(o)
         [] o.o = "long"   -> LET w == {LongRow(o.rows[i]) : i \in 1..Len(o.rows)} \ {""} IN IF w = {} THEN "" ELSE CHOOSE x \in w : TRUE
         [] o.o = "re"     -> WhyRe(o)
         [] o.o = "hre"    -> WhyHre(o)
         [] o.o = "drv"    -> WhyDerived(o)
         [] o.o = "drt"    -> WhyTyped(o)
         [] o.o = "nodrv"  -> WhyNoDecl(o)
         [] o.o = "wdrv"   -> WhyWideDecl(o)
         [] o.o = "fails"  -> o.what

---------------------------------------------------------------------------
Init == sess \in 1..Len(Trace) /\ at = 0

Next ==
  /\ at < Len(Trace[sess].ops)
  /\ at' = at + 1 /\ sess' = sess
  /\ LET o == Trace[sess].ops[at + 1]  w == Why(o)
     IN IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(sess) \o " " \o ToString(o.i) \o " " \o w)

Spec == Init /\ [][Next]_<<sess, at>>
=============================================================================
