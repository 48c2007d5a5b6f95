------------------------------- MODULE Varint -------------------------------
(***************************************************************************)
(* The integer layer of the wire format: prefix-varint and zigzag.         *)
(*                                                                         *)
(* The first byte of an n-byte prefix-varint starts with n-1 one bits and  *)
(* a zero bit; its remaining 8-n low bits are the low bits of the value,   *)
(* and the other n-1 bytes are value >> (8-n), little-endian.  So n bytes  *)
(* carry 7n bits.  Values that need more bytes than that allows take the   *)
(* full form of their width: a marker byte (MaxMarker) and the raw value.  *)
(***************************************************************************)
EXTENDS Bytes

\* byte widths of the three varint integers
VarWidths == {2, 4, 8}

\* extra bytes of the full form, = width; its marker
MaxExtra(w) == w
MaxMarker(w) == CASE w = 2 -> 192 [] w = 4 -> 240 [] w = 8 -> 255

\* longest form that still packs value bits into the first byte
MaxPacked(w) == CASE w = 2 -> 2 [] w = 4 -> 4 [] w = 8 -> 8

\* the marker bits of an n-byte packed form
Marker == <<0, 128, 192, 224, 240, 248, 252, 254>>

\* number of bytes of the shortest form of value v (a byte string of width w)
VarLen(w, v) ==
  LET n == (BitLen(v) + 6) \div 7
      m == IF n = 0 THEN 1 ELSE n
  IN IF m <= MaxPacked(w) THEN m ELSE w + 1

\* the n-byte packed form
Packed(n, v) ==
  LET s == 8 - n
  IN <<Marker[n] + (v[1] % Pow2[s + 1])>> \o ShiftRight(v, s, n - 1)

VarEnc(w, v) ==
  LET n == VarLen(w, v)
  IN IF n = w + 1 THEN <<MaxMarker(w)>> \o v ELSE Packed(n, v)

\* how many bytes follow a first byte f
VarExtra(w, f) ==
  LET k == LeadingOnes(f) IN IF k >= MaxPacked(w) THEN w ELSE k

\* decoding at position p of b: ok/err, the value, the next position
VarDec(w, b, p) ==
  IF p > Len(b) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
  ELSE LET f == b[p]
           x == VarExtra(w, f)
       IN IF p + x > Len(b) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
          ELSE LET k == LeadingOnes(f)
                   rest == SubSeq(b, p + 1, p + x)
                   s == 7 - k
               IN [ok |-> TRUE, p |-> p + x + 1,
                   v |-> IF k >= MaxPacked(w) THEN rest
                         ELSE IF k = 0 THEN LE(f, w)
                         ELSE ShiftLeft(rest, s, f % Pow2[s + 1], w)]

---------------------------------------------------------------------------
\* zigzag: 0, -1, 1, -2, 2, ... -> 0, 1, 2, 3, 4, ...
ZigEnc(v) ==
  IF IsNeg(v) THEN ShiftLeft(Complement(v), 1, 1, Len(v))
  ELSE ShiftLeft(v, 1, 0, Len(v))
ZigDec(z) ==
  LET h == ShiftRight(z, 1, Len(z)) IN IF z[1] % 2 = 1 THEN Complement(h) ELSE h

U16Enc(v) == VarEnc(2, v)
U32Enc(v) == VarEnc(4, v)
U64Enc(v) == VarEnc(8, v)
LenEnc(n) == VarEnc(8, LE(n, 8))
=============================================================================
