------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes and little-endian byte strings.                                   *)
(*                                                                         *)
(* TLC integers are 32-bit, the codec's are up to 64 bits wide, so every   *)
(* machine integer of the implementation is a LITTLE-ENDIAN BYTE STRING of *)
(* its exact width here: a u16 is a sequence of 2 bytes, a u64 of 8.       *)
(* Only lengths, positions and code points are TLA+ integers.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0..255

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>     \* Pow2[i+1] = 2^i

Zeros(n) == [i \in 1..n |-> 0]

\* number of leading one bits of a byte, as a table
LeadingOnes(b) ==
  IF b < 128 THEN 0 ELSE IF b < 192 THEN 1 ELSE IF b < 224 THEN 2
  ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5
  ELSE IF b < 254 THEN 6 ELSE IF b < 255 THEN 7 ELSE 8

\* number of significant bits of a byte
BitLenByte(b) ==
  IF b = 0 THEN 0 ELSE IF b < 2 THEN 1 ELSE IF b < 4 THEN 2 ELSE IF b < 8 THEN 3
  ELSE IF b < 16 THEN 4 ELSE IF b < 32 THEN 5 ELSE IF b < 64 THEN 6
  ELSE IF b < 128 THEN 7 ELSE 8

\* index of the last non-zero byte, 0 if there is none
RECURSIVE TopFrom(_, _)
TopFrom(v, i) == IF i = 0 THEN 0 ELSE IF v[i] # 0 THEN i ELSE TopFrom(v, i - 1)
Top(v) == TopFrom(v, Len(v))

\* significant bits of a little-endian byte string
BitLen(v) == LET t == Top(v) IN IF t = 0 THEN 0 ELSE 8 * (t - 1) + BitLenByte(v[t])

\* v >> s for 0 <= s <= 8, cut to n bytes (bytes beyond the end are 0)
At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
ShiftRight(v, s, n) ==
  LET p == Pow2[s + 1]  q == Pow2[9 - s]
  IN [i \in 1..n |-> (At(v, i) \div p + At(v, i + 1) * q) % 256]

\* (v << s) + low, for 0 <= s <= 8 and 0 <= low < 2^s, cut to n bytes
ShiftLeft(v, s, low, n) ==
  LET p == Pow2[s + 1]  q == Pow2[9 - s]
  IN [i \in 1..n |->
        (At(v, i) * p + (IF i = 1 THEN low ELSE At(v, i - 1) \div q)) % 256]

Complement(v) == [i \in 1..Len(v) |-> 255 - v[i]]

\* an integer below 2^31 as a little-endian byte string of n bytes
RECURSIVE LE(_, _)
LE(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o LE(x \div 256, n - 1)

\* a little-endian byte string as an integer, or TooBig when it does not fit
\* in 2^30 (lengths and counts the model can follow)
TooBig == 1073741824
ToInt(v) ==
  IF BitLen(v) > 30 THEN TooBig
  ELSE At(v, 1) + 256 * At(v, 2) + 65536 * At(v, 3) + 16777216 * At(v, 4)

\* v + c over the bytes of v (c a carry 0..255): <<sum, carry out>>
RECURSIVE AddSmallFrom(_, _, _, _)
AddSmallFrom(v, c, i, acc) ==
  IF i > Len(v) THEN [s |-> acc, c |-> c]
  ELSE LET x == v[i] + c IN AddSmallFrom(v, x \div 256, i + 1, Append(acc, x % 256))
AddSmall(v, c) == AddSmallFrom(v, c, 1, <<>>)

\* byte-wise sum of two strings of equal width, modulo 256^width
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(u, v, c, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE LET x == u[i] + v[i] + c
       IN AddFrom(u, v, x \div 256, i + 1, Append(acc, x % 256))
Add(u, v) == AddFrom(u, v, 0, 1, <<>>)

\* unsigned comparison of two strings of equal width
RECURSIVE LtFrom(_, _, _)
LtFrom(u, v, i) ==
  IF i = 0 THEN FALSE ELSE IF u[i] # v[i] THEN u[i] < v[i] ELSE LtFrom(u, v, i - 1)
Lt(u, v) == LtFrom(u, v, Len(u))

IsNeg(v) == v[Len(v)] >= 128                       \* two's complement sign

\* concatenation of the sequences f[lo], ..., f[hi], by halves
RECURSIVE CatRange(_, _, _)
CatRange(f, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN f[lo]
  ELSE LET m == (lo + hi) \div 2 IN CatRange(f, lo, m) \o CatRange(f, m + 1, hi)
Cat(f) == CatRange(f, 1, Len(f))
=============================================================================
