-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 as a finite automaton over bytes (Unicode 15, table 3-7).         *)
(* States: 0 between characters; 1, 2, 3 that many plain continuation      *)
(* bytes to come; 4..7 the restricted second bytes after E0, ED, F0, F4;   *)
(* 9 rejected.                                                             *)
(***************************************************************************)
EXTENDS Bytes

In(b, lo, hi) == lo <= b /\ b <= hi

Utf8Step(s, b) ==
  CASE s = 0 -> IF b < 128 THEN 0
                ELSE IF In(b, 194, 223) THEN 1
                ELSE IF b = 224 THEN 4
                ELSE IF b = 237 THEN 5
                ELSE IF In(b, 225, 239) THEN 2
                ELSE IF b = 240 THEN 6
                ELSE IF In(b, 241, 243) THEN 3
                ELSE IF b = 244 THEN 7 ELSE 9
    [] s = 1 -> IF In(b, 128, 191) THEN 0 ELSE 9
    [] s = 2 -> IF In(b, 128, 191) THEN 1 ELSE 9
    [] s = 3 -> IF In(b, 128, 191) THEN 2 ELSE 9
    [] s = 4 -> IF In(b, 160, 191) THEN 1 ELSE 9
    [] s = 5 -> IF In(b, 128, 159) THEN 1 ELSE 9
    [] s = 6 -> IF In(b, 144, 191) THEN 2 ELSE 9
    [] s = 7 -> IF In(b, 128, 143) THEN 2 ELSE 9
    [] OTHER -> 9

IsUtf8(b) == FoldLeft(Utf8Step, 0, b) = 0

\* Unicode scalar values
IsScalar(c) == In(c, 0, 55295) \/ In(c, 57344, 1114111)

CharBytes(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536
       THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* number of bytes announced by a valid lead byte
CharWidth(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

IsOneChar(b) == /\ Len(b) \in 1..4
                /\ Len(b) = CharWidth(b[1])
                /\ IsUtf8(b)

CharOf(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> (b[1] % 32) * 64 + (b[2] % 64)
    [] Len(b) = 3 -> (b[1] % 16) * 4096 + (b[2] % 64) * 64 + (b[3] % 64)
    [] Len(b) = 4 -> (b[1] % 8) * 262144 + (b[2] % 64) * 4096
                       + (b[3] % 64) * 64 + (b[4] % 64)
=============================================================================
