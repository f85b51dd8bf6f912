------------------------------- MODULE Words -------------------------------
(* Little-endian multi-precision arithmetic on 16-bit limbs.  A 64-bit word  *)
(* is a 4-tuple, a 32-bit word a 2-tuple, a 128-bit counter an 8-tuple, with *)
(* the least significant limb first.  TLC integers are 32 bits wide, which   *)
(* is why words are not plain integers here.                                 *)
EXTENDS Integers, Sequences, Bitwise

M16 == 65536

(* ---- any number of limbs ---- *)
ZeroL(k) == [i \in 1..k |-> 0]

RECURSIVE AddC(_,_,_,_,_)
AddC(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + c
       IN AddC(a, b, i+1, s \div M16, Append(acc, s % M16))
AddL(a, b) == AddC(a, b, 1, 0, << >>)          \* modulo 2^(16*Len(a))

RECURSIVE SubC(_,_,_,_,_)
SubC(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - b[i] - c
       IN SubC(a, b, i+1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % M16))
SubL(a, b) == SubC(a, b, 1, 0, << >>)

RECURSIVE MulC(_,_,_,_,_)
MulC(a, n, i, c, acc) ==                        \* n < 32768
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] * n + c
       IN MulC(a, n, i+1, s \div M16, Append(acc, s % M16))
MulL(a, n) == MulC(a, n, 1, 0, << >>)

IntL(n, k) == [i \in 1..k |-> IF i = 1 THEN n % M16
                              ELSE IF i = 2 THEN n \div M16 ELSE 0]  \* 0 <= n < 2^31
AddI(a, n) == AddL(a, IntL(n, Len(a)))
(* is the limb tuple <= n, for small n? *)
LeI(a, n) == /\ \A i \in 3..Len(a) : a[i] = 0
             /\ Len(a) >= 2 => a[2] < 32768
             /\ (IF Len(a) >= 2 THEN a[1] + M16 * a[2] ELSE a[1]) <= n
ToInt(a) == IF Len(a) >= 2 THEN a[1] + M16 * a[2] ELSE a[1]           \* only if LeI

(* ---- 64-bit words ---- *)
Xor4(a,b) == <<a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4]>>
Add4(a,b) == LET s1 == a[1]+b[1]
                 s2 == a[2]+b[2]+(s1 \div M16)
                 s3 == a[3]+b[3]+(s2 \div M16)
                 s4 == a[4]+b[4]+(s3 \div M16)
             IN <<s1 % M16, s2 % M16, s3 % M16, s4 % M16>>
Add43(a,b,c) == LET s1 == a[1]+b[1]+c[1]
                    s2 == a[2]+b[2]+c[2]+(s1 \div M16)
                    s3 == a[3]+b[3]+c[3]+(s2 \div M16)
                    s4 == a[4]+b[4]+c[4]+(s3 \div M16)
                IN <<s1 % M16, s2 % M16, s3 % M16, s4 % M16>>
Lo8(lo,hi)  == (lo \div 256) + 256*(hi % 256)        \* 16 bits starting at bit 8
Lo12(lo,hi) == (lo \div 4096) + 16*(hi % 4096)       \* ... at bit 12
Lo7(lo,hi)  == (lo \div 128) + 512*(hi % 128)        \* ... at bit 7
Lo15(lo,hi) == (lo \div 32768) + ((hi*2) % M16)      \* ... at bit 15
Rot32_4(x) == <<x[3],x[4],x[1],x[2]>>
Rot16_4(x) == <<x[2],x[3],x[4],x[1]>>
Rot24_4(x) == <<Lo8(x[2],x[3]), Lo8(x[3],x[4]), Lo8(x[4],x[1]), Lo8(x[1],x[2])>>
Rot63_4(x) == <<Lo15(x[4],x[1]), Lo15(x[1],x[2]), Lo15(x[2],x[3]), Lo15(x[3],x[4])>>

(* ---- 32-bit words ---- *)
Xor2(a,b) == <<a[1]^^b[1], a[2]^^b[2]>>
Add2(a,b) == LET s1 == a[1]+b[1]
                 s2 == a[2]+b[2]+(s1 \div M16)
             IN <<s1 % M16, s2 % M16>>
Add23(a,b,c) == LET s1 == a[1]+b[1]+c[1]
                    s2 == a[2]+b[2]+c[2]+(s1 \div M16)
                IN <<s1 % M16, s2 % M16>>
Rot16_2(x) == <<x[2],x[1]>>
Rot12_2(x) == <<Lo12(x[1],x[2]), Lo12(x[2],x[1])>>
Rot8_2(x)  == <<Lo8(x[1],x[2]), Lo8(x[2],x[1])>>
Rot7_2(x)  == <<Lo7(x[1],x[2]), Lo7(x[2],x[1])>>
=============================================================================
