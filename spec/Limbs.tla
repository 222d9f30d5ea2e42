------------------------------- MODULE Limbs -------------------------------
(* Two's-complement words as sequences of 16-bit limbs, least significant first. *)
EXTENDS Integers, Sequences, TLC
\* TLCEval only makes TLC evaluate a function at once instead of at every application
Limb == 0..65535
Zero(n) == TLCEval([i \in 1..n |-> 0])
RECURSIVE AddC(_, _, _, _)
AddC(a, b, c, i) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] + b[i] + c IN <<s % 65536>> \o AddC(a, b, s \div 65536, i + 1)
Add(a, b) == AddC(a, b, 0, 1)
Not(a) == TLCEval([i \in 1..Len(a) |-> 65535 - a[i]])
One(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
Neg(a) == Add(Not(a), One(Len(a)))
Sub(a, b) == AddC(a, Not(b), 1, 1)
IsNeg(a) == a[Len(a)] >= 32768
RECURSIVE ULtI(_, _, _)
ULtI(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtI(a, b, i - 1)
ULt(a, b) == ULtI(a, b, Len(a))
Flip(a) == TLCEval([a EXCEPT ![Len(a)] = (@ + 32768) % 65536])
SLt(a, b) == ULt(Flip(a), Flip(b))
Lt(sgn, a, b) == IF sgn THEN SLt(a, b) ELSE ULt(a, b)
Le(sgn, a, b) == ~Lt(sgn, b, a)
Pow2(k) == 2 ^ k
Bit(a, k) == (a[(k \div 16) + 1] \div Pow2(k % 16)) % 2
\* a as a value of width w bits and signedness sgn, extended to n limbs (n*16 >= w)
Ext(a, w, sgn, n) ==
  LET neg == sgn /\ w > 0 /\ Bit(a, w - 1) = 1
      fill == IF neg THEN 65535 ELSE 0
      full == w \div 16
      part == w % 16
  IN TLCEval([i \in 1..n |-> IF i <= full THEN a[i]
                     ELSE IF i = full + 1 /\ part > 0 THEN (a[i] % Pow2(part)) + (IF neg THEN 65536 - Pow2(part) ELSE 0)
                     ELSE fill])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
ULe(a, b) == ~ULt(b, a)
Chop(a, n) == SubSeq(a, 1, n)
ZExt(a, n) == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0])
\* a * 2^k modulo the width
Shl(a, k) == LET q == k \div 16 p == Pow2(k % 16) IN
  TLCEval([i \in 1..Len(a) |-> (IF i - q >= 1 THEN (a[i - q] * p) % 65536 ELSE 0) + (IF i - q - 1 >= 1 THEN (a[i - q - 1] * p) \div 65536 ELSE 0)])
\* a shifted right k places, filled with the given limb (0 or 65535)
Shr(a, k, fill) == LET q == k \div 16 r == k % 16 n == Len(a) At(j) == IF j > n THEN fill ELSE a[j] IN
  TLCEval([i \in 1..n |-> (At(i + q) \div Pow2(r)) + (((At(i + q + 1) % Pow2(r)) * Pow2(16 - r)) % 65536)])
And1(x, y) == LET RECURSIVE F(_, _, _)
                  F(p, q, k) == IF k = 0 THEN 0 ELSE (IF p % 2 = 1 /\ q % 2 = 1 THEN 1 ELSE 0) + 2 * F(p \div 2, q \div 2, k - 1) IN F(x, y, 16)
And(a, b) == TLCEval([i \in 1..Len(a) |-> And1(a[i], b[i])])
Or(a, b) == Not(And(Not(a), Not(b)))
Xor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i] - 2 * And1(a[i], b[i])])
\* the product of a limb row and one byte, placed at byte position p (p = 2 * limb + half)
RowB(a, b, p) == LET RECURSIVE R(_, _)
                     R(i, c) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] * b + c IN <<s % 65536>> \o R(i + 1, s \div 65536)
                 IN Shl(R(1, 0), p * 8)
Mul(a, b) == LET RECURSIVE S(_)
                 S(p) == IF p >= 2 * Len(a) THEN Zero(Len(a))
                         ELSE LET y == IF p % 2 = 0 THEN b[(p \div 2) + 1] % 256 ELSE b[(p \div 2) + 1] \div 256
                              IN IF y = 0 THEN S(p + 1) ELSE Add(RowB(a, y, p), S(p + 1))
             IN S(0)
\* unsigned long division, one bit at a time: <<quotient, remainder>>
UDivMod(a, b) ==
  LET n == Len(a) d == ZExt(b, n + 1)
      RECURSIVE D(_, _, _)
      D(k, q, r) == IF k < 0 THEN <<q, Chop(r, n)>>
                    ELSE LET r2 == TLCEval([Shl(r, 1) EXCEPT ![1] = @ + Bit(a, k)]) IN
                         IF ULe(d, r2) THEN D(k - 1, TLCEval([q EXCEPT ![(k \div 16) + 1] = @ + Pow2(k % 16)]), TLCEval(Sub(r2, d))) ELSE D(k - 1, q, r2)
      RECURSIVE Top(_)
      Top(k) == IF k < 0 THEN k ELSE IF Bit(a, k) = 1 THEN k ELSE Top(k - 1)
  IN D(Top(16 * n - 1), Zero(n), Zero(n + 1))
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
SDivMod(a, b) == LET x == UDivMod(Abs(a), Abs(b)) IN
  <<IF IsNeg(a) # IsNeg(b) THEN Neg(x[1]) ELSE x[1], IF IsNeg(a) THEN Neg(x[2]) ELSE x[2]>>
=============================================================================
