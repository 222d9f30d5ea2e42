------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Exact binary floating values: [k, s, m, e] is (-1)^s * m * 2^e, m being   *)
(* 64 bits (four limbs) with the top bit set, or zero; k is "num", "inf"    *)
(* or "nan".  Formats: 1 float, 2 double, 3 long double (x87).              *)
(***************************************************************************)
EXTENDS Limbs
Prec == <<24, 53, 64>>
LsbMin == <<-149, -1074, -16445>>
MsbMax == <<127, 1023, 16383>>
FZero(s) == [k |-> "num", s |-> s, m |-> Zero(4), e |-> 0]
Inf(s) == [k |-> "inf", s |-> s, m |-> Zero(4), e |-> 0]
RECURSIVE Lead(_, _)
Lead(m, i) == IF i < 0 THEN 64 ELSE IF Bit(m, i) = 1 THEN 63 - i ELSE Lead(m, i - 1)
\* leading zeros of a 64-bit m, a limb at a time first
LeadZ(m) == IF m[4] # 0 THEN Lead(m, 63) ELSE IF m[3] # 0 THEN Lead(m, 47) ELSE IF m[2] # 0 THEN Lead(m, 31) ELSE Lead(m, 15)
Normal(s, m, e) == IF IsZero(m) THEN FZero(s) ELSE LET z == LeadZ(m) IN [k |-> "num", s |-> s, m |-> Shl(m, z), e |-> e - z]
Max(a, b) == IF a > b THEN a ELSE b
\* is any of the low n bits of m set?
Low(m, n) == ~IsZero(Ext(m, IF n > 64 THEN 64 ELSE n, FALSE, 4))
\* v rounded to nearest, ties to even, to the format; sticky: a nonzero tail lies below m
RoundS(v, f, sticky) ==
  IF v.k # "num" \/ IsZero(v.m) THEN v
  ELSE LET lsb == Max(v.e + 63 - Prec[f] + 1, LsbMin[f])
           drop == lsb - v.e
       IN IF drop <= 0 THEN v
          ELSE IF drop > 64 THEN FZero(v.s)
          ELSE LET q == IF drop = 64 THEN Zero(4) ELSE Shr(v.m, drop, 0)
                   half == Bit(v.m, drop - 1) = 1
                   rest == sticky \/ (drop > 1 /\ Low(v.m, drop - 1))
                   up == half /\ (rest \/ q[1] % 2 = 1)
                   q2 == IF up THEN Add(q, One(4)) ELSE q
                   \* a carry out of 64 bits cannot happen as drop >= 1
                   r == Normal(v.s, q2, lsb)
               IN IF ~IsZero(r.m) /\ r.e + 63 > MsbMax[f] THEN Inf(v.s) ELSE r
Round(v, f) == LET r == RoundS(v, f, FALSE) IN IF r.k = "num" /\ ~IsZero(r.m) /\ r.e + 63 > MsbMax[f] THEN Inf(r.s) ELSE r
FromInt(sgn, v) == IF sgn /\ IsNeg(v) THEN Normal(1, Neg(v), 0) ELSE Normal(0, v, 0)
\* magnitude of the integer part, <<limbs, fits in 64 bits>>
IntPart(v) == IF IsZero(v.m) \/ v.e <= -64 THEN <<Zero(4), TRUE>>
              ELSE IF v.e <= 0 THEN <<IF v.e = 0 THEN v.m ELSE Shr(v.m, -v.e, 0), TRUE>> ELSE <<Zero(4), FALSE>>
\* ---- arithmetic: exact in enough limbs, then rounded once ----
RECURSIVE TopBit(_, _)
TopBit(m, i) == IF i < 0 THEN -1 ELSE IF i % 16 = 15 /\ m[(i \div 16) + 1] = 0 THEN TopBit(m, i - 16) ELSE IF Bit(m, i) = 1 THEN i ELSE TopBit(m, i - 1)
\* (-1)^s * (m + tail) * 2^e, any number of limbs, tail in [0,1), nonzero iff sticky
RoundW(s, m, e, f, sticky) ==
  LET n == Len(m) top == TopBit(m, 16 * n - 1) IN
  IF top < 0 THEN FZero(s)
  ELSE LET lsb == Max(e + top - Prec[f] + 1, LsbMin[f])
           drop == lsb - e
           q0 == IF drop <= 0 THEN m ELSE IF drop > top THEN Zero(n) ELSE Shr(m, drop, 0)
           half == drop >= 1 /\ drop - 1 <= top /\ Bit(m, drop - 1) = 1
           rest == sticky \/ (drop >= 2 /\ (drop - 1 > top \/ ~IsZero(Ext(m, drop - 1, FALSE, n))))
           q == IF half /\ (rest \/ q0[1] % 2 = 1) THEN Add(q0, One(n)) ELSE q0
           t2 == TopBit(q, 16 * n - 1)
           e2 == IF drop <= 0 THEN e ELSE lsb
       IN IF t2 < 0 THEN FZero(s)
          ELSE IF e2 + t2 > MsbMax[f] THEN Inf(s)
          ELSE [k |-> "num", s |-> s, m |-> (IF t2 >= 63 THEN Chop(Shr(q, t2 - 63, 0), 4) ELSE Chop(Shl(q, 63 - t2), 4)), e |-> e2 + t2 - 63]
NaN == [k |-> "nan", s |-> 0, m |-> Zero(4), e |-> 0]
IsZ(x) == x.k = "num" /\ IsZero(x.m)
\* |x| < |y| for finite values
MagLt(x, y) == IF IsZero(x.m) THEN ~IsZero(y.m) ELSE IF IsZero(y.m) THEN FALSE ELSE IF x.e # y.e THEN x.e < y.e ELSE ULt(x.m, y.m)
FNeg(x) == [x EXCEPT !.s = 1 - @]
FAdd(x, y, f) ==
  IF x.k = "nan" \/ y.k = "nan" THEN NaN
  ELSE IF x.k = "inf" THEN (IF y.k = "inf" /\ x.s # y.s THEN NaN ELSE x)
  ELSE IF y.k = "inf" THEN y
  ELSE IF IsZ(x) /\ IsZ(y) THEN FZero(IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0)
  ELSE IF IsZ(x) THEN y ELSE IF IsZ(y) THEN x
  ELSE LET a == IF MagLt(x, y) THEN y ELSE x
           b == IF MagLt(x, y) THEN x ELSE y
           d == a.e - b.e
           \* 10 limbs: a in limbs 6..9, 80 bits below it
           A == Shl(ZExt(a.m, 10), 80)
           B0 == Shl(ZExt(b.m, 10), 80)
           sh == IF d > 159 THEN 159 ELSE d
           lost == d > 0 /\ ~IsZero(Ext(B0, sh, FALSE, 10))
           Bs == Shr(B0, sh, 0)
       IN IF a.s = b.s THEN RoundW(a.s, Add(A, Bs), a.e - 80, f, lost)
          ELSE LET D == IF lost THEN Sub(Sub(A, Bs), One(10)) ELSE Sub(A, Bs) IN
               IF IsZero(D) THEN FZero(0) ELSE RoundW(a.s, D, a.e - 80, f, lost)
FMul(x, y, f) ==
  LET s == (x.s + y.s) % 2 IN
  IF x.k = "nan" \/ y.k = "nan" \/ (x.k = "inf" /\ IsZ(y)) \/ (y.k = "inf" /\ IsZ(x)) THEN NaN
  ELSE IF x.k = "inf" \/ y.k = "inf" THEN Inf(s)
  ELSE IF IsZ(x) \/ IsZ(y) THEN FZero(s)
  ELSE RoundW(s, Mul(ZExt(x.m, 8), ZExt(y.m, 8)), x.e + y.e, f, FALSE)
FDiv(x, y, f) ==
  LET s == (x.s + y.s) % 2 IN
  IF x.k = "nan" \/ y.k = "nan" \/ (x.k = "inf" /\ y.k = "inf") \/ (IsZ(x) /\ IsZ(y)) THEN NaN
  ELSE IF x.k = "inf" THEN Inf(s)
  ELSE IF y.k = "inf" \/ IsZ(x) THEN FZero(s)
  ELSE IF IsZ(y) THEN Inf(s)
  ELSE LET q == UDivMod(Shl(ZExt(x.m, 10), 80), ZExt(y.m, 10)) IN RoundW(s, q[1], x.e - y.e - 80, f, ~IsZero(q[2]))
\* "lt", "eq", "gt" or "un"
FCmp(x, y) ==
  IF x.k = "nan" \/ y.k = "nan" THEN "un"
  ELSE LET sx == IF IsZ(x) THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
           sy == IF IsZ(y) THEN 0 ELSE IF y.s = 1 THEN -1 ELSE 1
           mag == IF x.k = "inf" THEN (IF y.k = "inf" THEN 0 ELSE 1) ELSE IF y.k = "inf" THEN -1 ELSE IF MagLt(x, y) THEN -1 ELSE IF MagLt(y, x) THEN 1 ELSE 0
           c == IF sx # sy THEN sx - sy ELSE sx * mag
       IN IF c < 0 THEN "lt" ELSE IF c > 0 THEN "gt" ELSE "eq"
=============================================================================
