------------------------------ MODULE IntExpr ------------------------------
(***************************************************************************)
(* An abstract machine for C integer expressions: a postfix program over a  *)
(* stack of typed values.  A value is a type index, 64 bits of two's        *)
(* complement (always the extension of its type's width) and a flag saying  *)
(* that computing it was undefined.  Operands that C does not evaluate do   *)
(* not make the result undefined.  In mode "pp" the two types are intmax_t  *)
(* and uintmax_t, as in #if.                                                *)
(***************************************************************************)
EXTENDS Limbs, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, stack
vars == <<cid, pc, stack>>
C == Cases[cid]
\* 1 _Bool 2 char 3 schar 4 uchar 5 short 6 ushort 7 int 8 uint 9 long 10 ulong 11 llong 12 ullong
Width == <<1, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64>>
Signed == <<FALSE, TRUE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE>>
Rank == <<0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5>>
IntT == IF C.pp THEN 9 ELSE 7
Conv(t, v) == IF t = 1 THEN (IF IsZero(v) THEN Zero(4) ELSE One(4)) ELSE Ext(v, Width[t], Signed[t], 4)
Val(t, v, u) == [t |-> t, v |-> Conv(t, v), u |-> u]
Promote(t) == IF Rank[t] < 3 THEN 7 ELSE t
Common(a, b) ==
  LET x == Promote(a) y == Promote(b) IN
  IF Signed[x] = Signed[y] THEN (IF Rank[x] >= Rank[y] THEN x ELSE y)
  ELSE LET un == IF Signed[x] THEN y ELSE x
           si == IF Signed[x] THEN x ELSE y
       IN IF Rank[un] >= Rank[si] THEN un ELSE IF Width[si] > Width[un] THEN si ELSE si + 1
B(b) == IF b THEN One(4) ELSE Zero(4)
Fits(t, v) == Conv(t, v) = v
\* exact 128-bit product of the two values as signed numbers, checked against the type
SExt8(v) == IF IsNeg(v) THEN [i \in 1..8 |-> IF i <= 4 THEN v[i] ELSE 65535] ELSE ZExt(v, 8)
Fits8(t, v) == v = (LET w == Ext(Chop(v, 4), Width[t], TRUE, 4) IN SExt8(w))
Undef(t, exact) == Signed[t] /\ ~Fits8(t, exact)
Arith(op, t, a, b) ==           \* a, b already converted to t; result <<value, undefined>>
  LET s == Signed[t] IN
  CASE op = "+" -> <<Add(a, b), s /\ Undef(t, Add(SExt8(a), SExt8(b)))>>
    [] op = "-" -> <<Sub(a, b), s /\ Undef(t, Sub(SExt8(a), SExt8(b)))>>
    [] op = "*" -> IF s THEN LET p == Mul(SExt8(a), SExt8(b)) IN <<Chop(p, 4), ~Fits8(t, p)>> ELSE <<Mul(a, b), FALSE>>
    [] op \in {"/", "%"} -> IF IsZero(b) THEN <<Zero(4), TRUE>>
         ELSE LET q == IF s THEN SDivMod(a, b) ELSE UDivMod(a, b)
              IN <<IF op = "/" THEN q[1] ELSE q[2], s /\ ~(Fits(t, q[1]) /\ ~(IsNeg(a) /\ IsNeg(b) /\ IsNeg(q[1])))>>
    [] op = "&" -> <<And(a, b), FALSE>>
    [] op = "|" -> <<Or(a, b), FALSE>>
    [] op = "^" -> <<Xor(a, b), FALSE>>
Shift(op, t, a, n, nu) ==       \* the count's value n and type nu
  LET bad == (Signed[nu] /\ IsNeg(n)) \/ ~ULt(n, <<Width[t], 0, 0, 0>>)
      k == n[1]
  IN IF bad THEN <<Zero(4), TRUE>>
     ELSE IF op = "<<" THEN <<Shl(a, k), Signed[t] /\ (IsNeg(a) \/ ~Fits8(t, Shl(SExt8(a), k)))>>
     ELSE <<Shr(a, k, IF Signed[t] /\ IsNeg(a) THEN 65535 ELSE 0), FALSE>>
Bin(op, x, y) ==
  CASE op = "&&" -> Val(IntT, B(~IsZero(x.v) /\ ~IsZero(y.v)), x.u \/ (~IsZero(x.v) /\ y.u))
    [] op = "||" -> Val(IntT, B(~IsZero(x.v) \/ ~IsZero(y.v)), x.u \/ (IsZero(x.v) /\ y.u))
    [] op = "," -> Val(y.t, y.v, x.u \/ y.u)
    [] op \in {"<<", ">>"} -> LET t == Promote(x.t) r == Shift(op, t, Conv(t, x.v), y.v, y.t) IN Val(t, r[1], x.u \/ y.u \/ r[2])
    [] op \in {"==", "!=", "<", "<=", ">", ">="} ->
         LET t == Common(x.t, y.t) a == Conv(t, x.v) b == Conv(t, y.v) s == Signed[t] IN
         Val(IntT, B(CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> Lt(s, a, b) [] op = "<=" -> Le(s, a, b) [] op = ">" -> Lt(s, b, a) [] op = ">=" -> Le(s, b, a)), x.u \/ y.u)
    [] OTHER -> LET t == Common(x.t, y.t) r == Arith(op, t, Conv(t, x.v), Conv(t, y.v)) IN Val(t, r[1], x.u \/ y.u \/ r[2])
Un(op, x) ==
  LET t == Promote(x.t) a == Conv(t, x.v) IN
  CASE op = "-" -> Val(t, Neg(a), x.u \/ Undef(t, Sub(Zero(8), SExt8(a))))
    [] op = "+" -> Val(t, a, x.u)
    [] op = "~" -> Val(t, Not(a), x.u)
    [] op = "!" -> Val(IntT, B(IsZero(x.v)), x.u)
Cond(c, x, y) == LET t == Common(x.t, y.t) IN
  IF IsZero(c.v) THEN Val(t, Conv(t, y.v), c.u \/ y.u) ELSE Val(t, Conv(t, x.v), c.u \/ x.u)
Init == cid \in 1..Len(Cases) /\ pc = 1 /\ stack = <<>>
Tok == C.code[pc]
n == Len(stack)
Pop(k) == SubSeq(stack, 1, n - k)
Step == /\ pc <= Len(C.code) /\ pc' = pc + 1 /\ UNCHANGED cid
        /\ stack' = CASE Tok.k = "num" -> Append(stack, Val(Tok.t, Tok.v, FALSE))
                      [] Tok.k = "un" -> Append(Pop(1), Un(Tok.op, stack[n]))
                      [] Tok.k = "bin" -> Append(Pop(2), Bin(Tok.op, stack[n - 1], stack[n]))
                      [] Tok.k = "cast" -> Append(Pop(1), Val(Tok.t, stack[n].v, stack[n].u))
                      [] Tok.k = "cond" -> Append(Pop(3), Cond(stack[n - 2], stack[n - 1], stack[n]))
Done == pc = Len(C.code) + 1 /\ pc' = pc + 1 /\ UNCHANGED <<cid, stack>> /\ PrintT(ToJson([cid |-> cid, t |-> stack[1].t, v |-> stack[1].v, u |-> stack[1].u]))
Next == Step \/ Done
\* every value on the stack is a value of its type
Canonical == \A i \in 1..n : stack[i].v = Conv(stack[i].t, stack[i].v)
=============================================================================
