----------------------------- MODULE FloatExpr -----------------------------
(***************************************************************************)
(* IntExpr's stack machine with the three real floating types (13 float, 14 *)
(* double, 15 long double) added: each operation is computed exactly and     *)
(* rounded once to its own type.                                            *)
(***************************************************************************)
EXTENDS IntExpr, Floats
IsF(t) == t >= 13
CommonA(a, b) == IF IsF(a) \/ IsF(b) THEN Max(a, b) ELSE Common(a, b)
FToI(v, t) ==
  IF v.k # "num" THEN <<Zero(4), TRUE>>
  ELSE LET p == IntPart(v)
           mag == p[1]
           r == IF v.s = 1 THEN Neg(mag) ELSE mag
           ok == p[2] /\ (IF Signed[t] THEN (IF v.s = 1 THEN (IsNeg(r) \/ IsZero(r)) ELSE ~IsNeg(r)) ELSE (v.s = 0 \/ IsZero(mag))) /\ Conv(t, r) = r
       IN <<r, ~ok>>
Truth(x) == IF IsF(x.t) THEN ~IsZ(x.v) ELSE ~IsZero(x.v)
To(t, x) ==
  IF IsF(x.t) THEN (IF IsF(t) THEN [t |-> t, v |-> Round(x.v, t - 12), u |-> x.u]
                    ELSE IF t = 1 THEN Val(1, B(Truth(x)), x.u)
                    ELSE LET r == FToI(x.v, t) IN Val(t, r[1], x.u \/ r[2]))
  ELSE IF IsF(t) THEN [t |-> t, v |-> Round(FromInt(Signed[x.t], x.v), t - 12), u |-> x.u] ELSE Val(t, x.v, x.u)
FVal(t, v, w) == [t |-> t, v |-> v, u |-> w]
CmpRes(op, c) == CASE op = "==" -> c = "eq" [] op = "!=" -> c # "eq" [] op = "<" -> c = "lt" [] op = "<=" -> c \in {"lt", "eq"} [] op = ">" -> c = "gt" [] op = ">=" -> c \in {"gt", "eq"}
BinF(op, x, y) ==
  IF op = "&&" THEN Val(IntT, B(Truth(x) /\ Truth(y)), x.u \/ (Truth(x) /\ y.u))
  ELSE IF op = "||" THEN Val(IntT, B(Truth(x) \/ Truth(y)), x.u \/ (~Truth(x) /\ y.u))
  ELSE IF op = "," THEN [y EXCEPT !.u = @ \/ x.u]
  ELSE IF ~IsF(x.t) /\ ~IsF(y.t) THEN Bin(op, x, y)
  ELSE LET t == CommonA(x.t, y.t) a == To(t, x).v b == To(t, y).v f == t - 12 w == x.u \/ y.u IN
    CASE op = "+" -> FVal(t, FAdd(a, b, f), w)
      [] op = "-" -> FVal(t, FAdd(a, FNeg(b), f), w)
      [] op = "*" -> FVal(t, FMul(a, b, f), w)
      [] op = "/" -> FVal(t, FDiv(a, b, f), w)
      [] OTHER -> Val(IntT, B(CmpRes(op, FCmp(a, b))), w)
UnF(op, x) == IF op = "!" THEN Val(IntT, B(~Truth(x)), x.u)
              ELSE IF ~IsF(x.t) THEN Un(op, x)
              ELSE IF op = "-" THEN [x EXCEPT !.v = FNeg(@)] ELSE x
CondF(c, x, y) == LET t == CommonA(x.t, y.t) IN
  LET r == IF Truth(c) THEN To(t, x) ELSE To(t, y) IN [r EXCEPT !.u = @ \/ c.u]
FInit == cid \in 1..Len(Cases) /\ pc = 1 /\ stack = <<>>
Num == IF IsF(Tok.t) THEN [t |-> Tok.t, v |-> [k |-> Tok.fk, s |-> Tok.s, m |-> Tok.v, e |-> Tok.e], u |-> FALSE] ELSE Val(Tok.t, Tok.v, FALSE)
FStep == /\ pc <= Len(C.code) /\ pc' = pc + 1 /\ UNCHANGED cid
         /\ stack' = CASE Tok.k = "num" -> Append(stack, Num)
                      [] Tok.k = "un" -> Append(Pop(1), UnF(Tok.op, stack[n]))
                      [] Tok.k = "bin" -> Append(Pop(2), BinF(Tok.op, stack[n - 1], stack[n]))
                      [] Tok.k = "cast" -> Append(Pop(1), To(Tok.t, stack[n]))
                      [] Tok.k = "cond" -> Append(Pop(3), CondF(stack[n - 2], stack[n - 1], stack[n]))
FNext == FStep \/ Done
\* every value on the stack is a value of its type
FCanonical == \A i \in 1..n : LET x == stack[i] IN IF IsF(x.t) THEN Round(x.v, x.t - 12) = x.v ELSE x.v = Conv(x.t, x.v)
=============================================================================
