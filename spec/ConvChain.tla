----------------------------- MODULE ConvChain -----------------------------
(***************************************************************************)
(* A value passed through a chain of conversions between arithmetic types.  *)
(* Types 1..12 are the integer types (see IntExpr), 13 float, 14 double,    *)
(* 15 long double.  A conversion whose result C leaves undefined makes the   *)
(* rest of the chain meaningless (u).                                       *)
(***************************************************************************)
EXTENDS Floats, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, ty, val, u
vars == <<cid, i, ty, val, u>>
C == Cases[cid]
Width == <<1, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64>>
Signed == <<FALSE, TRUE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE>>
IsF(t) == t >= 13
ToInt(t, v) == IF t = 1 THEN (IF IsZero(v) THEN Zero(4) ELSE One(4)) ELSE Ext(v, Width[t], Signed[t], 4)
\* <<value, undefined>>
FToI(v, t) ==
  IF t = 1 THEN <<IF v.k = "num" /\ IsZero(v.m) THEN Zero(4) ELSE One(4), FALSE>>
  ELSE IF v.k # "num" THEN <<Zero(4), TRUE>>
  ELSE LET p == IntPart(v)
           mag == p[1]
           r == IF v.s = 1 THEN Neg(mag) ELSE mag
           ok == p[2] /\ (IF Signed[t] THEN (IF v.s = 1 THEN (IsNeg(r) \/ IsZero(r)) ELSE ~IsNeg(r)) ELSE (v.s = 0 \/ IsZero(mag))) /\ ToInt(t, r) = r
       IN <<r, ~ok>>
Convert(a, b, v) ==
  IF IsF(a) THEN (IF IsF(b) THEN <<Round(v, b - 12), FALSE>> ELSE FToI(v, b))
  ELSE IF IsF(b) THEN <<Round(FromInt(Signed[a], v), b - 12), FALSE>> ELSE <<ToInt(b, v), FALSE>>
Init == /\ cid \in 1..Len(Cases) /\ i = 1 /\ ty = C.ty /\ u = FALSE
        /\ val = IF IsF(C.ty) THEN [k |-> C.k, s |-> C.s, m |-> C.m, e |-> C.e] ELSE C.m
Step == /\ i <= Len(C.chain) /\ i' = i + 1 /\ ty' = C.chain[i] /\ UNCHANGED cid
        /\ LET r == Convert(ty, C.chain[i], val) IN val' = r[1] /\ u' = (u \/ r[2])
Done == /\ i = Len(C.chain) + 1 /\ i' = i + 1 /\ UNCHANGED <<cid, ty, val, u>>
        /\ PrintT(ToJson([cid |-> cid, u |-> u, v |-> val]))
Next == Step \/ Done
\* widening a floating value, or converting an integer to a type that holds it, and back loses nothing:
\* the value never changes once it is a value of the current type
Stable == ~u => Convert(ty, ty, val)[1] = val
=============================================================================
