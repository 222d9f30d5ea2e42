------------------------------- MODULE Switch -------------------------------
(***************************************************************************)
(* One switch statement: the controlling value is promoted, every label is  *)
(* converted to the promoted type, and control goes to the matching label,   *)
(* else to default, else past the switch; then arms run until a break.       *)
(***************************************************************************)
EXTENDS Limbs, TLC, Json, IOUtils, FiniteSets
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, vi, at, trace, phase
vars == <<cid, vi, at, trace, phase>>
C == Cases[cid]
\* integer promotion of a type of w bits (bit-fields: their width)
PW == IF C.w < 32 \/ (C.w = 32 /\ C.sgn) THEN 32 ELSE C.w
PS == IF C.w < 32 THEN TRUE ELSE C.sgn
Conv(a) == Ext(a, PW, PS, 4)             \* to the promoted type
Value == Conv(Ext(C.vals[vi], C.w, C.sgn, 4))
Arms == C.arms
Match(l) == LET v == Value IN Le(PS, Conv(l[1]), v) /\ Le(PS, v, Conv(l[2]))
HasMatch(i) == \E j \in 1..Len(Arms[i].labels) : Match(Arms[i].labels[j])
Labels == {<<i, j>> : i \in 1..Len(Arms), j \in 1..8}
All == {x \in Labels : x[2] <= Len(Arms[x[1]].labels)}
L(x) == Arms[x[1]].labels[x[2]]
Overlap == \E x, y \in All : (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])) /\ Le(PS, Conv(L(x)[1]), Conv(L(y)[2])) /\ Le(PS, Conv(L(y)[1]), Conv(L(x)[2]))
TwoDefaults == Cardinality({i \in 1..Len(Arms) : Arms[i].default}) > 1
Bad == Overlap \/ TwoDefaults
Init == cid \in 1..Len(Cases) /\ vi = 0 /\ at = 0 /\ trace = <<>> /\ phase = "check"
\* the labels are checked once; then any of the values arrives
Check == /\ phase = "check"
         /\ IF Bad THEN phase' = "bad" /\ UNCHANGED vi ELSE phase' = "select" /\ vi' \in 1..Len(C.vals)
         /\ UNCHANGED <<cid, at, trace>>
Select == /\ phase = "select"
          /\ LET m == {i \in 1..Len(Arms) : HasMatch(i)} d == {i \in 1..Len(Arms) : Arms[i].default} IN
             at' = (IF m # {} THEN CHOOSE i \in m : TRUE ELSE IF d # {} THEN CHOOSE i \in d : TRUE ELSE 0)
          /\ phase' = (IF at' = 0 THEN "done" ELSE "run") /\ UNCHANGED <<cid, vi, trace>>
Run == /\ phase = "run" /\ trace' = Append(trace, at)
       /\ IF Arms[at].brk \/ at = Len(Arms) THEN phase' = "done" /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED phase
       /\ UNCHANGED <<cid, vi>>
Done == /\ phase \in {"done", "bad"} /\ phase' = "end" /\ PrintT(ToJson([cid |-> cid, vi |-> vi, bad |-> phase = "bad", t |-> trace])) /\ UNCHANGED <<cid, vi, at, trace>>
Next == Check \/ Select \/ Run \/ Done
AtMostOne == phase = "select" => Cardinality({x \in All : Match(L(x))}) <= 1
=============================================================================
