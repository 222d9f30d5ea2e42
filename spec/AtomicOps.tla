----------------------------- MODULE AtomicOps -----------------------------
(***************************************************************************)
(* One atomic operation on a typed object that others write to at any time. *)
(* The others' writes (C.env, in order) and the operation's single instant  *)
(* (Take) interleave in every way; each behaviour ends in what the object,  *)
(* the operation's value and the object holding the expected value of a     *)
(* compare-exchange must then be.  C.at is how many writes came first.      *)
(***************************************************************************)
EXTENDS FloatExpr
VARIABLES mem, i, at, ret, exp
avars == <<cid, pc, stack, mem, i, at, ret, exp>>
Fixed == UNCHANGED <<cid, pc, stack>>
ValOf(k) == IF IsF(k.t) THEN [t |-> k.t, v |-> [k |-> k.fk, s |-> k.s, m |-> k.v, e |-> k.e], u |-> FALSE] ELSE Val(k.t, k.v, FALSE)
T == C.ty
Arg == ValOf(C.arg)
\* pointers to four-byte elements are numbers that move in fours
Apply(op, m) == IF C.ptr THEN LET d == Shl(Arg.v, 2) IN [t |-> T, v |-> IF op = "+" THEN Add(m.v, d) ELSE Sub(m.v, d), u |-> FALSE]
                ELSE To(T, BinF(op, m, Arg))
\* the fetch operations wrap around
Wrap(op, m) == LET a == To(T, Arg).v IN
  Val(T, CASE op = "add" -> Add(m.v, a) [] op = "sub" -> Sub(m.v, a) [] op = "and" -> And(m.v, a) [] op = "or" -> Or(m.v, a) [] op = "xor" -> Xor(m.v, a), FALSE)
\* <<the object after, the operation's value, the expected value after>>; a weak compare-exchange may fail for no reason
Effect(op, m, x) ==
  CASE op = "load"  -> <<m, m, x>>
    [] op = "use"   -> <<m, IF C.left THEN BinF(C.bop, m, Arg) ELSE BinF(C.bop, Arg, m), x>>
    [] op = "store" -> LET r == To(T, Arg) IN <<r, r, x>>
    [] op \in {"asg", "pre"}  -> LET r == Apply(C.bop, m) IN <<r, r, x>>
    [] op = "post"  -> <<Apply(C.bop, m), m, x>>
    [] op = "fetch" -> <<Wrap(C.bop, m), m, x>>
    [] op = "xchg"  -> <<To(T, Arg), m, x>>
    [] op = "cas"   -> IF m.v = x.v THEN <<To(T, Arg), Val(1, One(4), FALSE), x>> ELSE <<m, Val(1, Zero(4), FALSE), m>>
    [] op = "spur"  -> <<m, Val(1, Zero(4), FALSE), m>>
None == [t |-> 0, v |-> Zero(4), u |-> FALSE]
AInit == /\ cid \in 1..Len(Cases) /\ pc \in 0..Len(C.env) /\ stack = <<>>   \* pc: how many of the writes there are
         /\ mem = ValOf(C.init) /\ exp = ValOf(C.exp) /\ i = 0 /\ at = -1 /\ ret = None
Others == /\ i < pc /\ i' = i + 1 /\ mem' = ValOf(C.env[i + 1]) /\ Fixed /\ UNCHANGED <<at, ret, exp>>
Take == /\ at = -1 /\ at' = i
        /\ \E op \in (IF C.op = "wcas" THEN {"cas", "spur"} ELSE {C.op}) :
              LET r == Effect(op, mem, exp) IN mem' = r[1] /\ ret' = r[2] /\ exp' = r[3]
        /\ Fixed /\ UNCHANGED i
Finish == /\ at >= 0 /\ i = pc /\ i' = i + 1
          /\ PrintT(ToJson([cid |-> cid, n |-> pc, at |-> at, mem |-> mem.v, ret |-> [t |-> ret.t, v |-> ret.v], exp |-> exp.v, u |-> mem.u \/ ret.u]))
          /\ Fixed /\ UNCHANGED <<mem, at, ret, exp>>
ANext == Others \/ Take \/ Finish
\* the object always holds a value of its type
InType == mem.t = T /\ (mem.u \/ IF IsF(T) THEN Round(mem.v, T - 12) = mem.v ELSE mem.v = Conv(T, mem.v))
\* what is stored before the instant is seen, what is stored after it stays
Instant == [][(at = -1 /\ at' >= 0) => /\ i' = i
                                        /\ (C.op \in {"fetch", "xchg", "load", "post"} => ret'.v = mem.v)
                                        /\ (C.op = "cas" => (ret'.v = One(4)) = (mem.v = exp.v) /\ (mem.v # exp.v => mem' = mem /\ exp' = mem))]_avars
=============================================================================
