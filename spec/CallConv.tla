------------------------------ MODULE CallConv ------------------------------
(***************************************************************************)
(* The System V x86-64 calling convention: where each argument and the result *)
(* of a function of a given type travel, and how va_list walks the variable   *)
(* ones.  Arguments are placed one per step; then a script of va_start,       *)
(* va_arg, va_copy, va_end and of passing lists on runs on up to three lists, *)
(* each with its own registers-consumed and overflow-area counters.           *)
(*   nodes, lay: the types and what Layout.tla found for them.                *)
(*   WalkOK: the k-th va_arg looks exactly where the k-th argument was put.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, ph, pi, gp, fp, st, locs, k, ls, ok
vars == <<cid, ph, pi, gp, fp, st, locs, k, ls, ok>>
C == Cases[cid]
T(x) == C.nodes[x]
Sz(x) == C.lay[x].sz
Al(x) == C.lay[x].al
Up(a, n) == ((a + n - 1) \div n) * n
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* the scalars a type is made of: first bit, width, class, natural alignment *)
RECURSIVE Leaves(_, _, _)
Leaves(x, o, all) ==
  CASE T(x).k = "leaf" -> {[o |-> o, w |-> IF T(x).flt = 80 THEN 80 ELSE Sz(x) * 8, al |-> T(x).al,
                            c |-> IF T(x).flt = 80 THEN "x87" ELSE IF T(x).flt > 0 THEN "sse" ELSE "int"]}
    [] T(x).k = "arr" -> UNION {Leaves(T(x).e, o + i * Sz(T(x).e) * 8, all) : i \in 0..(T(x).n - 1)}
    [] OTHER -> UNION {LET m == T(x).m[i] b == o + C.lay[x].off[i] IN
                       IF m.w < 0 THEN Leaves(m.t, b, all)
                       ELSE IF ~all /\ (m.w = 0 \/ m.nm = "") THEN {} ELSE {[o |-> b, w |-> Max(m.w, 1), al |-> 1, c |-> "int"]} : i \in 1..Len(T(x).m)}
\* the class of the i-th eightbyte: a long double's second one is of its own class
Class(L, i) == LET E == {IF f.c = "x87" /\ f.o + 64 <= 64 * i THEN "x87up" ELSE f.c : f \in {g \in L : g.o < 64 * (i + 1) /\ g.o + (IF g.c = "x87" THEN 128 ELSE g.w) > 64 * i}} IN
               IF E = {} THEN "no" ELSE IF "int" \in E THEN "gp" ELSE IF E = {"x87"} \/ E = {"x87up"} THEN CHOOSE c \in E : TRUE
               ELSE IF E = {"sse"} THEN "fp" ELSE "mem"
X87(x, L) == Sz(x) = 16 /\ Class(L, 0) = "x87" /\ Class(L, 1) = "x87up"
InMem(x, L) == \/ Sz(x) > 16
               \/ \E f \in L : (f.o \div 8) % f.al # 0
               \/ \E i \in {0, 1} : Class(L, i) \in {"mem", "x87", "x87up"}
Count(x, L, c) == Cardinality({i \in 0..((Sz(x) + 7) \div 8 - 1) : Class(L, i) = c})
\* the registers' shares of the value: register file, number, first byte, bytes
RECURSIVE Pieces(_, _, _, _, _)
Pieces(x, L, i, g, f) ==
  IF i * 8 >= Sz(x) THEN <<>>
  ELSE LET c == Class(L, i) p == [o |-> i * 8, s |-> Min(8, Sz(x) - i * 8)] IN
       (IF c = "no" THEN <<>> ELSE <<[r |-> c, n |-> IF c = "gp" THEN g ELSE f, o |-> p.o, s |-> p.s]>>)
       \o Pieces(x, L, i + 1, IF c = "gp" THEN g + 1 ELSE g, IF c = "fp" THEN f + 1 ELSE f)
OnStack(x, s) == <<[r |-> "st", n |-> Up(s, Max(8, Al(x))), o |-> 0, s |-> Sz(x)]>>
\* where the next argument goes, given what is taken; also used by the lists
Where(x, g, f, s) ==
  LET L == Leaves(x, 0, FALSE) a == Count(x, L, "gp") b == Count(x, L, "fp") IN
  IF ~InMem(x, L) /\ g + a <= 6 /\ f + b <= 8
  THEN [p |-> Pieces(x, L, 0, g, f), g |-> g + a, f |-> f + b, s |-> s]
  ELSE [p |-> OnStack(x, s), g |-> g, f |-> f, s |-> Up(s, Max(8, Al(x))) + Up(Sz(x), 8)]

Ret == IF C.ret = 0 THEN [h |-> "none", p |-> <<>>]
       ELSE LET L == Leaves(C.ret, 0, FALSE) IN
            IF X87(C.ret, L) THEN [h |-> "x87", p |-> <<>>]
            ELSE IF InMem(C.ret, L) THEN [h |-> "mem", p |-> <<>>]
            ELSE [h |-> "reg", p |-> Pieces(C.ret, L, 0, 0, 0)]
\* compilers differ on whether padding bit-fields count: types where it matters are not judged
\* (merging all three classes gives a result that depends on the order of the members)
Shady(x) == LET A == Leaves(x, 0, FALSE) B == Leaves(x, 0, TRUE) IN
            Sz(x) <= 16 /\ (\E i \in {0, 1} : Class(A, i) # Class(B, i) \/ Cardinality({f.c : f \in A}) = 3)
NoList == [live |-> FALSE, g |-> 0, f |-> 0, s |-> 0, pos |-> 0]
Init == /\ cid \in 1..Len(Cases) /\ ph = "place" /\ pi = 1
        /\ gp = (IF Ret.h = "mem" THEN 1 ELSE 0) /\ fp = 0 /\ st = 0
        /\ locs = <<>> /\ k = 1 /\ ls = <<NoList, NoList, NoList>> /\ ok = TRUE
\* named[i]: what was taken once the i-th argument was placed
Place == /\ ph = "place" /\ pi <= Len(C.params)
         /\ LET w == TLCEval(Where(C.params[pi], gp, fp, st)) IN
            /\ locs' = Append(locs, [p |-> w.p, g |-> w.g, f |-> w.f, s |-> w.s])
            /\ gp' = w.g /\ fp' = w.f /\ st' = w.s
         /\ pi' = pi + 1 /\ UNCHANGED <<cid, ph, k, ls, ok>>
Mask(x) == LET L == Leaves(x, 0, FALSE) IN {<<f.o, f.w>> : f \in L}
Placed == /\ ph = "place" /\ pi > Len(C.params) /\ ph' = "va"
          /\ PrintT(ToJson([cid |-> cid, k |-> 0, locs |-> [i \in 1..Len(locs) |-> locs[i].p], ret |-> Ret, st |-> st, nfp |-> fp,
                            shady |-> (C.ret # 0 /\ Shady(C.ret)) \/ \E i \in 1..Len(C.params) : Shady(C.params[i]),
                            masks |-> [i \in 1..Len(C.params) |-> Mask(C.params[i])], rmask |-> IF C.ret = 0 THEN {} ELSE Mask(C.ret)]))
          /\ UNCHANGED <<cid, pi, gp, fp, st, locs, k, ls, ok>>

Op == C.ops[k]
Start == LET n == C.named IN
         IF n = 0 THEN [live |-> TRUE, g |-> IF Ret.h = "mem" THEN 1 ELSE 0, f |-> 0, s |-> 0, pos |-> 0]
         ELSE [live |-> TRUE, g |-> locs[n].g, f |-> locs[n].f, s |-> locs[n].s, pos |-> n]
More(l) == l.live /\ l.pos < Len(C.params)
\* one va_arg: the list after it and whether it looked in the right place
Next1(l) == LET w == Where(C.params[l.pos + 1], l.g, l.f, l.s) IN
            [l |-> [live |-> TRUE, g |-> w.g, f |-> w.f, s |-> w.s, pos |-> l.pos + 1], ok |-> w.p = locs[l.pos + 1].p]
RECURSIVE Walk(_, _)
Walk(l, n) == IF n = 0 \/ ~More(l) THEN [l |-> l, ok |-> TRUE]
              ELSE LET a == Next1(l) b == Walk(a.l, n - 1) IN [l |-> b.l, ok |-> a.ok /\ b.ok]
Enabled(o) == CASE o.o = "start" -> ~ls[o.l].live
                [] o.o \in {"arg", "sub", "subp"} -> More(ls[o.l])
                [] o.o = "copy" -> o.l # o.m /\ ~ls[o.l].live /\ ls[o.m].live
                [] o.o = "end" -> ls[o.l].live
VaStep ==
  /\ ph = "va" /\ k <= Len(C.ops) /\ k' = k + 1
  /\ LET o == Op IN
     IF ~Enabled(o) THEN UNCHANGED <<ls, ok>> /\ PrintT(ToJson([cid |-> cid, k |-> k, did |-> FALSE, a |-> 0, b |-> 0]))
     ELSE LET l == ls[o.l] w == TLCEval(Walk(l, IF o.o = "arg" THEN 1 ELSE IF o.o \in {"sub", "subp"} THEN o.n ELSE 0)) IN
          /\ ls' = [ls EXCEPT ![o.l] = CASE o.o = "start" -> Start
                                         [] o.o \in {"arg", "subp"} -> w.l
                                         [] o.o = "sub" -> [w.l EXCEPT !.live = FALSE]   \* only va_end may follow
                                         [] o.o = "copy" -> ls[o.m]
                                         [] o.o = "end" -> NoList]
          /\ ok' = (ok /\ w.ok)
          /\ PrintT(ToJson([cid |-> cid, k |-> k, did |-> TRUE, a |-> l.pos, b |-> w.l.pos]))
  /\ UNCHANGED <<cid, ph, pi, gp, fp, st, locs>>
Next == Place \/ Placed \/ VaStep
WalkOK == ok
\* no two arguments share a register or a stack byte
Apart == \A i, j \in 1..Len(locs) : i < j =>
  \A a \in 1..Len(locs[i].p), b \in 1..Len(locs[j].p) :
    LET x == locs[i].p[a] y == locs[j].p[b] IN
    x.r = y.r => IF x.r = "st" THEN x.n + x.s <= y.n ELSE x.n # y.n
=============================================================================
