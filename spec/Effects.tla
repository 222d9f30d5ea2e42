------------------------------- MODULE Effects -------------------------------
(***************************************************************************)
(* Evaluation of C expressions with side effects: memory of typed cells, a log *)
(* of calls, and the sequencing C prescribes between them.  One statement per  *)
(* step.  A value that leaves the modelled range makes the case void (bad).    *)
(*   Events are numbered in left-to-right order; an edge <<a, b, c, d>> says    *)
(*   that events a..b happen before events c..d.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, s, fin
vars == <<cid, pc, s, fin>>
C == Cases[cid]
Nd(n) == C.nodes[n]
Lim == 8388608
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(v, w, sg) == LET m == 2 ^ w r == v % m IN IF sg /\ r >= 2 ^ (w - 1) THEN r - m ELSE r
Conv(t, v) == CASE t.k = "bool" -> IF v = 0 THEN 0 ELSE 1
                [] t.k = "int" /\ t.w < 24 -> Wrap(v, t.w, t.s)
                [] OTHER -> v
Bad(x) == [x EXCEPT !.bad = TRUE]
Chk(v, x) == IF Abs(v) > Lim THEN [v |-> 0, s |-> Bad(x)] ELSE [v |-> v, s |-> x]
BitOp(o, a, b) == \* on 26-bit two's complement numbers
  LET M == 67108864 p == a % M q == b % M
      r == CASE o = "&" -> p & q [] o = "|" -> p | q [] o = "^" -> p ^^ q
  IN IF r >= 33554432 THEN r - M ELSE r
Rem(a, b) == IF a < 0 THEN -((-a) % b) ELSE a % b
Arith(o, a, b) == CASE o = "+" -> a + b [] o = "-" -> a - b
                    [] o = "*" -> IF Abs(a) > 40000 \/ Abs(b) > 40000 THEN 2 * Lim ELSE a * b
                    [] o = "%" -> Rem(a, b)
                    [] o \in {"&", "|", "^"} -> BitOp(o, a, b)
                    [] o = "<<" -> a * 2 ^ b [] o = ">>" -> a \div 2 ^ b
                    [] o = "<" -> IF a < b THEN 1 ELSE 0 [] o = "<=" -> IF a <= b THEN 1 ELSE 0
                    [] o = ">" -> IF a > b THEN 1 ELSE 0 [] o = ">=" -> IF a >= b THEN 1 ELSE 0
                    [] o = "==" -> IF a = b THEN 1 ELSE 0 [] o = "!=" -> IF a # b THEN 1 ELSE 0
Edge(x, a, b, c) == \* events a+1..b before b+1..c
  IF b > a /\ c > b THEN [x EXCEPT !.ed = Append(@, <<a + 1, b, b + 1, c>>)] ELSE x
Log(x, e) == [x EXCEPT !.log = Append(@, e)]
N(x) == Len(x.log)
InR(o, i, n) == i >= 0 /\ i + n <= Len(C.objs[o].t)
Put(x, o, i, v) == [x EXCEPT !.mem[o][i + 1] = v]

RECURSIVE Ev(_, _), Lv(_, _), EvAll(_, _, _), Body(_, _, _)
\* the object and first cell a location expression designates
Lv(n, x) ==
  LET d == Nd(n) IN
  CASE d.k = "cell" -> [o |-> d.obj, i |-> d.i, s |-> x]
    [] d.k = "idx" -> LET r == Ev(d.a, x) i == r.v * d.n + d.i IN
                      IF InR(d.obj, i, 1) THEN [o |-> d.obj, i |-> i, s |-> r.s] ELSE [o |-> d.obj, i |-> 0, s |-> Bad(r.s)]
    [] d.k = "lcomma" -> LET r == Ev(d.a, x) q == Lv(d.b, r.s) IN [q EXCEPT !.s = Edge(q.s, N(x), N(r.s), N(q.s))]
    [] d.k = "lcond" -> LET r == Ev(d.a, x) q == Lv(IF r.v # 0 THEN d.b ELSE d.c, r.s) IN [q EXCEPT !.s = Edge(q.s, N(x), N(r.s), N(q.s))]
EvAll(l, x, vs) == IF l = <<>> THEN [v |-> vs, s |-> x]
                   ELSE LET r == Ev(Head(l), x) IN EvAll(Tail(l), r.s, Append(vs, r.v))
Body(l, x, b) == IF Len(l) = 1 THEN Ev(l[1], x)
                 ELSE LET r == Ev(Head(l), x) q == Body(Tail(l), r.s, b) IN [q EXCEPT !.s = Edge(q.s, N(x), N(r.s), N(q.s))]
Two(d, x) == LET a == Ev(d.a, x) b == Ev(d.b, a.s) IN [a |-> a.v, b |-> b.v, s |-> b.s]
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l) + Sum(Tail(l))
Ty(o, i) == C.objs[o].t[i + 1]
Ev(n, x) ==
  LET d == Nd(n) IN
  CASE d.k = "num" -> [v |-> d.v, s |-> x]
    [] d.k = "rd" -> LET l == Lv(d.a, x) IN [v |-> l.s.mem[l.o][l.i + 1], s |-> l.s]
    [] d.k = "asg" -> LET l == Lv(d.a, x) r == Ev(d.b, l.s) v == Conv(Ty(l.o, l.i), r.v) IN [v |-> v, s |-> Put(r.s, l.o, l.i, v)]
    [] d.k = "cas" -> LET l == Lv(d.a, x) r == Ev(d.b, l.s)
                          u == Chk(Arith(d.op, r.s.mem[l.o][l.i + 1], r.v), r.s) v == Conv(Ty(l.o, l.i), u.v) IN [v |-> v, s |-> Put(u.s, l.o, l.i, v)]
    [] d.k = "inc" -> LET l == Lv(d.a, x) o == l.s.mem[l.o][l.i + 1] v == Conv(Ty(l.o, l.i), o + d.v) IN
                      [v |-> IF d.op = "pre" THEN v ELSE o, s |-> Put(l.s, l.o, l.i, v)]
    [] d.k = "bin" -> LET t == Two(d, x) IN Chk(Arith(d.op, t.a, t.b), t.s)
    [] d.k = "neg" -> LET r == Ev(d.a, x) IN [v |-> -r.v, s |-> r.s]
    [] d.k = "not" -> LET r == Ev(d.a, x) IN [v |-> IF r.v = 0 THEN 1 ELSE 0, s |-> r.s]
    [] d.k = "bnot" -> LET r == Ev(d.a, x) IN [v |-> -r.v - 1, s |-> r.s]
    [] d.k = "cast" -> LET r == Ev(d.a, x) IN [v |-> Conv(d.t, r.v), s |-> r.s]
    [] d.k \in {"and", "or"} ->
         LET r == Ev(d.a, x) IN
         IF (r.v # 0) = (d.k = "or") THEN [v |-> IF d.k = "or" THEN 1 ELSE 0, s |-> r.s]
         ELSE LET q == Ev(d.b, r.s) IN [v |-> IF q.v # 0 THEN 1 ELSE 0, s |-> Edge(q.s, N(x), N(r.s), N(q.s))]
    [] d.k \in {"cond", "elvis"} ->
         LET r == Ev(d.a, x) IN
         IF d.k = "elvis" /\ r.v # 0 THEN r
         ELSE LET q == Ev(IF r.v # 0 THEN d.b ELSE d.c, r.s) IN [v |-> q.v, s |-> Edge(q.s, N(x), N(r.s), N(q.s))]
    [] d.k = "comma" -> LET r == Ev(d.a, x) q == Ev(d.b, r.s) IN [v |-> q.v, s |-> Edge(q.s, N(x), N(r.s), N(q.s))]
    [] d.k = "stx" -> Body(d.l, x, 0)
    [] d.k = "void" -> LET r == Ev(d.a, x) IN [v |-> d.v, s |-> r.s]
    [] d.k = "diff" -> LET t == Two(d, x) IN [v |-> t.a - t.b, s |-> t.s]
    [] d.k = "call" ->
         LET r == EvAll(d.l, x, <<>>)
             e == Log(r.s, <<d.v>> \o r.v)
             y == Edge(e, N(x), N(r.s), N(e))
             rv == (Sum(r.v) * 3 + d.v) % 50
         IN CASE d.op = "g" -> \* also counts in the global
                   LET i == r.v[1] % 4 IN [v |-> y.mem[d.obj][i + 1], s |-> Put(y, d.obj, i, Conv(Ty(d.obj, i), y.mem[d.obj][i + 1] + 1))]
              [] d.op = "s" -> [v |-> [j \in 1..Len(d.ts) |-> Conv(d.ts[j], rv + j)], s |-> y]
              [] d.op = "v" -> [v |-> 0, s |-> y]
              [] OTHER -> [v |-> rv, s |-> y]
    \* structure values
    [] d.k = "srd" -> LET l == Lv(d.a, x) IN [v |-> SubSeq(l.s.mem[l.o], l.i + 1, l.i + d.n), s |-> l.s]
    [] d.k = "sasg" -> LET l == Lv(d.a, x) r == Ev(d.b, l.s) IN
                       [v |-> r.v, s |-> [r.s EXCEPT !.mem[l.o] = [i \in 1..Len(@) |-> IF i > l.i /\ i <= l.i + d.n THEN r.v[i - l.i] ELSE @[i]]]]
    [] d.k = "mem" -> LET r == Ev(d.a, x) IN [v |-> r.v[d.i + 1], s |-> r.s]

RECURSIVE Loop(_, _, _)
Loop(t, x, fuel) ==
  IF fuel = 0 THEN Bad(x)
  ELSE LET c == Ev(t.a, x) c1 == Edge(c.s, 0, N(x), N(c.s)) IN
       IF c.v = 0 THEN c1
       ELSE LET b == Ev(t.b, c1) b1 == Edge(b.s, 0, N(c1), N(b.s)) i == Ev(t.c, b1) IN Loop(t, Edge(i.s, 0, N(b1), N(i.s)), fuel - 1)
Stmt(t, x) ==
  CASE t.k = "expr" -> [v |-> 0, s |-> Ev(t.a, x).s]
    [] t.k = "ret" -> LET r == Ev(t.a, x) IN [v |-> r.v, s |-> r.s]
    [] t.k = "if" -> LET r == Ev(t.a, x) q == Ev(IF r.v # 0 THEN t.b ELSE t.c, r.s) IN [v |-> 0, s |-> Edge(q.s, 0, N(r.s), N(q.s))]
    [] t.k = "loop" -> [v |-> 0, s |-> Loop(t, x, 5)]
    [] t.k = "do" -> LET b == Ev(t.b, x) IN [v |-> 0, s |-> Loop(t, b.s, 5)]
Init == /\ cid \in 1..Len(Cases) /\ pc = 1 /\ fin = FALSE
        /\ s = [mem |-> [o \in 1..Len(C.objs) |-> C.objs[o].v], log |-> <<>>, ed |-> <<>>, bad |-> FALSE]
Step == /\ ~fin /\ pc <= Len(C.stmts) /\ ~s.bad
        /\ LET r == TLCEval(Stmt(C.stmts[pc], [s EXCEPT !.log = <<>>, !.ed = <<>>])) IN
           /\ s' = r.s
           /\ PrintT(ToJson([cid |-> cid, k |-> pc, bad |-> r.s.bad, v |-> r.v, log |-> r.s.log, ed |-> r.s.ed, mem |-> r.s.mem]))
        /\ pc' = pc + 1 /\ UNCHANGED <<cid, fin>>
Stop == /\ ~fin /\ (pc > Len(C.stmts) \/ s.bad) /\ fin' = TRUE /\ UNCHANGED <<cid, pc, s>>
Next == Step \/ Stop
\* every cell holds a value of its type; events are ordered consistently with their numbers
Typed == s.bad \/ \A o \in 1..Len(s.mem) : \A i \in 1..Len(s.mem[o]) : Conv(Ty(o, i - 1), s.mem[o][i]) = s.mem[o][i]
Forward == \A k \in 1..Len(s.ed) : LET e == s.ed[k] IN e[1] <= e[2] /\ e[2] < e[3] /\ e[3] <= e[4] /\ e[4] <= Len(s.log)
=============================================================================
