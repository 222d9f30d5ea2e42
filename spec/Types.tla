-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The types of C declarations and expressions.  A case is a list of        *)
(* declarations, each a specifier and a declarator given as tokens, and a   *)
(* list of operators to apply.  The machine reads every declarator from its *)
(* identifier outwards (right while there are suffixes, then left over      *)
(* asterisks, then out of a pair of parentheses), builds the type, and then *)
(* grows a pool of expressions: each operator is applied to operands chosen *)
(* among those to which C lets it apply, with the type C prescribes.        *)
(* A type is [k, q, b, n, ps, va, old]: kind, qualifiers, base or return    *)
(* type (none or one), length (-1: unknown), parameters, variadic, without  *)
(* prototype.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, phase, pc, l, r, mods, env, mem, pool, out
vars == <<cid, phase, pc, l, r, mods, env, mem, pool, out>>
C == Cases[cid]
Qs(s) == {s[i] : i \in 1..Len(s)}
Mk(k, q, b, n, ps, va, old) == [k |-> k, q |-> q, b |-> b, n |-> n, ps |-> ps, va |-> va, old |-> old]
Basic(k) == Mk(k, {}, <<>>, 0, <<>>, FALSE, FALSE)
Bad == Basic("bad")
Ptr(t) == Mk("ptr", {}, <<t>>, 0, <<>>, FALSE, FALSE)
Arr(t, n) == Mk("arr", {}, <<t>>, n, <<>>, FALSE, FALSE)
Integer == {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
Real == {"float", "double", "ldouble"}
Arith == Integer \cup Real
IsBad(t) == t.k = "bad"
Base(t) == t.b[1]
Unq(t) == [t EXCEPT !.q = {}]
\* qualifiers of an array are those of its elements
RECURSIVE Qual(_, _)
Qual(t, q) ==
  IF IsBad(t) \/ q = {} THEN t
  ELSE IF t.k = "arr" THEN (LET b == Qual(Base(t), q) IN IF IsBad(b) THEN Bad ELSE [t EXCEPT !.b = <<b>>])
  ELSE IF t.k = "fn" \/ ("restrict" \in q /\ (t.k # "ptr" \/ Base(t).k = "fn")) THEN Bad
  ELSE [t EXCEPT !.q = @ \cup q]
RECURSIVE Quals(_)
Quals(t) == IF t.k = "arr" THEN Quals(Base(t)) ELSE t.q
Incomplete(t) == t.k = "void" \/ t.k = "fn" \/ (t.k = "arr" /\ t.n < 0)
\* structures not complete yet where declaration D stands
D == C.decls[pc]
Undef == IF D.use = "S" \/ D.pre THEN {"S", "T"} ELSE IF D.use = "T" THEN {"T"} ELSE {}
\* one declarator modifier applied to the type outside of it; Params(m): its adjusted parameter types
Make(m, t, ps) ==
  IF IsBad(t) THEN Bad
  ELSE IF m.t = "*" THEN Qual(Ptr(t), Qs(m.q))
  ELSE IF m.t = "[" THEN (IF Incomplete(t) \/ t.k \in Undef THEN Bad ELSE Arr(t, m.n))
  ELSE IF t.k \in {"arr", "fn"} \/ (\E i \in 1..Len(ps) : IsBad(ps[i])) THEN Bad
  ELSE Mk("fn", {}, <<Unq(t)>>, 0, ps, m.va, m.old)
\* array and function parameters are pointers; the qualifiers in the brackets are the pointer's
Adjust(t, ms) ==
  IF IsBad(t) \/ t.k = "void" THEN Bad
  ELSE IF t.k = "arr" THEN Qual(Ptr(Base(t)), IF ms # <<>> /\ ms[1].t = "[" THEN Qs(ms[1].q) ELSE {})
  ELSE IF t.k = "fn" THEN Ptr(t)
  ELSE t
IdAt(toks) == CHOOSE i \in 1..Len(toks) : toks[i].t = "id"
\* where the reading of a declarator goes from (l, r): "right", "left", "out" or "end"
Turn(toks, a, b) ==
  IF b <= Len(toks) /\ toks[b].t \in {"[", "f"} THEN "right"
  ELSE IF a >= 1 /\ toks[a].t = "*" THEN "left"
  ELSE IF a >= 1 THEN "out" ELSE "end"
RECURSIVE Read(_, _, _, _)
Read(toks, a, b, ms) ==
  CASE Turn(toks, a, b) = "right" -> Read(toks, a, b + 1, Append(ms, toks[b]))
    [] Turn(toks, a, b) = "left" -> Read(toks, a - 1, b, Append(ms, toks[a]))
    [] Turn(toks, a, b) = "out" -> Read(toks, a - 1, b + 1, ms)
    [] OTHER -> ms
RECURSIVE Declared(_, _, _)
RECURSIVE ParamTypes(_, _, _)
RECURSIVE Apply(_, _, _, _)
Spec(e, s) == Qual(IF s.td > 0 THEN e[s.td] ELSE Basic(s.k), Qs(s.q))
Apply(e, ms, i, t) == IF i = 0 THEN t ELSE Apply(e, ms, i - 1, Make(ms[i], t, IF ms[i].t = "f" THEN ParamTypes(e, ms[i].ps, 1) ELSE <<>>))
Declared(e, s, ms) == Apply(e, ms, Len(ms), Spec(e, s))
ParamTypes(e, ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET toks == ps[i].toks
           p == IdAt(toks)
           ms == Read(toks, p - 1, p + 1, <<>>)
           t == Declared(e, ps[i].spec, ms)
       IN <<IF ~IsBad(t) /\ (\A j \in 1..Len(ms) : ms[j].t = "[" => (j = 1 \/ ms[j].q = <<>>)) THEN Adjust(t, ms) ELSE Bad>> \o ParamTypes(e, ps, i + 1)

\* ---- compatible and composite types
Promoted(k) == k \notin {"bool", "char", "schar", "uchar", "short", "ushort", "float"}
RECURSIVE Same(_, _)
Same(t, u) ==
  /\ t.k = u.k
  /\ \/ t.k \notin {"ptr", "arr", "fn"}
     \/ t.k = "ptr" /\ Base(t).q = Base(u).q /\ Same(Base(t), Base(u))
     \/ t.k = "arr" /\ Base(t).q = Base(u).q /\ Same(Base(t), Base(u)) /\ (t.n < 0 \/ u.n < 0 \/ t.n = u.n)
     \/ t.k = "fn" /\ Same(Base(t), Base(u))
        /\ IF t.old /\ u.old THEN TRUE
           ELSE IF t.old THEN ~u.va /\ (\A i \in 1..Len(u.ps) : Promoted(u.ps[i].k))
           ELSE IF u.old THEN ~t.va /\ (\A i \in 1..Len(t.ps) : Promoted(t.ps[i].k))
           ELSE t.va = u.va /\ Len(t.ps) = Len(u.ps) /\ (\A i \in 1..Len(t.ps) : Same(t.ps[i], u.ps[i]))
Compat(t, u) == t.q = u.q /\ Same(t, u)
RECURSIVE Composite(_, _)
Composite(t, u) ==
  IF t.k = "ptr" THEN [t EXCEPT !.b = <<Composite(Base(t), Base(u))>>]
  ELSE IF t.k = "arr" THEN [t EXCEPT !.b = <<Composite(Base(t), Base(u))>>, !.n = IF t.n < 0 THEN u.n ELSE t.n]
  ELSE IF t.k = "fn" THEN
       (LET rt == Composite(Base(t), Base(u)) IN
        IF t.old THEN [u EXCEPT !.b = <<rt>>] ELSE IF u.old THEN [t EXCEPT !.b = <<rt>>]
        ELSE [t EXCEPT !.b = <<rt>>, !.ps = [i \in 1..Len(t.ps) |-> Composite(Unq(t.ps[i]), Unq(u.ps[i]))]])
  ELSE t

\* ---- expressions: [t, lv, bf]
Rank(k) == CASE k = "bool" -> 0 [] k \in {"char", "schar", "uchar"} -> 1 [] k \in {"short", "ushort"} -> 2 [] k \in {"int", "uint"} -> 3 [] k \in {"long", "ulong"} -> 4 [] OTHER -> 5
Unsigned(k) == k \in {"uint", "ulong", "ullong"}
Prom(e) == IF e.bf > 0 THEN (IF e.t.k = "uint" /\ e.bf = 32 THEN "uint" ELSE "int") ELSE IF e.t.k \in Integer /\ Rank(e.t.k) < 3 THEN "int" ELSE e.t.k
Uac(a, b) ==
  IF "ldouble" \in {a, b} THEN "ldouble" ELSE IF "double" \in {a, b} THEN "double" ELSE IF "float" \in {a, b} THEN "float"
  ELSE IF a = b THEN a
  ELSE IF Unsigned(a) = Unsigned(b) THEN (IF Rank(a) > Rank(b) THEN a ELSE b)
  ELSE LET u == IF Unsigned(a) THEN a ELSE b
           s == IF Unsigned(a) THEN b ELSE a
       IN IF Rank(u) >= Rank(s) THEN u
          ELSE IF Rank(u) = 3 THEN s      \* the signed type has 64 bits
          ELSE "ullong"                   \* long long and unsigned long
Conv(e) == IF e.t.k = "arr" THEN Ptr(Base(e.t)) ELSE IF e.t.k = "fn" THEN Ptr(e.t) ELSE Unq(e.t)
Rv(t) == [t |-> t, lv |-> FALSE, bf |-> 0]
Lv(t) == [t |-> t, lv |-> TRUE, bf |-> 0]
IsPtr(e) == Conv(e).k = "ptr"
Pointee(e) == Base(Conv(e))
Struct(k) == k \in {"S", "T"}
ObjPtr(e) == IsPtr(e) /\ ~Incomplete(Pointee(e))
Scalar(e) == IsPtr(e) \/ e.t.k \in Arith
RECURSIVE Elem(_)
Elem(t) == IF t.k = "arr" THEN Elem(Base(t)) ELSE t
Modifiable(e) == e.lv /\ e.t.k \notin {"arr", "fn", "void"} /\ "const" \notin e.t.q /\ (Struct(e.t.k) => \A i \in 1..Len(mem[e.t.k]) : "const" \notin Quals(mem[e.t.k][i].t) /\ Elem(mem[e.t.k][i].t).k # "S" /\ Quals(mem[e.t.k][i].t) = {})
Intg(e) == e.t.k \in Integer
Ar(e) == e.t.k \in Arith
\* operands to which op applies; for binary operators given the first one
App1(op, e) ==
  CASE op = "addr" -> e.bf = 0 /\ (e.lv \/ e.t.k = "fn") /\ e.t.k # "void"
    [] op = "deref" -> IsPtr(e) /\ Pointee(e).k # "void"
    [] op \in {"idx", "padd", "psub"} -> ObjPtr(e)
    [] op = "dot" -> Struct(e.t.k)
    [] op = "arrow" -> IsPtr(e) /\ Struct(Pointee(e).k)
    [] op = "call" -> IsPtr(e) /\ Pointee(e).k = "fn"
    [] op \in {"pos", "neg"} -> Ar(e)
    [] op = "not" -> Intg(e)
    [] op \in {"lnot", "land", "cond0"} -> Scalar(e)
    [] op \in {"mul", "add"} -> Ar(e)
    [] op \in {"and", "shl", "mod"} -> Intg(e)
    [] op = "less" -> Ar(e)
    [] op = "pdiff" -> ObjPtr(e)
    [] op = "peq" -> IsPtr(e)
    [] op = "cond" -> e.t.k # "void" \/ TRUE
    [] op = "comma" -> e.t.k # "void"
    [] op = "assign" -> Modifiable(e)
    [] op = "asgop" -> Modifiable(e) /\ Ar(e)
    [] op = "inc" -> Modifiable(e) /\ (Ar(e) \/ ObjPtr(e))
    [] op = "stmt" -> e.bf = 0
    [] op = "gen" -> e.bf = 0 /\ e.t.k # "void"
    [] op = "par" -> TRUE
    [] op = "typeof" -> e.bf = 0 /\ e.lv /\ ~Incomplete(e.t)
    [] op = "sizeof" -> e.bf = 0 /\ ~Incomplete(e.t)
    [] op = "cast" -> Scalar(e)
    [] OTHER -> FALSE
Binary == {"mul", "add", "and", "shl", "mod", "less", "pdiff", "peq", "cond", "land", "comma", "cast"}
App2(op, e, f) ==
  CASE op \in {"mul", "add", "less"} -> Ar(f)
    [] op \in {"and", "shl", "mod"} -> Intg(f)
    [] op = "land" -> Scalar(f)
    [] op = "pdiff" -> ObjPtr(f) /\ Same(Pointee(e), Pointee(f))
    [] op = "peq" -> IsPtr(f) /\ (Same(Pointee(e), Pointee(f)) \/ (Pointee(f).k = "void" /\ Pointee(e).k # "fn"))
    [] op = "cond" -> IF Ar(e) THEN Ar(f) ELSE IF IsPtr(e) THEN IsPtr(f) /\ (Same(Pointee(e), Pointee(f)) \/ ("void" \in {Pointee(e).k, Pointee(f).k} /\ "restrict" \notin Quals(Pointee(e)) \cup Quals(Pointee(f)) /\ {"fn", "arr"} \cap {Pointee(e).k, Pointee(f).k} = {}))
                      ELSE e.t.k = f.t.k
    [] op = "comma" -> f.bf = 0
    [] op = "cast" -> f.bf = 0 /\ Conv(f).k \in Arith \cup {"ptr"} /\ (e.t.k \in Real => ~IsPtr(f)) /\ (IsPtr(e) => f.t.k \notin Real)
    [] OTHER -> FALSE
Member(k, n) == mem[k][(n % Len(mem[k])) + 1]
Field(s, m) == [t |-> Qual(m.t, s.q), lv |-> TRUE, bf |-> m.bf]
Result(op, e, f, n) ==
  CASE op = "addr" -> Rv(Ptr(e.t))
    [] op = "deref" -> Lv(Pointee(e))
    [] op = "idx" -> Lv(Pointee(e))
    [] op \in {"padd", "psub"} -> Rv(Conv(e))
    [] op = "dot" -> (LET m == Field(e.t, Member(e.t.k, n)) IN IF e.lv THEN m ELSE [m EXCEPT !.lv = FALSE, !.t = Unq(@)])
    [] op = "arrow" -> Field(Pointee(e), Member(Pointee(e).k, n))
    [] op = "call" -> Rv(Base(Pointee(e)))
    [] op \in {"pos", "neg", "not"} -> Rv(Basic(Prom(e)))
    [] op \in {"lnot", "land", "less", "peq"} -> Rv(Basic("int"))
    [] op \in {"mul", "add", "and", "mod"} -> Rv(Basic(Uac(Prom(e), Prom(f))))
    [] op = "shl" -> Rv(Basic(Prom(e)))
    [] op = "pdiff" -> Rv(Basic("long"))
    [] op = "sizeof" -> Rv(Basic("ulong"))
    [] op = "cond0" -> IF IsPtr(e) THEN Rv(Conv(e)) ELSE Rv(Basic(Uac(Prom(e), "int")))
    [] op = "cond" -> IF Ar(e) THEN Rv(Basic(Uac(Prom(e), Prom(f))))
                      ELSE IF IsPtr(e) THEN LET a == Pointee(e)
                                                b == Pointee(f)
                                                q == Quals(a) \cup Quals(b)
                                            IN IF Same(a, b) THEN Rv(Ptr(IF a.k = "fn" THEN Composite(a, b) ELSE Qual(Composite(a, b), q)))
                                               ELSE Rv(Ptr(Qual(Basic("void"), q)))
                      ELSE Rv(Unq(e.t))
    [] op = "comma" -> Rv(Conv(f))
    [] op \in {"assign", "asgop", "inc"} -> [t |-> Unq(e.t), lv |-> FALSE, bf |-> e.bf]
    [] op = "stmt" -> Rv(Conv(e))
    [] op \in {"par", "gen"} -> e
    [] op = "typeof" -> Lv(e.t)
    [] op = "cast" -> Rv(Conv(f))

\* ---- the machine
Here == phase = "decl" /\ pc <= Len(C.decls)
Same4 == UNCHANGED <<cid, phase, env, mem, pool, out>>
Start == Here /\ l = -1 /\ (LET p == IdAt(D.toks) IN l' = p - 1 /\ r' = p + 1) /\ mods' = <<>> /\ UNCHANGED pc /\ Same4
Right == Here /\ l >= 0 /\ Turn(D.toks, l, r) = "right" /\ mods' = Append(mods, D.toks[r]) /\ r' = r + 1 /\ UNCHANGED <<pc, l>> /\ Same4
Left == Here /\ l >= 0 /\ Turn(D.toks, l, r) = "left" /\ mods' = Append(mods, D.toks[l]) /\ l' = l - 1 /\ UNCHANGED <<pc, r>> /\ Same4
OutOf == Here /\ l >= 0 /\ Turn(D.toks, l, r) = "out" /\ l' = l - 1 /\ r' = r + 1 /\ UNCHANGED <<pc, mods>> /\ Same4
Finish == /\ Here /\ l >= 0 /\ Turn(D.toks, l, r) = "end"
          /\ LET t0 == Declared(env, D.spec, mods)
                 t == IF IsBad(t0) \/ (\E j \in 1..Len(mods) : mods[j].t = "[" /\ mods[j].q # <<>>) THEN Bad
                      ELSE IF D.use = "obj" /\ t0.k = "void" THEN Bad
                      ELSE IF D.use \in {"S", "T"} /\ (Incomplete(t0) \/ t0.k \in Undef \/ IsBad(Qual(t0, Qs(D.aq))) \/ (D.bf > 0 /\ t0.k \notin {"int", "uint"})) THEN Bad
                      ELSE t0
             IN /\ env' = Append(env, t)
                /\ mem' = IF D.use \in {"S", "T"} /\ ~IsBad(t) THEN [mem EXCEPT ![D.use] = Append(@, [t |-> Qual(t, Qs(D.aq)), bf |-> D.bf, i |-> pc, an |-> Qs(D.aq) # {}])] ELSE mem
                /\ pool' = IF D.use = "obj" /\ ~IsBad(t) THEN Append(pool, [e |-> Lv(t), op |-> "var", a |-> pc, b |-> 0, n |-> 0]) ELSE pool
          /\ pc' = pc + 1 /\ l' = -1 /\ r' = 0 /\ mods' = <<>> /\ UNCHANGED <<cid, phase, out>>
ToExpr == phase = "decl" /\ pc > Len(C.decls) /\ phase' = "expr" /\ pc' = 1
          /\ pool' = pool \o [i \in 1..Len(C.lits) |-> [e |-> (IF C.lits[i].k = "str" THEN Lv(Arr(Basic("char"), C.lits[i].n)) ELSE Rv(Basic(C.lits[i].k))), op |-> "lit", a |-> i, b |-> 0, n |-> 0]]
          /\ UNCHANGED <<cid, l, r, mods, env, mem, out>>
Op == C.ops[pc]
Cand1 == SelectSeq([i \in 1..Len(pool) |-> i], LAMBDA i : App1(Op.op, pool[i].e))
Cand2(i) == SelectSeq([j \in 1..Len(pool) |-> j], LAMBDA j : App2(Op.op, pool[i].e, pool[j].e))
\* later expressions are preferred: they are deeper
Pick(s, n) == s[Len(s) - (((n % 1000) * (n % 1000) * Len(s)) \div 1000000)]
Grow == /\ phase = "expr" /\ pc <= Len(C.ops) /\ pc' = pc + 1
        /\ IF Cand1 = <<>> THEN UNCHANGED pool
           ELSE LET i == Pick(Cand1, Op.a)
                    e == pool[i].e
                IN IF (Op.op = "dot" /\ Len(mem[e.t.k]) = 0) \/ (Op.op = "arrow" /\ Len(mem[Pointee(e).k]) = 0) THEN UNCHANGED pool
                   \* arrays of qualified anonymous structures: not judged when the structure is a value
                   ELSE IF Op.op = "dot" /\ ~e.lv /\ (LET m == Member(e.t.k, Op.n) IN m.an /\ m.t.k = "arr") THEN UNCHANGED pool
                   ELSE IF Op.op \notin Binary THEN pool' = Append(pool, [e |-> Result(Op.op, e, e, Op.n), op |-> Op.op, a |-> i, b |-> 0, n |-> IF Op.op = "dot" THEN Member(e.t.k, Op.n).i ELSE IF Op.op = "arrow" THEN Member(Pointee(e).k, Op.n).i ELSE Op.n])
                   ELSE IF Cand2(i) = <<>> THEN UNCHANGED pool
                   ELSE LET j == Pick(Cand2(i), Op.b)
                        IN pool' = Append(pool, [e |-> Result(Op.op, e, pool[j].e, Op.n), op |-> Op.op, a |-> i, b |-> j, n |-> Op.n])
        /\ UNCHANGED <<cid, phase, l, r, mods, env, mem, out>>
\* pairs of declared types: compatible, and compatible but for qualifiers
Pair(p) == LET t == env[p[1]]
               u == env[p[2]]
           IN IF IsBad(t) \/ IsBad(u) THEN <<>> ELSE <<Same(t, u), Compat(t, u), Quals(t) = Quals(u) \/ "arr" \notin {t.k, u.k}>>
Report == /\ phase = "expr" /\ pc > Len(C.ops) /\ phase' = "done"
          /\ PrintT(ToJson([cid |-> cid, env |-> env, pool |-> pool, like |-> [i \in 1..Len(pool) |-> {j \in 1..Len(env) : ~IsBad(env[j]) /\ Compat(pool[i].e.t, env[j])}], pairs |-> [i \in 1..Len(C.pairs) |-> Pair(C.pairs[i])]]))
          /\ UNCHANGED <<cid, pc, l, r, mods, env, mem, pool, out>>
Done == phase = "done" /\ UNCHANGED vars
Init == (\E i \in 1..Len(Cases) : cid = i) /\ phase = "decl" /\ pc = 1 /\ l = -1 /\ r = 0 /\ mods = <<>> /\ env = <<>> /\ mem = [S |-> <<>>, T |-> <<>>] /\ pool = <<>> /\ out = <<>>
Next == Start \/ Right \/ Left \/ OutOf \/ Finish \/ ToExpr \/ Grow \/ Report \/ Done
\* parentheses match while reading, and all of the declarator is read
Matched == Here /\ l >= 0 => (Turn(D.toks, l, r) = "out" => r <= Len(D.toks) /\ D.toks[l].t = "(" /\ D.toks[r].t = ")") /\ (Turn(D.toks, l, r) = "end" => r = Len(D.toks) + 1)
\* well-formed types only: no qualified arrays or functions, no arrays of functions, no functions returning arrays
RECURSIVE Ok(_)
Ok(t) == /\ (t.k \in {"arr", "fn"} => t.q = {}) /\ (t.k = "arr" => ~Incomplete(Base(t))) /\ (t.k = "fn" => Base(t).k \notin {"arr", "fn"})
         /\ (t.b # <<>> => Ok(Base(t))) /\ \A i \in 1..Len(t.ps) : Ok(t.ps[i]) /\ t.ps[i].k \notin {"arr", "fn"}
WellFormed == (env # <<>> => (LET t == env[Len(env)] IN IsBad(t) \/ Ok(t))) /\ (pool # <<>> => ~IsBad(pool[Len(pool)].e.t) /\ Ok(pool[Len(pool)].e.t))
\* rvalues are unqualified; compatibility is an equivalence where no information is missing
Unqualified == pool # <<>> => LET e == pool[Len(pool)].e IN e.lv \/ e.t.k = "arr" \/ e.t.k = "fn" \/ e.t.q = {} 
Reflexive == env # <<>> => (IsBad(env[Len(env)]) \/ Same(env[Len(env)], env[Len(env)]))
=============================================================================
