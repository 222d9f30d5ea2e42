------------------------------ MODULE Linkage ------------------------------
(* Histories of declarations of functions and objects in translation units, and the symbols they must give.    *)
(* One step declares one thing (Declare); when all units are declared, Close decides what is reachable, which  *)
(* symbols each unit must, may and must not define and reference (Table), resolves them across the units the   *)
(* way the linker does, and computes the value of every function and the order of constructors and destructors.*)
(* Two sources of histories: TLC's own enumeration of every sequence of forms (Enum), and generated ones.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Enum, MaxLen

Cases == JsonDeserialize(IOEnv.CASES)
(* an item: id, fn (is a function), st/ex/inl (specifiers), gnu, def (body or initializer), wk, vis, sec, al   *)
(* (aliased id or 0), ct/dt (priority, -1 none, 0 without priority), tls, con, len (-1 scalar, 0 unknown),     *)
(* n (elements in the initializer), val, refs (sequence of [to, how]), lbl (an assembler label)                *)

VARIABLES cid, tu, pc, hist, tab, err, bad, done
vars == <<cid, tu, pc, hist, tab, err, bad, done>>

Blank == [cls |-> 0, link |-> "none", inl |-> FALSE, def |-> 0, gnu |-> FALSE, wk |-> FALSE, vis |-> "", sec |-> "",
          al |-> 0, ct |-> -1, dt |-> -1, tls |-> FALSE, con |-> FALSE, len |-> -1, val |-> 0, refs |-> {}, grefs |-> {}, lbl |-> FALSE, sz |-> 0, ptr |-> FALSE, seen |-> FALSE, blkd |-> FALSE, inld |-> FALSE]

C == Cases[cid]
NI == C.ids
IDs == 1..NI
Forms == C.forms
Units == C.units
NU == IF Enum THEN 1 ELSE Len(Units)

(* ------------------------------------------------ declarations ------------------------------------------- *)
FnLink(s, d) ==
  IF s.link = "none" THEN (IF d.st THEN "int" ELSE IF d.inl /\ ~d.ex THEN "inl" ELSE "ext")
  ELSE IF s.link = "inl" /\ (~d.inl \/ d.ex) THEN "ext" ELSE s.link
VarLink(s, d) == IF s.link = "none" THEN (IF d.st THEN "int" ELSE "ext") ELSE s.link

Max2(a, b) == IF a > b THEN a ELSE b
FirstUse(x, t) == \A y \in IDs : \A r \in t[y].refs \union t[y].grefs : r.to # x

(* what no rule of C settles, or what compilers refuse without C's asking for it *)
Undefined(s, d, t) ==
  \/ s.cls # 0 /\ (s.cls = 1) # d.fn
  \/ d.st /\ s.link \in {"ext", "inl"}
  \/ d.vis # "" /\ s.vis # "" /\ d.vis # s.vis
  \/ d.sec # "" /\ s.cls # 0 /\ s.sec # d.sec
  \/ d.sec # "" /\ d.al # 0
  \/ s.al # 0 /\ (d.def \/ d.al # 0 \/ (~d.fn /\ ~d.ex))
  \/ d.al # 0 /\ (s.def > 0 \/ s.gnu \/ d.def \/ (~d.fn /\ ~d.ex /\ ~d.st) \/ d.inl \/ s.inl \/ d.tls \/ s.lbl \/ d.al = d.id)
  \/ d.al # 0 /\ ~d.fn /\ d.st
  \/ d.ct >= 0 /\ s.ct >= 0 /\ d.ct # s.ct
  \/ d.dt >= 0 /\ s.dt >= 0 /\ d.dt # s.dt
  \/ d.lbl /\ (s.cls # 0)
  \/ d.gnu /\ (s.def > 0 \/ s.gnu \/ s.link \in {"int", "inl"})
  \/ s.gnu /\ (d.inl \/ d.gnu)
  \/ s.inl /\ (d.gnu \/ d.blk)
  \/ s.blkd /\ d.inl
  \/ d.blk /\ d.len > 0 /\ s.def = 1 /\ s.len = 0
  \/ ~d.fn /\ ~d.st /\ ~d.ex /\ s.link = "int"
  \/ ~d.fn /\ s.cls # 0 /\ (d.tls # s.tls \/ d.con # s.con)
  \/ ~d.fn /\ s.cls # 0 /\ ((d.len < 0) # (s.len < 0) \/ (d.len > 0 /\ s.len > 0 /\ d.len # s.len) \/ (d.def /\ d.len = 0 /\ s.len > 0 /\ s.len # d.n))
  \/ ~d.fn /\ d.st /\ d.len = 0 /\ ~d.def /\ s.len <= 0
  \/ ~d.fn /\ d.len = 0 /\ d.tls
  \/ (d.inl \/ d.wk) /\ s.cls # 0 /\ ~FirstUse(d.id, t) /\ ~s.inl /\ ~s.wk
  \/ \E i \in 1..Len(d.refs) : d.refs[i].blk = <<>> /\ ~t[d.refs[i].to].seen
  \/ \E i \in 1..Len(d.refs) : d.refs[i].how = "size" /\ t[d.refs[i].to].len = 0 /\ (d.refs[i].blk = <<>> \/ d.refs[i].blk[1].len = 0)
  \/ d.fn /\ d.def /\ d.gnu /\ d.ct >= 0

(* what a constraint forbids: a second definition *)
Refused(s, d) == d.def /\ s.def = 2

RefSet(d) == {[to |-> d.refs[i].to, how |-> d.refs[i].how, k |-> i] : i \in 1..Len(d.refs)}

Declare(s, d) ==
  LET s1 == [s EXCEPT !.cls = IF d.fn THEN 1 ELSE 2, !.wk = @ \/ d.wk, !.vis = IF d.vis # "" THEN d.vis ELSE @,
             !.sec = IF d.sec # "" THEN d.sec ELSE @, !.al = IF d.al # 0 THEN d.al ELSE @, !.ct = Max2(@, d.ct), !.dt = Max2(@, d.dt), !.lbl = @ \/ d.lbl, !.seen = @ \/ ~d.blk, !.ptr = d.ptr, !.blkd = @ \/ d.blk]
  IN IF d.fn
     THEN [s1 EXCEPT !.link = FnLink(s, d), !.inl = @ \/ d.inl, !.inld = @ \/ (d.inl /\ s.def = 0), !.gnu = @ \/ (d.def /\ d.gnu), !.def = IF d.def /\ ~d.gnu THEN 2 ELSE @,
             !.val = IF d.def /\ ~d.gnu THEN d.val ELSE @, !.refs = IF d.def /\ ~d.gnu THEN RefSet(d) ELSE @,
             !.grefs = IF d.def /\ d.gnu THEN RefSet(d) ELSE @]
     ELSE [s1 EXCEPT !.link = VarLink(s, d), !.tls = d.tls, !.con = d.con,
             !.def = IF d.def THEN 2 ELSE IF ~d.ex /\ d.al = 0 THEN Max2(@, 1) ELSE @,
             !.len = IF d.len > 0 THEN d.len ELSE IF d.def /\ d.len = 0 THEN d.n ELSE Max2(@, d.len),
             !.val = IF d.def THEN d.val ELSE @, !.refs = IF d.def THEN RefSet(d) ELSE @]

(* -------------------------------------------------- closing ---------------------------------------------- *)
Tab(u) == tab[u]
Targets(s) == {r.to : r \in s.refs} \union (IF s.al # 0 THEN {s.al} ELSE {})
StrongTargets(s) == {r.to : r \in {q \in s.refs : q.how \notin {"dead", "size"}}} \union (IF s.al # 0 THEN {s.al} ELSE {})

HasDef(s) == s.def > 0 \/ s.al # 0
RECURSIVE Closure(_, _, _)
Closure(t, set, strong) ==
  LET new == UNION {IF HasDef(t[x]) THEN (IF strong THEN StrongTargets(t[x]) ELSE Targets(t[x])) ELSE {} : x \in set} \ set
  IN IF new = {} THEN set ELSE Closure(t, set \union new, strong)

(* what is emitted whatever refers to it *)
Root(s) == HasDef(s) /\ (s.link = "ext" \/ (s.cls = 1 /\ s.def = 2 /\ (s.ct >= 0 \/ s.dt >= 0)))
(* what a compiler may emit though nothing refers to it *)
MayRoot(s) == HasDef(s) /\ (Root(s) \/ (s.link = "int" /\ ~s.inld))
Must(t) == Closure(t, {x \in IDs : Root(t[x])}, TRUE)
(* a GNU inline definition counts as one when it is expanded *)
GnuRefs(t) == UNION {{r.to : r \in t[x].grefs} : x \in IDs}
May(t) == Closure(t, {x \in IDs : MayRoot(t[x])} \union GnuRefs(t), FALSE)

ReqRefs(t) == UNION {IF HasDef(t[x]) THEN {r.to : r \in {q \in t[x].refs : q.how \notin {"dead", "size"}}} ELSE {} : x \in Must(t)}
OptRefs(t) == UNION {IF HasDef(t[x]) THEN {r.to : r \in t[x].refs} ELSE {} : x \in May(t)} \union GnuRefs(t)

Size(s) == IF s.ptr THEN 8 ELSE IF s.len < 0 THEN 4 ELSE 4 * Max2(s.len, 1)

(* "d": defined with external linkage, "l": defined locally, "u": referenced, "n": absent *)
States(t, x) ==
  LET s == t[x] IN
  CASE s.cls = 0 -> {"n"}
    [] s.link = "ext" /\ HasDef(s) -> {"d"}
    [] s.link = "int" -> IF x \in Must(t) THEN {"l"} ELSE IF x \in May(t) THEN {"l", "n"} ELSE {"n"}
    [] s.link = "inl" -> IF x \in OptRefs(t) THEN {"l", "u", "n"} ELSE {"n"}
    [] OTHER -> IF x \in ReqRefs(t) /\ ~s.con THEN {"u"} ELSE IF x \in OptRefs(t) \/ s.wk THEN {"u", "n"} ELSE {"n"}
Common(s) == C.common /\ s.cls = 2 /\ s.def = 1 /\ ~s.wk /\ s.sec = "" /\ ~s.tls

Improper(t) ==
  \E x \in IDs : LET s == t[x] IN
    \/ s.link = "inl" /\ s.def # 2
    \/ s.link = "int" /\ ~HasDef(s)
    \/ s.link \in {"int", "inl"} /\ (s.wk \/ s.vis # "")
    \/ (s.ct >= 0 \/ s.dt >= 0) /\ (s.def # 2 \/ s.link = "inl")
    \/ s.al # 0 /\ (t[s.al].def # 2 \/ t[s.al].link = "inl" \/ t[s.al].lbl \/ t[s.al].cls # s.cls \/ t[s.al].len # s.len \/ t[s.al].tls # s.tls \/ t[s.al].con # s.con \/ t[s.al].wk)
    \/ s.link = "int" /\ s.def = 1 /\ s.len = 0
    \/ s.def = 1 /\ s.len = 0 /\ (s.blkd \/ s.sec # "")
    \/ s.con /\ s.sec # ""
    \/ s.gnu /\ s.wk /\ s.def = 0
    \/ s.inl /\ s.wk
    \/ s.wk /\ s.cls = 2 /\ s.def = 1 /\ s.len = 0
    \/ \E y \in IDs : s.al # 0 /\ t[y].al = x
    \/ s.inl /\ s.sec # "" /\ s.gnu
    \/ \E r \in s.refs \union s.grefs : t[r.to].cls = 0
    \/ s.link = "ext" /\ s.def = 2 /\ s.cls = 1 /\ s.inl /\ (\E r \in s.refs : t[r.to].link = "int") /\ FALSE

Rec(t, x) ==
  LET s == t[x]
      st == States(t, x) IN
  [id |-> x, st |-> (IF "d" \in st THEN "d" ELSE "") \o (IF "l" \in st THEN "l" ELSE "") \o (IF "u" \in st THEN "u" ELSE "") \o (IF "n" \in st THEN "n" ELSE ""),
   fn |-> s.cls = 1, wk |-> s.wk, vis |-> s.vis, sec |-> s.sec, al |-> s.al, tls |-> s.tls, con |-> s.con, size |-> Size(s), com |-> Common(s), lbl |-> s.lbl,
   sz |-> s.sz, rel |-> s.refs # {}]
Used(t) == {x \in IDs : t[x].cls # 0}
Table(t) == [i \in 1..Cardinality(Used(t)) |-> LET x == CHOOSE y \in Used(t) : Cardinality({z \in Used(t) : z < y}) = i - 1 IN Rec(t, x)]

(* --------------------------------------------- across the units ------------------------------------------ *)
Defs(x) == {u \in 1..NU : Tab(u)[x].link = "ext" /\ HasDef(Tab(u)[x])}
Strong(x) == {u \in Defs(x) : ~Tab(u)[x].wk /\ ~Common(Tab(u)[x])}
Coms(x) == {u \in Defs(x) : Common(Tab(u)[x])}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
(* the unit whose definition of x a reference in unit u reaches; NU+1: the rest of the program, 0: nothing *)
Resolve(u, x) ==
  IF Tab(u)[x].link = "int" THEN u
  ELSE IF Strong(x) # {} THEN Least(Strong(x))
  ELSE IF Coms(x) # {} THEN Least(Coms(x))
  ELSE IF Defs(x) # {} THEN Least(Defs(x))
  ELSE IF \E v \in 1..NU : Tab(v)[x].cls # 0 /\ Tab(v)[x].link # "int" /\ ~Tab(v)[x].wk /\ x \in OptRefs(Tab(v)) THEN NU + 1 ELSE 0
RestVal(x) == 1000 + x

RECURSIVE Val(_, _, _)
Val(u, x, fuel) ==
  LET v == Resolve(u, x) IN
  IF v > NU THEN RestVal(x)
  ELSE IF v = 0 \/ fuel = 0 THEN 0
  ELSE LET s == Tab(v)[x] IN
       IF s.al # 0 THEN Val(v, s.al, fuel - 1)
       ELSE IF s.cls = 2 THEN s.val
       ELSE s.val + s.sz + LET RECURSIVE Sum(_)
                        Sum(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE q \in S : TRUE IN
                                    (CASE r.how = "call" -> Val(v, r.to, fuel - 1)
                                       [] r.how \in {"addr", "stat"} -> (IF Resolve(v, r.to) = 0 THEN 0 ELSE 1)
                                       [] OTHER -> 0) + Sum(S \ {r})
                    IN Sum(s.refs)

Clash == \E x \in IDs :
  \/ Cardinality(Strong(x)) > 1
  \/ Coms(x) # {} /\ (\E u \in 1..NU : Tab(u)[x].wk)
  \/ \E u \in 1..NU : Tab(u)[x].tls /\ Tab(u)[x].wk /\ Defs(x) = {}
  \/ Cardinality({Size(Tab(u)[x]) : u \in {w \in 1..NU : Tab(w)[x].cls = 2 /\ Tab(w)[x].link = "ext"}}) > 1
  \/ \E u, v \in 1..NU : Tab(u)[x].cls # 0 /\ Tab(v)[x].cls # 0 /\ (Tab(u)[x].cls # Tab(v)[x].cls \/ Tab(u)[x].lbl # Tab(v)[x].lbl \/ Tab(u)[x].tls # Tab(v)[x].tls \/ Tab(u)[x].con # Tab(v)[x].con)
  \/ \E u \in 1..NU : Tab(u)[x].link = "inl" /\ (Defs(x) = {} \/ \E w \in Defs(x) : Tab(w)[x].val # Tab(u)[x].val \/ Tab(w)[x].refs # {} \/ Tab(u)[x].refs # {})
  \/ \E u \in 1..NU : Tab(u)[x].gnu /\ Defs(x) # {} /\ FALSE
  \/ \E u \in 1..NU : Tab(u)[x].vis \in {"hidden", "internal"} /\ Defs(x) = {} /\ Tab(u)[x].cls # 0
(* a call or read of what is not there *)
Missing == \E u \in 1..NU : \E x \in May(Tab(u)) : \E r \in Tab(u)[x].refs : r.how = "call" /\ Resolve(u, r.to) = 0

Cts == {<<u, x>> \in (1..NU) \X IDs : Tab(u)[x].ct >= 0 /\ Tab(u)[x].def = 2}
Dts == {<<u, x>> \in (1..NU) \X IDs : Tab(u)[x].dt >= 0 /\ Tab(u)[x].def = 2}
Pri(p) == IF p = 0 THEN 65535 ELSE p
SamePri == \/ \E a, b \in Cts : a # b /\ Pri(Tab(a[1])[a[2]].ct) = Pri(Tab(b[1])[b[2]].ct)
           \/ \E a, b \in Dts : a # b /\ Pri(Tab(a[1])[a[2]].dt) = Pri(Tab(b[1])[b[2]].dt)
           (* a weak definition that loses runs its unit's entry for the winner *)
           \/ \E a \in Cts \union Dts : Tab(a[1])[a[2]].wk
CtSeq == [i \in 1..Cardinality(Cts) |-> CHOOSE a \in Cts : Cardinality({b \in Cts : Pri(Tab(b[1])[b[2]].ct) < Pri(Tab(a[1])[a[2]].ct)}) = i - 1]
DtSeq == [i \in 1..Cardinality(Dts) |-> CHOOSE a \in Dts : Cardinality({b \in Dts : Pri(Tab(b[1])[b[2]].dt) > Pri(Tab(a[1])[a[2]].dt)}) = i - 1]

Rest == {x \in IDs : \E u \in 1..NU : Tab(u)[x].cls # 0 /\ Tab(u)[x].link # "int" /\ Resolve(u, x) = NU + 1}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == Least(S) IN <<m>> \o SetSeq(S \ {m})

Vals == LET E == {x \in IDs : Defs(x) # {} /\ Tab(Least(Defs(x)))[x].cls = 1}
            q == SetSeq(E) IN [i \in 1..Len(q) |-> <<q[i], Val(Least(Defs(q[i])), q[i], 40)>>]

(* -------------------------------------------------- the machine ------------------------------------------ *)
Init == /\ cid \in 1..Len(Cases)
        /\ tu = 1 /\ pc = 1 /\ hist = <<>>
        /\ tab = [u \in 1..NU |-> [x \in IDs |-> Blank]]
        /\ err = FALSE /\ bad = FALSE /\ done = FALSE

(* the declarations inside d's body come first *)
RECURSIVE Inner(_, _, _)
Inner(t, d, i) ==
  IF i > Len(d.refs) THEN [t |-> t, bad |-> FALSE]
  ELSE IF d.refs[i].blk = <<>> THEN Inner(t, d, i + 1)
  ELSE LET e == d.refs[i].blk[1]
           s == t[e.id]
           r == Inner([t EXCEPT ![e.id] = [Declare(s, e) EXCEPT !.len = IF s.cls # 0 THEN s.len ELSE IF @ > 0 THEN 0 ELSE @]], d, i + 1)
       IN [r EXCEPT !.bad = @ \/ Undefined(s, e, t) \/ (d.refs[i].hide /\ s.link = "int" /\ ~e.fn)]
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Put(d) ==
  LET r == Inner(Tab(tu), d, 1)
      t == r.t
      s == t[d.id]
      SzOf(f) == IF f.how # "size" THEN 0 ELSE IF f.blk # <<>> /\ f.blk[1].len > 0 THEN 4 * f.blk[1].len ELSE Size(t[f.to])
      szs == SumTo(LAMBDA i : SzOf(d.refs[i]), Len(d.refs))
  IN /\ bad' = (bad \/ r.bad \/ Undefined(s, d, t))
     /\ err' = (err \/ Refused(s, d))
     /\ tab' = [tab EXCEPT ![tu] = [t EXCEPT ![d.id] = [Declare(s, d) EXCEPT !.sz = IF d.def /\ d.fn THEN szs ELSE @]]]

(* every sequence of forms *)
Grow == /\ Enum /\ Len(hist) < MaxLen /\ ~err /\ ~bad
        /\ \E f \in 1..Len(Forms) :
             LET d == [Forms[f] EXCEPT !.id = IF @ = 0 THEN Len(hist) + 2 ELSE @] IN
             /\ hist' = Append(hist, f)
             /\ Put(d)
             /\ ~bad'
        /\ IF Improper(tab'[1]) /\ ~err' THEN TRUE ELSE PrintT(ToJson([h |-> hist', err |-> err', t |-> IF err' THEN <<>> ELSE Table(tab'[1])]))
        /\ UNCHANGED <<cid, tu, pc, done>>

(* generated histories *)
Item == /\ ~Enum /\ ~done /\ tu <= NU /\ pc <= Len(Units[tu]) /\ ~bad
        /\ Put(Units[tu][pc])
        /\ pc' = pc + 1
        /\ UNCHANGED <<cid, tu, hist, done>>
NextUnit == /\ ~Enum /\ ~done /\ tu <= NU /\ pc > Len(Units[tu]) /\ ~bad
            /\ tu' = tu + 1 /\ pc' = 1
            /\ UNCHANGED <<cid, hist, tab, err, bad, done>>
Close == /\ ~Enum /\ ~done /\ tu > NU /\ ~bad
         /\ done' = TRUE
         /\ LET no == err \/ (\E u \in 1..NU : Improper(Tab(u))) \/ Clash \/ Missing \/ SamePri IN
            IF no THEN TRUE ELSE PrintT(ToJson([cid |-> cid, units |-> [u \in 1..NU |-> Table(Tab(u))], vals |-> Vals, ct |-> CtSeq, dt |-> DtSeq, rest |-> SetSeq(Rest)]))
         /\ UNCHANGED <<cid, tu, pc, hist, tab, err, bad>>
Next == Grow \/ Item \/ NextUnit \/ Close

(* ------------------------------------------------- properties -------------------------------------------- *)
(* linkage never goes back, and never changes between internal and external *)
LinkOK == \A u \in 1..NU : \A x \in IDs : LET s == Tab(u)[x] IN s.cls = 0 <=> s.link = "none"
LinkStable == [][\A u \in 1..NU : \A x \in IDs : LET a == tab[u][x].link
                                                     b == tab'[u][x].link IN a = b \/ a = "none" \/ (a = "inl" /\ b = "ext")]_vars
(* everything that must be there may be there *)
Nested == ~(Enum \/ done) \/ bad \/ err \/ \A u \in 1..NU : Must(Tab(u)) \subseteq May(Tab(u)) /\ ReqRefs(Tab(u)) \subseteq OptRefs(Tab(u))
=============================================================================
