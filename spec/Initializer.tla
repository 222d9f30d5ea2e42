----------------------------- MODULE Initializer -----------------------------
(***************************************************************************)
(* Initialization (C 6.7.11).  A type is a table of nodes; an object's       *)
(* subobjects are the paths through it.  The machine produces one token of    *)
(* an initializer at a time, keeping the current object (a stack of frames)   *)
(* and which token each subobject was last given.  Its choices are free       *)
(* (Choices); a case fixes them by preference lists, so every behaviour is a  *)
(* valid initializer (or one ending in a designator that must be rejected).   *)
(*   set: [p |-> path, v |-> token, c |-> element of a string or 0]; v = 0 is *)
(*   the implicit zero.  act: the member a union holds.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, st, set, act, ext, out, w, phase
vars == <<cid, st, set, act, ext, out, w, phase>>
C == Cases[cid]
T(x) == C.nodes[x]
Root == C.root
W == C.script[w]

Agg(x) == T(x).k \in {"arr", "struct", "union"}
Kids(x) == Len(T(x).m)
Child(x, i) == IF T(x).k = "arr" THEN T(x).e ELSE T(x).m[i + 1].t
Full(f) == CASE T(f.x).k = "arr" -> T(f.x).n >= 0 /\ f.i >= T(f.x).n
             [] T(f.x).k = "struct" -> f.i >= Kids(f.x)
             [] T(f.x).k = "union" -> f.i > 0
Top == st[Len(st)]
Pfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
CharArr(x) == T(x).k = "arr" /\ T(x).str # ""

\* the subobject at the top frame's position is complete
Up(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)].i = @ + 1]
RECURSIVE Norm(_)
\* leave every full frame that has no brace of its own
Norm(s) == IF s # <<>> /\ ~s[Len(s)].br /\ Full(s[Len(s)]) THEN Norm(Up(SubSeq(s, 1, Len(s) - 1))) ELSE s
Adv(s) == Norm(Up(s))

\* node at a path
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(Child(x, Head(p)), Tail(p))

\* the object: what the paths hold
Clear(S, p) == {r \in S : ~Pfx(p, r.p)}
Unions(p) == {i \in 0..(Len(p) - 1) : T(At(Root, SubSeq(p, 1, i))).k = "union"}
\* entries of other members of the unions on the way to p go
Dropped(p, r) == \E i \in Unions(p) : Len(r.p) > i /\ Pfx(SubSeq(p, 1, i), r.p) /\ r.p[i + 1] # p[i + 1]
Give(o, p, ents) ==
  LET o1 == [s |-> {r \in Clear(o.s, p) : ~Dropped(p, r)} \cup ents,
             a |-> {r \in o.a : ~Pfx(p, r.p) /\ ~Dropped(p, r)}] IN
  [s |-> o1.s,
   a |-> {r \in o1.a : ~\E i \in Unions(p) : r.p = SubSeq(p, 1, i)} \cup {[p |-> SubSeq(p, 1, i), j |-> p[i + 1]] : i \in Unions(p)},
   \* coming back to a member of a union given up before, or into a union copied whole
   \* or giving a flexible array member a second time
   bad |-> o.bad \/ (C.unkp # <<>> /\ p = C.unkp /\ T(C.unk).n < 0 /\ \E r \in o.s : Pfx(p, r.p)) \/ \E i \in Unions(p) : (\E r \in o.g : r.p = SubSeq(p, 1, i) /\ r.j = p[i + 1]) \/ (\E r \in o.s : r.v > 0 /\ r.c = -1 /\ Pfx(r.p, SubSeq(p, 1, i))),
   \* explicit values below p given up for a whole new value
   z |-> o.z \cup {r.p : r \in {r \in o.s : r.v > 0 /\ ((Pfx(p, r.p) /\ (r.p # p \/ r.c = -1)) \/ Dropped(p, r))}},
   g |-> o.g \cup {r \in o.a : \E i \in Unions(p) : r.p = SubSeq(p, 1, i) /\ r.j # p[i + 1]}]
Obj == [s |-> set.s, a |-> act, g |-> set.g, z |-> set.z, bad |-> set.bad]
\* copy what was given to element b of a range to the others: rg = [p (array), a, b, q (rest)]
RECURSIVE Copy(_, _, _)
Copy(o, rg, i) ==
  IF i >= rg.b THEN o
  ELSE LET from == rg.p \o <<rg.b>> \o rg.q
           to == rg.p \o <<i>> \o rg.q
           mv(q) == to \o SubSeq(q, Len(from) + 1, Len(q))
           o2 == Give(o, to, {[r EXCEPT !.p = mv(r.p)] : r \in {r \in o.s : Pfx(from, r.p)}}) IN
       Copy([o2 EXCEPT !.a = @ \cup {[r EXCEPT !.p = mv(r.p)] : r \in {r \in o.a : Pfx(from, r.p)}}, !.z = @ \cup {mv(q) : q \in {q \in o.z : Pfx(from, q)}}], rg, i + 1)
NoRange == [p |-> <<>>, a |-> 0, b |-> -1, q |-> <<>>]
Spread(o, rg) == IF rg.b < 0 THEN o ELSE Copy(o, rg, rg.a)
\* the length an array of unknown size gets: the largest index seen
SeePath(p) == IF T(C.unk).n < 0 /\ Len(p) > Len(C.unkp) /\ Pfx(C.unkp, p) THEN (IF p[Len(C.unkp) + 1] + 1 > ext THEN p[Len(C.unkp) + 1] + 1 ELSE ext) ELSE ext

\* first subobject of a node on the way down to a leaf, a string or a struct
RECURSIVE Down(_, _, _)
Down(x, p, what) ==
  CASE what = "val" /\ ~Agg(x) -> [ok |-> TRUE, p |-> p]
    [] what = "str" /\ CharArr(x) -> [ok |-> TRUE, p |-> p]
    [] what = "agg" /\ T(x).k \in {"struct", "union"} -> [ok |-> T(x).tag /\ ~T(x).fam, p |-> p]
    [] Agg(x) /\ ~(T(x).k = "arr" /\ T(x).n < 0) -> Down(Child(x, 0), p \o <<0>>, what)
    [] OTHER -> [ok |-> FALSE, p |-> p]
\* frames for the nodes strictly between base (exclusive) and the end of q below it
RECURSIVE Frames(_, _, _)
Frames(x, p, q) == IF Len(q) <= 1 THEN <<[x |-> x, p |-> p, i |-> q[1], br |-> FALSE, rg |-> NoRange, noc |-> FALSE]>>
                   ELSE <<[x |-> x, p |-> p, i |-> q[1], br |-> FALSE, rg |-> NoRange, noc |-> FALSE]>> \o Frames(Child(x, q[1]), p \o <<q[1]>>, Tail(q))

RECURSIVE Brace(_)
Brace(s) == IF s[Len(s)].br THEN s ELSE Brace(SubSeq(s, 1, Len(s) - 1))

(* one initializer for the subobject x at path p; s: the frames above it, the top frame positioned at it *)
StrLen(x) == LET n == T(x).n IN IF n < 0 THEN W.l + 1 ELSE IF W.l + 1 > n THEN n ELSE W.l + 1
\* descending in elided braces below a range designator is left out
Fits(x, p, s, kind, rg) ==
  CASE kind = "open" -> Agg(x)
    [] kind = "bval" -> ~Agg(x)
    [] kind = "bstr" -> CharArr(x)
    [] kind \in {"val", "str", "agg"} -> (IF kind = "agg" THEN C.agg ELSE TRUE) /\ Down(x, p, kind).ok /\ (rg.b >= 0 => Down(x, p, kind).p = p)
Put(o, x, p, kind, v) ==
  IF kind \in {"str", "bstr"}
  THEN Give(o, p, {[p |-> p, v |-> 0, c |-> 0]} \cup {[p |-> p \o <<i>>, v |-> v, c |-> i] : i \in 0..(StrLen(x) - 1)})
  ELSE Give(o, p, {[p |-> p, v |-> v, c |-> IF kind = "agg" THEN -1 ELSE 0]})
Item(o, s, x, p, kind, rg, tk) ==
  LET v == Len(out) + 1 IN
  /\ Fits(x, p, s, kind, rg)
  /\ IF kind = "open"
     THEN /\ st' = Append(s, [x |-> x, p |-> p, i |-> 0, br |-> TRUE, rg |-> rg, noc |-> FALSE])
          /\ LET o2 == Give(o, p, {[p |-> p, v |-> 0, c |-> 0]}) IN set' = [s |-> o2.s, g |-> o2.g, z |-> o2.z, bad |-> o2.bad] /\ act' = o2.a
          /\ ext' = SeePath(p)
          /\ out' = Append(out, [tk EXCEPT !.p = p])
     ELSE LET d == IF kind \in {"val", "str", "agg"} THEN Down(x, p, kind) ELSE [ok |-> TRUE, p |-> p]
              q == SubSeq(d.p, Len(p) + 1, Len(d.p))
              y == At(Root, d.p)
              o2 == Spread(Put(o, y, d.p, kind, v), rg)
              s2 == IF q = <<>> THEN s ELSE s \o Frames(x, p, q) IN
          /\ st' = (IF rg.b >= 0 /\ rg.q # <<>> THEN [Brace(s) EXCEPT ![Len(Brace(s))].noc = TRUE] ELSE Adv(s2))
          /\ set' = [s |-> o2.s, g |-> o2.g, z |-> o2.z, bad |-> o2.bad] /\ act' = o2.a
          /\ ext' = (IF y = C.unk /\ kind \in {"str", "bstr"} /\ T(y).n < 0 THEN (IF StrLen(y) > ext THEN StrLen(y) ELSE ext) ELSE SeePath(d.p))
          /\ out' = Append(out, [tk EXCEPT !.p = d.p])

Tok(kind) == [k |-> kind, d |-> <<>>, p |-> <<>>, l |-> W.l, rg |-> NoRange, rp |-> <<>>]
Ini == {"val", "str", "agg", "open", "bval", "bstr"}

\* a positional initializer
Here == Child(Top.x, Top.i)
Pos(kind) == /\ ~Full(Top) /\ ~Top.noc
             /\ (T(Top.x).k = "arr" /\ T(Top.x).n < 0 => Top.i < 9)
             /\ Item(Obj, st, Here, Top.p \o <<Top.i>>, kind, NoRange, Tok(kind))

\* a designator list: indices a (reduced to the range of each level), at most d of them
Range(x) == IF T(x).k = "arr" THEN (IF T(x).n < 0 THEN 9 ELSE T(x).n) ELSE Kids(x)
RECURSIVE Desig(_, _, _)
Desig(x, a, d) == IF d = 0 \/ a = <<>> \/ ~Agg(x) \/ Range(x) = 0 THEN <<>>
                  ELSE LET i == Head(a) % Range(x) IN <<i>> \o Desig(Child(x, i), Tail(a), IF T(x).k # "arr" /\ T(x).m[i + 1].anon THEN d ELSE d - 1)
RECURSIVE Anon(_, _)
Anon(x, p) == \* a path may not stop at a member without a name
  p # <<>> /\ (IF Len(p) = 1 THEN T(x).k # "arr" /\ T(x).m[p[1] + 1].anon ELSE Anon(Child(x, p[1]), Tail(p)))
Des(kind) ==
  LET s == Brace(st)
      f == s[Len(s)]
      q == Desig(f.x, W.a, W.d)
      \* the designator that becomes a range: the first array one, if wanted
      R == {i \in 1..Len(q) : T(At(f.x, SubSeq(q, 1, i - 1))).k = "arr"}
      ri == IF W.rg > 0 /\ R # {} THEN CHOOSE i \in R : \A j \in R : i <= j ELSE 0
      hi == Range(At(f.x, SubSeq(q, 1, ri - 1)))
      b == IF q[ri] + W.rg < hi THEN q[ri] + W.rg ELSE hi - 1
      full == f.p \o q
      q2 == [q EXCEPT ![ri] = b]
      rg == IF ri = 0 THEN NoRange ELSE [p |-> f.p \o SubSeq(q, 1, ri - 1), a |-> q[ri], b |-> b, q |-> SubSeq(q, ri + 1, Len(q))]
      qq == IF ri = 0 THEN q ELSE q2
      fr == Frames(f.x, f.p, qq)
      s2 == [s EXCEPT ![Len(s)].i = qq[1], ![Len(s)].noc = FALSE] \o SubSeq(fr, 2, Len(fr)) IN
  /\ q # <<>> /\ ~Anon(f.x, q)
  /\ \A i \in 1..(Len(q) - 1) : T(At(f.x, SubSeq(q, 1, i))).n >= 0      \* not into a flexible array member
  /\ Item(Obj, s2, At(f.x, qq), f.p \o qq, kind, rg, [Tok(kind) EXCEPT !.d = q, !.rg = rg, !.rp = f.p])

\* the innermost brace closes; its object is complete
Close == LET s == Brace(st) f == s[Len(s)] o == Spread(Obj, f.rg) s2 == SubSeq(s, 1, Len(s) - 1) IN
  /\ st' = (IF f.rg.b >= 0 /\ f.rg.q # <<>> /\ s2 # <<>> THEN [Brace(s2) EXCEPT ![Len(Brace(s2))].noc = TRUE] ELSE Adv(s2))
  /\ set' = [s |-> o.s, g |-> o.g, z |-> o.z, bad |-> o.bad] /\ act' = o.a /\ UNCHANGED ext
  /\ out' = Append(out, Tok("close"))

\* designators that must be rejected
BadIdx == LET f == Brace(st)[Len(Brace(st))] IN T(f.x).k = "arr" /\ T(f.x).n >= 0 /\ out' = Append(out, Tok("badidx"))
BadMem == LET f == Brace(st)[Len(Brace(st))] IN T(f.x).k # "arr" /\ out' = Append(out, Tok("badmem"))
BadKind == LET f == Brace(st)[Len(Brace(st))] IN out' = Append(out, Tok("badkind"))

Choices == {"val", "str", "agg", "open", "bval", "bstr", "dval", "dstr", "dagg", "dopen", "dbval", "dbstr", "close", "bad"}
Step(k) ==
  CASE k \in Ini -> Pos(k)
    [] k \in {"dval", "dstr", "dagg", "dopen", "dbval", "dbstr"} -> Des(SubSeq(k, 2, Len(k)))
    [] k = "close" -> Close
    [] k = "bad" -> (BadIdx \/ BadMem) /\ UNCHANGED <<st, set, act, ext>>
Init == /\ cid \in 1..Len(Cases)
        /\ st = <<>> /\ set = [s |-> {}, g |-> {}, z |-> {}, bad |-> FALSE] /\ act = {} /\ ext = 0 /\ out = <<>> /\ w = 1 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "run" /\ w' = w + 1
         /\ Item(Obj, <<>>, Root, <<>>, C.first, NoRange, Tok(C.first))
Move == /\ phase = "run" /\ st # <<>>
        /\ IF w > Len(C.script) - 1 THEN Close /\ UNCHANGED w /\ UNCHANGED phase
           ELSE LET i == CHOOSE i \in 1..Len(W.c) : ENABLED Step(W.c[i]) /\ \A j \in 1..(i - 1) : ~ENABLED Step(W.c[j]) IN
                /\ Step(W.c[i]) /\ w' = w + 1 /\ phase' = (IF W.c[i] = "bad" THEN "bad" ELSE phase)
        /\ UNCHANGED cid

\* what each scalar holds at the end
RECURSIVE Leaves(_, _)
Leaves(x, p) ==
  CASE ~Agg(x) -> {p}
    [] T(x).k = "arr" -> UNION {Leaves(T(x).e, p \o <<i>>) : i \in 0..((IF T(x).n < 0 THEN ext ELSE T(x).n) - 1)}
    [] T(x).k = "struct" -> UNION {Leaves(Child(x, i), p \o <<i>>) : i \in 0..(Kids(x) - 1)}
    [] T(x).k = "union" -> LET a == {r \in act : r.p = p} i == IF a = {} THEN 0 ELSE (CHOOSE r \in a : TRUE).j IN Leaves(Child(x, i), p \o <<i>>)
Holder(p) == LET S == {r \in set.s : Pfx(r.p, p)} IN IF S = {} THEN [p |-> <<>>, v |-> 0, c |-> 0] ELSE CHOOSE r \in S : \A q \in S : Len(q.p) <= Len(r.p)
\* one entry per path, and nothing below an entry for a whole scalar
Unique == \A r, q \in set.s : r.p = q.p => r = q
Report == /\ phase \in {"run", "bad"} /\ (st = <<>> \/ phase = "bad") /\ phase' = "end"
          /\ PrintT(ToJson([cid |-> cid, out |-> out, bad |-> phase = "bad", murky |-> set.bad, ext |-> ext,
                            leaves |-> IF phase = "bad" THEN {} ELSE {[p |-> p, h |-> Holder(p), old |-> \E q \in set.z : Pfx(q, p) \/ \E i \in Unions(p) : Pfx(SubSeq(p, 1, i), q)] : p \in Leaves(Root, <<>>)}]))
          /\ UNCHANGED <<cid, st, set, act, ext, out, w>>
Next == (Start /\ UNCHANGED cid) \/ Move \/ Report
=============================================================================
