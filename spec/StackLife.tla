----------------------------- MODULE StackLife -----------------------------
(***************************************************************************)
(* Lifetimes of the objects of C functions.  A program is a tree of nodes   *)
(* (kind k, parent p, kids); a frame is one activation of the function,     *)
(* walking the tree.  Objects begin at declarations, compound literals,     *)
(* calls returning structures, alloca and variable-length arrays, and end   *)
(* when control leaves the construct they belong to.  Every observable      *)
(* point emits an event with the objects alive there, in the order they     *)
(* began, and the variable-length arrays the frame has on the stack.        *)
(*                                                                          *)
(*  fix lit  named object and compound literal: end with the block          *)
(*  vla      variable-length array: ends when its scope is left, also by    *)
(*           going back before its declaration                              *)
(*  cln      named object whose clean-up function is an event               *)
(*  tmp      object returned by a call: ends with the full expression (cx)  *)
(*  alc      alloca: ends with the frame, or with an older vla              *)
(*  sx       statement expression inside a larger expression                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
CONSTANT MaxTrace
VARIABLES cid, st, trace, dp, ai, phase
vars == <<cid, st, trace, dp, ai, phase>>
C == Cases[cid]
N == C.nodes
K(n) == N[n].k
P(n) == N[n].p
Kid(n, j) == N[n].kids[j]
Nk(n) == Len(N[n].kids)
Idx(n) == N[n].ix                    \* position among the parent's kids
AllNodes == 1..Len(N)

---- \* static scoping
Dynamic == {"vla", "cln"}
Own(n, j) == CASE K(n) \in {"blk", "sx"} -> {Kid(n, i) : i \in {i \in 1..j-1 : K(Kid(n, i)) \in Dynamic}}
               [] K(n) = "for" /\ N[n].o = "vla" -> {n}
               [] OTHER -> {}
RECURSIVE InScope(_)                 \* dynamic objects in scope just before n
InScope(n) == IF P(n) = 0 THEN {} ELSE Own(P(n), Idx(n)) \cup InScope(P(n))
RECURSIVE Inside(_, _)
Inside(n, s) == n = s \/ (P(n) # 0 /\ Inside(P(n), s))
\* the construct an object belongs to
Home(n) == CASE K(n) \in {"if", "for"} -> n [] K(n) = "alc" -> 1 [] OTHER -> P(n)
\* does an object of construct s survive at the destination <<n, ph>>?
Stays(s, n, ph) == n # 0 /\ Inside(n, s) /\ ~(n = s /\ ph = "out")

---- \* execution
Top == st[Len(st)]
Below == SubSeq(st, 1, Len(st) - 1)
SetTop(f) == Append(Below, f)
Here == Top.n
Depth == Len(st)
Go(f, n, ph) == [f EXCEPT !.n = n, !.ph = ph, !.unw = FALSE]
Leave(f, n, ph, keep) == [f EXCEPT !.n = n, !.ph = ph, !.keep = keep, !.unw = TRUE]
IsDyn(n) == K(n) = "vla" \/ (K(n) = "for" /\ N[n].o = "vla")
Key(d, n, i) == d * 1000000 + i * 1000 + n
Drop(f, n) == SelectSeq(f.objs, LAMBDA o : o[1] # n)
Begin(f, n, i) == [f EXCEPT !.objs = Append(IF i = 0 THEN Drop(f, n) ELSE f.objs, <<n, i>>),
                            !.dyn = IF IsDyn(n) \/ K(n) = "cln" THEN Append(SelectSeq(@, LAMBDA x : x # n), n) ELSE @]
RECURSIVE Alive(_, _)
Alive(s, d) == IF d > Len(s) THEN <<>> ELSE [i \in 1..Len(s[d].objs) |-> Key(d, s[d].objs[i][1], s[d].objs[i][2])] \o Alive(s, d + 1)
Vlas(f) == SelectSeq(f.dyn, IsDyn)
\* an event in the state s
Ev(t, s) == trace' = Append(trace, [t |-> t, a |-> Alive(s, 1), v |-> Vlas(s[Len(s)])])
Quiet == UNCHANGED trace
Same == UNCHANGED <<cid, dp, ai, phase>>
Live == phase = "run" /\ Len(trace) < MaxTrace
Running == Live /\ ~Top.unw
In == Running /\ Top.ph = "in"
Cut == phase = "run" /\ Len(trace) >= MaxTrace /\ phase' = "done" /\ UNCHANGED <<cid, st, trace, dp, ai>>
HasTest(n) == K(n) \in {"if", "while", "do"} \/ (K(n) = "for" /\ N[n].cond)
Exhausted == /\ Running /\ dp > Len(C.d) /\ Here # 0
             /\ (Top.ph = "test" /\ HasTest(Here))
             /\ phase' = "done" /\ Ev(Here, st) /\ UNCHANGED <<cid, st, dp, ai>>

Plain ==
  /\ In /\ K(Here) \in {"lab"}
  /\ st' = SetTop(Go(Top, Here, "out")) /\ Quiet /\ Same
Point ==
  /\ In /\ K(Here) \in {"ev", "use"}
  /\ st' = SetTop(Go(Top, Here, "out")) /\ Ev(Here, st') /\ Same
Object ==
  /\ In /\ K(Here) \in {"fix", "lit", "vla", "cln", "tmp", "alc"}
  /\ st' = SetTop(Go(Begin(Top, Here, IF K(Here) = "alc" THEN ai ELSE 0), Here, "out"))
  /\ ai' = (IF K(Here) = "alc" THEN ai + 1 ELSE ai)
  /\ Ev(Here, st') /\ UNCHANGED <<cid, dp, phase>>
Enter ==
  /\ In /\ K(Here) \in {"blk", "sx", "cx", "do"}
  /\ st' = SetTop(IF Nk(Here) = 0 THEN Go(Top, Here, "out") ELSE Go(Top, Kid(Here, 1), "in")) /\ Quiet /\ Same
\* if, for and while: the object of the head begins, then the test
Header ==
  /\ In /\ K(Here) \in {"if", "for", "while"}
  /\ (IF N[Here].o = "" THEN st' = SetTop(Go(Top, Here, "test")) /\ Quiet
      ELSE st' = SetTop(Go(Begin(Top, Here, 0), Here, "test")) /\ Ev(2000 + Here, st'))
  /\ Same
Test ==
  /\ Running /\ Top.ph = "test"
  /\ IF ~HasTest(Here) THEN st' = SetTop(Go(Top, Kid(Here, 1), "in")) /\ Quiet /\ UNCHANGED dp
     ELSE /\ dp <= Len(C.d) /\ dp' = dp + 1 /\ Ev(Here, st)
          /\ st' = SetTop(IF C.d[dp] = 1 THEN Go(Top, Kid(Here, 1), "in")
                          ELSE IF K(Here) = "if" /\ Nk(Here) = 2 THEN Go(Top, Kid(Here, 2), "in")
                          ELSE Leave(Top, Here, "out", InScope(Here)))
  /\ UNCHANGED <<cid, ai, phase>>
Next1 == /\ Running /\ Top.ph = "cont" /\ st' = SetTop(Go(Top, Here, "test")) /\ Quiet /\ Same
Jump ==
  /\ In /\ K(Here) \in {"goto", "brk", "cont"}
  /\ LET t == N[Here].to IN
     st' = SetTop(IF K(Here) = "cont" THEN Leave(Top, t, "cont", InScope(Kid(t, 1))) ELSE Leave(Top, t, "out", InScope(t)))
  /\ Quiet /\ Same
Return ==
  /\ In /\ K(Here) = "ret" /\ Ev(Here, st) /\ st' = SetTop(Leave(Top, 0, "out", {})) /\ Same
Call ==
  /\ In /\ K(Here) = "rec"
  /\ IF Depth < 3
     THEN st' = Append(SetTop([Top EXCEPT !.ph = "back"]), [n |-> 1, ph |-> "in", keep |-> {}, unw |-> FALSE, objs |-> <<>>, dyn |-> <<>>]) /\ Ev(1, st')
     ELSE st' = SetTop([Top EXCEPT !.ph = "back"]) /\ Quiet
  /\ Same
Back ==
  /\ Running /\ Top.ph = "back" /\ Ev(Here, st) /\ st' = SetTop(Go(Top, Here, "out")) /\ Same
Out ==
  /\ Running /\ Top.ph = "out" /\ Here \notin {0, 1}
  /\ LET p == P(Here) j == Idx(Here) IN
     CASE K(p) \in {"blk", "sx", "cx"} ->
            IF j < Nk(p) THEN st' = SetTop(Go(Top, Kid(p, j + 1), "in")) /\ Quiet
            ELSE st' = SetTop(Leave(Top, p, IF K(p) = "sx" THEN "value" ELSE "out", InScope(p))) /\ Quiet
       [] K(p) = "if" -> st' = SetTop(Leave(Top, p, "out", InScope(p))) /\ Quiet
       [] OTHER -> st' = SetTop(Go(Top, p, "cont")) /\ Quiet
  /\ Same
\* the value of a statement expression has been used
Value == /\ Running /\ Top.ph = "value" /\ Ev(Here, st) /\ st' = SetTop(Go(Top, Here, "out")) /\ Same
\* leaving scopes: first the dynamic objects, newest first, then the others
PhOut(ph) == IF ph = "value" THEN "out" ELSE ph
RECURSIVE Last(_, _)
Last(q, n) == IF q[Len(q)][1] = n THEN Len(q) ELSE Last(SubSeq(q, 1, Len(q) - 1), n)
Unwind ==
  /\ Live /\ Top.unw
  /\ LET f == Top L == Len(f.dyn) IN
     IF L = 0 \/ f.dyn[L] \in f.keep
     THEN st' = SetTop(Go([f EXCEPT !.objs = SelectSeq(@, LAMBDA o : Stays(Home(o[1]), f.n, PhOut(f.ph)))], f.n, f.ph)) /\ Quiet
     ELSE LET a == f.dyn[L] g == [f EXCEPT !.dyn = SubSeq(@, 1, L - 1)] IN
          IF K(a) = "cln" THEN st' = SetTop(g) /\ Ev(1000 + a, st')
          ELSE LET pos == Last(f.objs, a) IN
               /\ st' = SetTop([g EXCEPT !.objs = SubSeq(@, 1, pos - 1) \o SelectSeq(SubSeq(@, pos + 1, Len(@)), LAMBDA o : K(o[1]) # "alc")])
               /\ Quiet
  /\ Same
Finish ==
  /\ Running /\ Top.ph = "out" /\ Here \in {0, 1}
  /\ IF Depth = 1 THEN phase' = "done" /\ UNCHANGED st ELSE st' = Below /\ UNCHANGED phase
  /\ UNCHANGED <<cid, trace, dp, ai>>
Report ==
  /\ phase = "done" /\ phase' = "end"
  /\ PrintT(ToJson([cid |-> cid, trace |-> trace]))
  /\ UNCHANGED <<cid, st, trace, dp, ai>>
\* every run ends: no other state is without a successor
Done == phase = "end" /\ UNCHANGED vars
F0 == [n |-> 1, ph |-> "in", keep |-> {}, unw |-> FALSE, objs |-> <<>>, dyn |-> <<>>]
Init == /\ \E i \in 1..Len(Cases) : cid = i
        /\ st = <<F0>> /\ trace = <<[t |-> 1, a |-> <<>>, v |-> <<>>]>> /\ dp = 1 /\ ai = 1 /\ phase = "run"
Next == Cut \/ Exhausted \/ Plain \/ Point \/ Object \/ Enter \/ Header \/ Test \/ Next1 \/ Jump \/ Return \/ Call \/ Back \/ Out \/ Value \/ Unwind \/ Finish \/ Report \/ Done

---- \* properties
Steady == phase = "run" /\ ~Top.unw /\ Here # 0
\* the dynamic objects on the stack are exactly those in scope, the arrays in the order of their declarations
DynInScope == Steady /\ Top.ph = "in" => {Top.dyn[i] : i \in 1..Len(Top.dyn)} \subseteq InScope(Here)
Once == \A d \in 1..Len(st) : Cardinality({st[d].objs[i] : i \in 1..Len(st[d].objs)}) = Len(st[d].objs)
\* every live object's construct is still active
HomeActive == Steady => \A i \in 1..Len(Top.objs) : Inside(Here, Home(Top.objs[i][1]))
DynAlive == Steady => \A i \in 1..Len(Top.dyn) : \E j \in 1..Len(Top.objs) : Top.objs[j][1] = Top.dyn[i]
=============================================================================
