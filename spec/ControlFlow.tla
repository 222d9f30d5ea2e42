---------------------------- MODULE ControlFlow ----------------------------
(***************************************************************************)
(* Statements of a C function with deferred actions.  A program is a tree   *)
(* of nodes (arrays k, parent, kids).  The machine walks the tree; a frame   *)
(* is one activation: the function body or a deferred statement being run.  *)
(* pend holds the actions (defer statements, cleanups, VLAs) reached and    *)
(* still pending; leaving scopes pops and runs those not in scope at the    *)
(* destination.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, st, trace, dp, ret, phase
vars == <<cid, st, trace, dp, ret, phase>>
C == Cases[cid]
N == C.nodes
K(n) == N[n].k
P(n) == N[n].p                       \* parent, 0 for a root
Kid(n, j) == N[n].kids[j]
Nk(n) == Len(N[n].kids)
Idx(n) == CHOOSE j \in 1..Nk(P(n)) : Kid(P(n), j) = n

---- \* static scoping
\* actions in scope inside child j of n that n itself contributes
Own(n, j) == CASE K(n) \in {"blk", "sx"} -> {Kid(n, i) : i \in {i \in 1..j-1 : K(Kid(n, i)) \in {"def", "cln", "vla"}}}
               [] K(n) \in {"if", "for", "while", "sw"} /\ (N[n].cd > 0 \/ N[n].ini > 0) -> {n}
               [] OTHER -> {}
RECURSIVE InScope(_)
InScope(n) == IF P(n) = 0 \/ K(P(n)) = "def" THEN {} ELSE Own(P(n), Idx(n)) \cup InScope(P(n))
Keep(n) == InScope(n) \cup {-a : a \in InScope(n)}
RECURSIVE Root(_)                    \* the body (of the function or of a defer) that n belongs to
Root(n) == IF P(n) = 0 THEN n ELSE IF K(P(n)) = "def" THEN n ELSE Root(P(n))
RECURSIVE Inside(_, _)               \* n is s or below s
Inside(n, s) == n = s \/ (P(n) # 0 /\ Inside(P(n), s))
RECURSIVE SxOf(_)                    \* statement expressions around n
SxOf(n) == IF P(n) = 0 THEN {} ELSE (IF K(P(n)) = "sx" THEN {P(n)} ELSE {}) \cup SxOf(P(n))
AllNodes == 1..Len(N)
Sticky(S) == {a \in S : K(a) \in {"def", "vla"}}
\* jumps: <<source, destination label>>
Computed == UNION {{<<n, N[n].tos[i]>> : i \in 1..Len(N[n].tos)} : n \in {n \in AllNodes : K(n) = "cgo"}}
Jumps == {<<n, N[n].to>> : n \in {n \in AllNodes : K(n) = "goto"}} \cup {<<Kid(N[n].sw, 1), n>> : n \in {n \in AllNodes : K(n) = "lab" /\ N[n].sw # 0}}
Exits == {n \in AllNodes : K(n) \in {"brk", "cont"}}
Rets == {n \in AllNodes : K(n) = "ret"}
\* the verdict on a program: "bad" must be rejected, "ok" must be accepted, "any" is not judged
Verdict ==
  IF \/ \E j \in Jumps : Root(j[1]) # Root(j[2]) \/ ~(Sticky(InScope(j[2])) \subseteq InScope(j[1]))
     \/ \E n \in Exits : Root(n) # Root(N[n].to) \/ (K(n) = "cont" /\ K(N[n].to) = "sw")
     \/ \E n \in Rets : P(Root(n)) # 0
  THEN "bad"
  ELSE IF \E j \in Computed : Root(j[1]) # Root(j[2]) \/ InScope(j[1]) # InScope(j[2]) \/ SxOf(j[1]) # SxOf(j[2]) THEN "any"
  ELSE IF \E j \in Jumps : ~(InScope(j[2]) \subseteq InScope(j[1])) \/ ~(SxOf(j[2]) \subseteq SxOf(j[1])) THEN "any"
  ELSE "ok"

---- \* execution
Top == st[Len(st)]
Below == SubSeq(st, 1, Len(st) - 1)
SetTop(f) == Append(Below, f)
Here == Top.n
\* a position: node and "in" (about to run it) or "out" (it has completed), or a named point inside a loop
Go(f, n, ph) == [f EXCEPT !.n = n, !.ph = ph, !.keep = {}, !.unw = FALSE]
\* leave for <<n, ph>>, keeping the pending actions in keep
Leave(f, n, ph, keep) == [f EXCEPT !.n = n, !.ph = ph, !.keep = keep, !.unw = TRUE]
Push(f, a) == [f EXCEPT !.pend = Append(@, a)]
Ev(n) == trace' = Append(trace, n)
Quiet == UNCHANGED trace
Same == UNCHANGED <<cid, dp, ret, phase>>
MaxTrace == 120
Live == phase = "run" /\ Len(trace) < MaxTrace
Running == Live /\ ~Top.unw
Cut == phase = "run" /\ Len(trace) >= MaxTrace /\ phase' = "done" /\ UNCHANGED <<cid, st, trace, dp, ret>>
Decision == C.d[dp]
\* a decision is needed and none is left: the run ends
Exhausted == /\ Running /\ dp > Len(C.d)
             /\ \/ Top.ph = "in" /\ K(Here) \in {"if", "sw", "cgo"}
                \/ Top.ph = "test" /\ N[Here].cond > 0
             /\ phase' = "done" /\ Ev(N[Here].cond) /\ UNCHANGED <<cid, st, dp, ret>>

In == Running /\ Top.ph = "in"
Simple ==
  /\ In /\ K(Here) \in {"ev", "def", "cln", "vla", "lab", "null"}
  /\ (IF K(Here) \in {"ev", "cln"} /\ N[Here].n > 0 THEN Ev(N[Here].n) ELSE Quiet)
  /\ st' = SetTop(Go(IF K(Here) \in {"def", "cln", "vla"} THEN Push(Top, Here) ELSE Top, Here, "out")) /\ Same
Enter ==
  /\ In /\ K(Here) \in {"blk", "sx", "do"}
  /\ st' = SetTop(IF Nk(Here) = 0 THEN Go(Top, Here, "out") ELSE Go(Top, Kid(Here, 1), "in")) /\ Quiet /\ Same
\* conditions with a declaration register its clean-up (number cd)
WithDecl(f) == IF N[Here].cd > 0 THEN Push(f, Here) ELSE f
If == /\ In /\ K(Here) = "if" /\ dp <= Len(C.d) /\ dp' = dp + 1 /\ Ev(N[Here].cond)
      /\ st' = SetTop(IF Decision % 2 = 1 THEN Go(WithDecl(Top), Kid(Here, 1), "in")
                      ELSE IF Nk(Here) = 2 THEN Go(WithDecl(Top), Kid(Here, 2), "in")
                      ELSE Leave(WithDecl(Top), Here, "out", Keep(Here)))
      /\ UNCHANGED <<cid, ret, phase>>
Loop == /\ In /\ K(Here) \in {"for", "while"}
        /\ (IF N[Here].ini < 0 THEN Ev(-N[Here].ini) ELSE IF N[Here].ini > 0 THEN Ev(N[Here].ini) ELSE Quiet)
        /\ st' = SetTop(Go(IF N[Here].ini > 0 THEN Push(Top, -Here) ELSE Top, Here, "test")) /\ Same
\* a pending entry is a node, or -node for the declaration in a for's first clause
NodeOf(e) == IF e < 0 THEN -e ELSE e
Test == /\ Running /\ Top.ph = "test"
        /\ IF N[Here].cond = 0 THEN st' = SetTop(Go(Top, Kid(Here, 1), "in")) /\ Quiet /\ UNCHANGED dp
           ELSE /\ dp <= Len(C.d) /\ dp' = dp + 1 /\ Ev(N[Here].cond)
                /\ st' = SetTop(IF Decision % 2 = 1 THEN (IF K(Here) = "do" THEN Go(Top, Kid(Here, 1), "in") ELSE Go(WithDecl(Top), Kid(Here, 1), "in"))
                                ELSE Leave(IF K(Here) = "do" THEN Top ELSE WithDecl(Top), Here, "out", Keep(Here)))
        /\ UNCHANGED <<cid, ret, phase>>
Inc == /\ Running /\ Top.ph = "cont"
       /\ (IF K(Here) = "for" /\ N[Here].inc > 0 THEN Ev(N[Here].inc) ELSE Quiet)
       \* the iteration's declaration goes, the one of the first clause stays
       /\ st' = SetTop(IF N[Here].cd > 0 /\ K(Here) # "do" THEN Leave(Top, Here, "test", Keep(Here) \cup {-Here}) ELSE Go(Top, Here, "test")) /\ Same
Matches(l, v) == \E r \in 1..Len(N[l].cases) : N[l].cases[r][1] <= v /\ v <= N[l].cases[r][2]
Switch == /\ In /\ K(Here) = "sw" /\ dp <= Len(C.d) /\ dp' = dp + 1 /\ Ev(N[Here].cond)
          /\ LET labs == {l \in AllNodes : K(l) = "lab" /\ N[l].sw = Here}
                 m == {l \in labs : Matches(l, Decision)}
                 def == {l \in labs : N[l].default}
             IN st' = SetTop(IF m # {} THEN Go(WithDecl(Top), CHOOSE l \in m : TRUE, "out")
                             ELSE IF def # {} THEN Go(WithDecl(Top), CHOOSE l \in def : TRUE, "out")
                             ELSE Leave(WithDecl(Top), Here, "out", Keep(Here)))
          /\ UNCHANGED <<cid, ret, phase>>
Jump == /\ In /\ K(Here) \in {"goto", "brk", "cont"}
        /\ st' = SetTop(CASE K(Here) = "goto" -> Leave(Top, N[Here].to, "out", Keep(N[Here].to))
                          [] K(Here) = "brk" -> Leave(Top, N[Here].to, "out", Keep(N[Here].to))
                          [] K(Here) = "cont" -> LET t == N[Here].to IN
                               Leave(Top, t, "cont", Keep(Kid(t, 1))))
        /\ Quiet /\ Same
\* a computed goto runs no deferred action: source and targets are in the same scopes
ComputedGoto == /\ In /\ K(Here) = "cgo" /\ dp <= Len(C.d) /\ dp' = dp + 1 /\ Ev(N[Here].cond)
                /\ st' = SetTop(Go(Top, N[Here].tos[1 + (Decision % Len(N[Here].tos))], "out"))
                /\ UNCHANGED <<cid, ret, phase>>
\* a statement expression whose value is used: it was that of its last statement when that statement ran
LastAt(e) == CHOOSE i \in 1..Len(trace) : trace[i] = e /\ \A j \in i+1..Len(trace) : trace[j] # e
Value == /\ Running /\ Top.ph = "val"
         /\ Ev(2000 + LastAt(N[Kid(Here, Nk(Here))].n))
         /\ st' = SetTop(Go(Top, Here, "out")) /\ Same
Return == /\ In /\ K(Here) = "ret"
          /\ Ev(N[Here].n) /\ ret' = Len(trace) + 1
          /\ st' = SetTop(Leave(Top, 0, "out", {})) /\ UNCHANGED <<cid, dp, phase>>
\* a node has completed: continue in its parent
Out == /\ Running /\ Top.ph = "out" /\ Here # 0 /\ Here # Top.root
       /\ LET p == P(Here) j == Idx(Here) IN
          st' = SetTop(CASE K(p) \in {"blk", "sx"} -> IF j < Nk(p) THEN Go(Top, Kid(p, j + 1), "in") ELSE Leave(Top, p, IF N[p].val THEN "val" ELSE "out", Keep(p))
                         [] K(p) \in {"if", "sw"} -> Leave(Top, p, "out", Keep(p))
                         [] K(p) \in {"for", "while", "do"} -> Go(Top, p, "cont"))
       /\ Quiet /\ Same
\* leaving scopes: the newest pending action that is not kept runs
Unwind == /\ Live /\ Top.unw
          /\ LET f == Top L == Len(f.pend) IN
             IF L = 0 \/ f.pend[L] \in f.keep THEN st' = SetTop(Go(f, f.n, f.ph)) /\ Quiet
             ELSE LET a == f.pend[L] g == [f EXCEPT !.pend = SubSeq(@, 1, L - 1)] IN
                  IF a < 0 THEN Ev(1000 + N[-a].ini) /\ st' = SetTop(g)
                  ELSE CASE K(a) = "cln" -> Ev(1000 + N[a].n) /\ st' = SetTop(g)
                         [] K(a) = "vla" -> Quiet /\ st' = SetTop(g)
                         [] K(a) = "def" -> Quiet /\ st' = Append(SetTop(g), [root |-> Kid(a, 1), n |-> Kid(a, 1), ph |-> "in", pend |-> <<>>, keep |-> {}, unw |-> FALSE])
                         [] OTHER -> Ev(1000 + N[a].cd) /\ st' = SetTop(g)
          /\ Same
\* end of an activation
Finish == /\ Running /\ Top.ph = "out" /\ Top.pend = <<>> /\ (Here = 0 \/ Here = Top.root)
          /\ IF Len(st) = 1 THEN phase' = "done" /\ UNCHANGED st ELSE st' = Below /\ UNCHANGED phase
          /\ UNCHANGED <<cid, trace, dp, ret>>
Report == /\ phase \in {"done", "judge"} /\ phase' = "end"
          /\ PrintT(ToJson([cid |-> cid, v |-> IF phase = "judge" THEN Verdict ELSE "ok", trace |-> trace, ret |-> IF phase = "done" /\ Len(st) = 1 /\ Top.n = 0 /\ ~Top.unw /\ Top.pend = <<>> /\ Len(trace) < MaxTrace THEN ret ELSE 0]))
          /\ UNCHANGED <<cid, st, trace, dp, ret>>
Init == /\ \E i \in 1..Len(Cases) : cid = i
        /\ st = <<[root |-> 1, n |-> 1, ph |-> "in", pend |-> <<>>, keep |-> {}, unw |-> FALSE]>>
        /\ trace = <<>> /\ dp = 1 /\ ret = 0
        /\ phase = IF Verdict = "ok" THEN "run" ELSE "judge"
Next == Cut \/ Exhausted \/ Simple \/ Enter \/ If \/ Loop \/ Test \/ Inc \/ Switch \/ Jump \/ ComputedGoto \/ Value \/ Return \/ Out \/ Unwind \/ Finish \/ Report
\* every pending action is in scope where control is, unless scopes are being left
PendingInScope == phase = "run" /\ ~Top.unw /\ Here # 0 /\ Top.ph = "in" =>
    \A i \in 1..Len(Top.pend) : NodeOf(Top.pend[i]) \in InScope(Here)
PendingDistinct == \A f \in 1..Len(st) : Cardinality({st[f].pend[i] : i \in 1..Len(st[f].pend)}) = Len(st[f].pend)
=============================================================================
