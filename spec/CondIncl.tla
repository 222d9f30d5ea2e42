------------------------------ MODULE CondIncl ------------------------------
(***************************************************************************)
(* Conditional inclusion (ISO C 6.10.1, C23 #elifdef/#elifndef), macro      *)
(* definition and removal, #include and #pragma once, line by line.         *)
(* The specification has no include-guard shortcut: a header is read again  *)
(* every time, so an implementation's shortcut must be unobservable.        *)
(*                                                                         *)
(* files : stack of [f: header number or 0, rest: lines still to read,      *)
(*         base: number of conditionals open where it was entered]          *)
(* conds : stack of [act: lines of the current group take effect, taken,    *)
(*         els: #else seen, outer: the enclosing group is active]           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Depth           \* > 0: enumerate all line sequences up to this length

Input == JsonDeserialize(IOEnv.CASES)
Cases   == Input.cases       \* sequences of lines
Headers == Input.headers     \* sequences of lines
Alpha   == Input.alphabet    \* lines for the enumeration

VARIABLES cid, hist, files, conds, mac, once, out, phase
vars == <<cid, hist, files, conds, mac, once, out, phase>>

Names == {"A", "B", "G1", "G2", "G3", "G4"}
Undef == 99
Def(n) == mac[n] # Undef
Val(n) == IF Def(n) THEN mac[n] ELSE 0

\* the conditions the generator can spell; "bad" is a malformed expression
Cond(c) ==
  CASE c = "0" -> FALSE [] c = "1" -> TRUE
    [] c = "A" -> Val("A") # 0
    [] c = "!A" -> Val("A") = 0
    [] c = "A==2" -> Val("A") = 2
    [] c = "A<B" -> Val("A") < Val("B")
    [] c = "defined A" -> Def("A")
    [] c = "!defined(B)" -> ~Def("B")
    [] c = "defined(A) && A" -> Def("A") /\ Val("A") # 0
    [] c = "!defined(A) || B" -> ~Def("A") \/ Val("B") # 0
    [] c = "!defined(G3)" -> ~Def("G3")
    [] c = "A ? B : 1" -> IF Val("A") # 0 THEN Val("B") # 0 ELSE TRUE

Active == IF conds = <<>> THEN TRUE ELSE conds[Len(conds)].act
TopC == conds[Len(conds)]
SetC(c) == [conds EXCEPT ![Len(conds)] = c]
HeaderBase == files[Len(files)].base

Same(s) == UNCHANGED s
Fail == phase' = "err" /\ Same(<<conds, mac, once, out>>)
Skip == Same(<<conds, mac, once, out, phase>>)
Open(b) == /\ conds' = Append(conds, [act |-> Active /\ b, taken |-> b, els |-> FALSE, outer |-> Active])
           /\ Same(<<mac, once, out, phase>>)
Pop(fs) == SubSeq(fs, 1, Len(fs) - 1)
Read == [files EXCEPT ![Len(files)].rest = Tail(@)]

\* effect of one line l; files' is set by the caller except for includes
Plain == files' = Read
Line(l) ==
  CASE l.o = "text"  -> /\ Plain /\ (IF Active THEN out' = Append(out, l.n) ELSE out' = out)
                        /\ Same(<<conds, mac, once, phase>>)
    [] l.o = "if"    -> /\ Plain /\ (IF ~Active THEN Open(FALSE)
                                     ELSE IF l.n = "bad" THEN Fail ELSE Open(Cond(l.n)))
    [] l.o = "ifdef"  -> Plain /\ Open(Active /\ Def(l.n))
    [] l.o = "ifndef" -> Plain /\ Open(Active /\ ~Def(l.n))
    [] l.o \in {"elif", "elifdef", "elifndef"} ->
         /\ Plain
         /\ IF Len(conds) <= HeaderBase THEN (IF Active THEN Fail ELSE FALSE)
            ELSE IF TopC.els THEN (IF TopC.outer THEN Fail ELSE FALSE)
            ELSE IF ~TopC.outer \/ TopC.taken
                 THEN conds' = SetC([TopC EXCEPT !.act = FALSE]) /\ Same(<<mac, once, out, phase>>)
                 ELSE IF l.o = "elif" /\ l.n = "bad" THEN Fail
                 ELSE LET b == CASE l.o = "elif" -> Cond(l.n) [] l.o = "elifdef" -> Def(l.n) [] OTHER -> ~Def(l.n)
                      IN conds' = SetC([TopC EXCEPT !.act = b, !.taken = b]) /\ Same(<<mac, once, out, phase>>)
    [] l.o = "else"  ->
         /\ Plain
         /\ IF Len(conds) <= HeaderBase THEN (IF Active THEN Fail ELSE FALSE)
            ELSE IF TopC.els THEN (IF TopC.outer THEN Fail ELSE FALSE)
            ELSE /\ conds' = SetC([TopC EXCEPT !.act = TopC.outer /\ ~TopC.taken, !.taken = TRUE, !.els = TRUE])
                 /\ Same(<<mac, once, out, phase>>)
    [] l.o = "endif" ->
         /\ Plain
         /\ IF Len(conds) <= HeaderBase THEN (IF Active THEN Fail ELSE FALSE)
            ELSE conds' = Pop(conds) /\ Same(<<mac, once, out, phase>>)
    [] l.o = "define" -> \* n = <<name, value>>
         /\ Plain
         /\ IF ~Active THEN Skip
            ELSE (Def(l.n[1]) => mac[l.n[1]] = l.n[2]) /\ mac' = [mac EXCEPT ![l.n[1]] = l.n[2]] /\ Same(<<conds, once, out, phase>>)
    [] l.o = "undef"  -> Plain /\ IF ~Active THEN Skip ELSE mac' = [mac EXCEPT ![l.n] = Undef] /\ Same(<<conds, once, out, phase>>)
    [] l.o = "once"   -> Plain /\ IF ~Active THEN Skip
                                  ELSE once' = once \cup {files[Len(files)].f} /\ Same(<<conds, mac, out, phase>>)
    [] l.o = "junk"   -> Plain /\ ~Active /\ Skip           \* text no active group may contain
    [] l.o = "junkdir" -> Plain /\ IF Active THEN Fail ELSE Skip  \* a directive that fails where it takes effect
    [] l.o = "null"   -> Plain /\ Skip
    [] l.o = "include" ->
         IF Active /\ l.n \notin once
         THEN /\ Len(files) < 4
              /\ files' = Append(Read, [f |-> l.n, rest |-> Headers[l.n], base |-> Len(conds)])
              /\ Same(<<conds, mac, once, out, phase>>)
         ELSE Plain /\ Skip

Init == /\ mac = [n \in Names |-> Undef] /\ once = {} /\ out = <<>> /\ conds = <<>> /\ phase = "run" /\ hist = <<>>
        /\ IF Depth > 0
           THEN cid = 0 /\ files = <<[f |-> 0, rest |-> <<>>, base |-> 0]>>
           ELSE \E i \in 1..Len(Cases) : cid = i /\ files = <<[f |-> 0, rest |-> Cases[i], base |-> 0]>>

Cur == files[Len(files)]
\* enumeration: the next line of the main file is chosen freely
Choose == /\ Depth > 0 /\ phase = "run" /\ Len(files) = 1 /\ Cur.rest = <<>> /\ Len(hist) < Depth
          /\ \E i \in 1..Len(Alpha) : hist' = Append(hist, i) /\ files' = [files EXCEPT ![1].rest = <<Alpha[i]>>]
          /\ Same(<<cid, conds, mac, once, out, phase>>)
Process == /\ phase = "run" /\ Cur.rest # <<>> /\ Line(Head(Cur.rest)) /\ Same(<<cid, hist>>)
\* a conditional must end in the file where it begins
FileEnd == /\ phase = "run" /\ Cur.rest = <<>> /\ Len(files) > 1
           /\ IF Len(conds) > Cur.base THEN phase' = "err" /\ Same(<<files>>) ELSE files' = Pop(files) /\ Same(<<phase>>)
           /\ Same(<<cid, hist, conds, mac, once, out>>)
Rec(e) == PrintT(ToJson([cid |-> cid, hist |-> hist, err |-> e, out |-> out]))
Finish == /\ phase = "run" /\ Cur.rest = <<>> /\ Len(files) = 1
          /\ (Depth > 0 => Len(hist) > 0)
          /\ phase' = "done" /\ Rec(IF conds = <<>> THEN 0 ELSE 1)
          /\ Same(<<cid, hist, files, conds, mac, once, out>>)
Report == phase = "err" /\ phase' = "reported" /\ Rec(1) /\ Same(<<cid, hist, files, conds, mac, once, out>>)

Next == Choose \/ Process \/ FileEnd \/ Finish \/ Report

\* at most one group of a conditional is active, and only inside an active group
Nested == \A i \in 1..Len(conds) : conds[i].act => conds[i].outer /\ conds[i].taken
OuterChain == \A i \in 2..Len(conds) : conds[i].outer = conds[i-1].act
=============================================================================
