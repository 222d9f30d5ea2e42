--------------------------- MODULE IncludeSearch ---------------------------
(***************************************************************************)
(* Which file does each #include, #include_next, __has_include and -include *)
(* read?  Every lookup is a pure function of the file system, the search    *)
(* list and the including frame; nothing is remembered between lookups.     *)
(*                                                                         *)
(* frame = [dir, name : the file being read, from : its position in the     *)
(*          search list (0: not found through the list), rest, sys]         *)
(* out  : what the text shows: the tag of every file entered and the answer *)
(*        of every __has_include, in order                                  *)
(* read : files read, in order of first reading, with system-header flag    *)
(* amb  : the run used a construction on which compilers differ             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pend, stack, out, read, seen, phase, amb
vars == <<cid, pend, stack, out, read, seen, phase, amb>>

C == Cases[cid]
\* the search list: -I in order (first of duplicates; not those that are system directories), -isystem, -idirafter
RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE Dedup(Tail(s), IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)))
Range(s) == {s[i] : i \in 1..Len(s)}
Isys == Dedup(C.isystem \o C.idirafter, <<>>)
Iusr == SelectSeq(Dedup(C.I, <<>>), LAMBDA d : d \notin Range(Isys))
SearchList == Iusr \o Isys
IsSysPos(i) == i > Len(Iusr)

\* "d" and "d/s": a name may carry a sub-directory
Join(d, s) == IF s = "" THEN d ELSE d \o "/" \o s
FileAt(d, n) == {i \in 1..Len(C.fs) : C.fs[i].dir = d /\ C.fs[i].name = n}
Exists(d, n) == FileAt(d, n) # {}
File(d, n) == C.fs[CHOOSE i \in FileAt(d, n) : TRUE]

None == [dir |-> "", name |-> "", from |-> 0, ok |-> FALSE]
RECURSIVE Search(_, _, _)
Search(i, sub, n) == IF i > Len(SearchList) THEN None
                     ELSE IF Exists(Join(SearchList[i], sub), n)
                          THEN [dir |-> Join(SearchList[i], sub), name |-> n, from |-> i, ok |-> TRUE]
                          ELSE Search(i + 1, sub, n)
Lookup(fr, q, sub, n) ==
  IF q /\ Exists(Join(fr.dir, sub), n) THEN [dir |-> Join(fr.dir, sub), name |-> n, from |-> 0, ok |-> TRUE]
  ELSE Search(1, sub, n)
\* after the directory where the current file was found; a file not found through the list searches all of it
LookupNext(fr, sub, n) == Search(fr.from + 1, sub, n)

Top == stack[Len(stack)]
SetRest(s) == [stack EXCEPT ![Len(stack)].rest = s]
Enter(st, r, par) ==
  LET f == File(r.dir, r.name)
      \* a header is a system header if found in (or under) a system directory or included by one
      sys == par \/ f.sysdir
      rd == [dir |-> r.dir, name |-> r.name, sys |-> sys]
  IN /\ stack' = Append(st, [dir |-> r.dir, name |-> r.name, from |-> r.from, rest |-> f.body, sys |-> sys])
     /\ out' = Append(out, f.tag)
     /\ IF <<r.dir, r.name>> \in seen
        THEN UNCHANGED <<read, seen>>
        ELSE read' = Append(read, rd) /\ seen' = seen \cup {<<r.dir, r.name>>}

Init == /\ \E i \in 1..Len(Cases) : cid = i
        /\ pend = C.pre /\ stack = <<>> /\ out = <<>> /\ read = <<>> /\ seen = {} /\ phase = "pre" /\ amb = FALSE

\* -include files first, each looked up from the working directory and then along the list; then the main file
Pre == /\ phase = "pre" /\ stack = <<>>
       /\ IF pend # <<>>
          THEN /\ pend' = Tail(pend)
               /\ LET p == Head(pend)
                      r == IF Exists(".", p.name) THEN [dir |-> ".", name |-> p.name, from |-> 0, ok |-> TRUE] ELSE Search(1, "", p.name)
                  IN IF r.ok THEN Enter(<<>>, r, FALSE) /\ phase' = "pre" ELSE phase' = "err" /\ UNCHANGED <<stack, out, read, seen>>
               /\ UNCHANGED <<cid, amb>>
          ELSE /\ Enter(<<>>, [dir |-> C.main.dir, name |-> C.main.name, from |-> 0, ok |-> TRUE], FALSE)
               /\ phase' = "main" /\ UNCHANGED <<cid, pend, amb>>

Goto(r) == IF ~r.ok THEN phase' = "err" /\ stack' = stack /\ UNCHANGED <<out, read, seen>>
           ELSE Enter(SetRest(Tail(Top.rest)), r, Top.sys) /\ phase' = phase
Step == /\ phase \in {"pre", "main"} /\ stack # <<>> /\ Top.rest # <<>>
        /\ LET d == Head(Top.rest) IN
           CASE d.o = "inc"  -> Len(stack) < 12 /\ Goto(Lookup(Top, d.q, d.sub, d.n)) /\ UNCHANGED <<cid, pend, amb>>
             [] d.o = "next" -> LET r == LookupNext(Top, d.sub, d.n) IN
                  /\ Len(stack) < 12 /\ Goto(r)
                  /\ amb' = (amb \/ Len(stack) = 1 \/ (r.ok /\ r.dir = Top.dir /\ r.name = Top.name))
                  /\ UNCHANGED <<cid, pend>>
             [] d.o = "has"  -> /\ stack' = SetRest(Tail(Top.rest))
                                /\ out' = Append(out, IF Lookup(Top, d.q, d.sub, d.n).ok THEN "yes" ELSE "no")
                                /\ UNCHANGED <<cid, pend, read, seen, phase, amb>>
             [] d.o = "guardinc" ->   \* #if __has_include(x) / #include x / #endif
                  LET r == Lookup(Top, d.q, d.sub, d.n) IN
                  /\ Len(stack) < 12
                  /\ IF r.ok THEN Goto(r) ELSE stack' = SetRest(Tail(Top.rest)) /\ UNCHANGED <<out, read, seen, phase>>
                  /\ UNCHANGED <<cid, pend, amb>>
Leave == /\ phase \in {"pre", "main"} /\ stack # <<>> /\ Top.rest = <<>>
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ phase' = IF Len(stack) = 1 /\ phase = "main" THEN "fin" ELSE phase
         /\ UNCHANGED <<cid, pend, out, read, seen, amb>>
Report == /\ phase \in {"fin", "err"} /\ phase' = "done"
          /\ PrintT(ToJson([cid |-> cid, err |-> IF phase = "err" THEN 1 ELSE 0, out |-> out, read |-> read, amb |-> IF amb THEN 1 ELSE 0]))
          /\ UNCHANGED <<cid, pend, stack, out, read, seen, amb>>
Next == Pre \/ Step \/ Leave \/ Report

\* a file found through the list exists at that position, and no earlier position has it unless it was skipped by include_next
TypeOk == \A i \in 1..Len(stack) : stack[i].from <= Len(SearchList) /\ Exists(stack[i].dir, stack[i].name)
FirstMatch == \A i \in 1..Len(stack) : stack[i].from > 0 =>
   \E s \in {"", "s"} : stack[i].dir = Join(SearchList[stack[i].from], s)
=============================================================================
