--------------------------- MODULE LineNumbering ---------------------------
(***************************************************************************)
(* Presumed line and file of every token.  A frame per file being read:     *)
(*   phys  : physical line of the token being read (1-based)                *)
(*   psp   : line splices since the last unspliced newline; a token of a    *)
(*           continued line may carry the number of any of those lines      *)
(*   delta : presumed line = phys + delta;  disp : presumed file            *)
(* out: what the text shows; a line number is a range lo..hi (lo = hi       *)
(* except in continued lines and for the body of a multi-line invocation).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, stack, calls, cnt, out, phase
vars == <<cid, stack, calls, cnt, out, phase>>

Files == Cases[cid].files        \* [name, items]
Top == stack[Len(stack)]
Frame(i) == [rest |-> Files[i].items, phys |-> 1, psp |-> 0, delta |-> 0, disp |-> Files[i].name]

Lo(t) == t.phys - t.psp + t.delta
Hi(t) == t.phys + t.delta
Line(t) == [k |-> "n", lo |-> Lo(t), hi |-> Hi(t), s |-> ""]
Tok(s) == [k |-> "t", lo |-> 0, hi |-> 0, s |-> s]
Str(s) == [k |-> "s", lo |-> 0, hi |-> 0, s |-> s]
Num(n) == [k |-> "n", lo |-> n, hi |-> n, s |-> ""]

Set(t) == stack' = [stack EXCEPT ![Len(stack)] = t]
Adv(t) == [t EXCEPT !.rest = Tail(@)]
NewLine(t, n) == IF n = 0 THEN t ELSE [t EXCEPT !.phys = @ + n, !.psp = 0]
Put(s) == out' = out \o s

Init == /\ \E i \in 1..Len(Cases) : cid = i
        /\ stack = <<Frame(1)>> /\ calls = <<>> /\ cnt = 0 /\ out = <<>> /\ phase = "run"

Item(d, t) ==
  CASE d.o = "t"  -> Put(<<Tok(d.s)>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "ts" -> Put(<<Tok(d.s)>>) /\ Set([Adv(t) EXCEPT !.phys = @ + 1, !.psp = @ + 1]) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "L"  -> Put(<<Line(t)>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "F"  -> Put(<<Str(t.disp)>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "B"  -> Put(<<Str(Files[1].name)>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "C"  -> Put(<<Num(cnt)>>) /\ cnt' = cnt + 1 /\ Set(Adv(t)) /\ UNCHANGED calls
    [] d.o = "ML" -> Put(<<Line(t), Str(t.disp)>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>   \* #define ML __LINE__ __FILE__
    \* a statement: the debugging information gives its presumed place
    [] d.o = "st" -> Put(<<[k |-> "d", lo |-> Lo(t), hi |-> Hi(t), s |-> t.disp]>>) /\ Set(Adv(t)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "nl" -> Set(NewLine(Adv(t), 1)) /\ UNCHANGED <<out, calls, cnt>>
    [] d.o = "sp" -> Set([Adv(t) EXCEPT !.phys = @ + 1, !.psp = @ + 1]) /\ UNCHANGED <<out, calls, cnt>>
    [] d.o = "cn" -> Set(NewLine(Adv(t), d.n)) /\ UNCHANGED <<out, calls, cnt>>                 \* comment with n newlines
    \* #define DUP(x) [ x : x __LINE__ __FILE__ ]
    [] d.o = "open"  -> /\ calls' = Append(calls, [at |-> Len(out), lo |-> Lo(t)]) /\ Set(Adv(t)) /\ UNCHANGED <<out, cnt>>
    [] d.o = "close" -> LET c == calls[Len(calls)]
                            a == SubSeq(out, c.at + 1, Len(out))
                        IN /\ out' = SubSeq(out, 1, c.at) \o <<Tok("[")>> \o a \o <<Tok(":")>> \o a
                                     \o <<[k |-> "n", lo |-> c.lo, hi |-> Hi(t), s |-> ""], Str(t.disp), Tok("]")>>
                           /\ calls' = SubSeq(calls, 1, Len(calls) - 1) /\ Set(Adv(t)) /\ UNCHANGED cnt
    \* a #line directive (one physical line): the next line has number n
    [] d.o = "line" -> /\ Set([NewLine(Adv(t), 1) EXCEPT !.delta = d.n - (t.phys + 1), !.disp = IF d.named THEN d.s ELSE @])
                       /\ UNCHANGED <<out, calls, cnt>>
    \* #if __LINE__ % m == r / yes / #else / no / #endif
    [] d.o = "if" -> /\ Put(<<Tok(IF Hi(t) % d.m = d.r THEN "yes" ELSE "no")>>) /\ Set(NewLine(Adv(t), 5)) /\ UNCHANGED <<calls, cnt>>
    [] d.o = "ifc" -> /\ Put(<<Tok(IF cnt % d.m = d.r THEN "yes" ELSE "no")>>) /\ cnt' = cnt + 1 /\ Set(NewLine(Adv(t), 5)) /\ UNCHANGED calls
    [] d.o = "skip" -> Set(NewLine(Adv(t), d.n)) /\ UNCHANGED <<out, calls, cnt>>               \* a skipped group of n lines
    [] d.o = "inc" -> /\ Len(stack) < 6
                      /\ stack' = Append([stack EXCEPT ![Len(stack)] = NewLine(Adv(t), 1)], Frame(d.n))
                      /\ UNCHANGED <<out, calls, cnt>>

Step == phase = "run" /\ Top.rest # <<>> /\ Item(Head(Top.rest), Top) /\ UNCHANGED <<cid, phase>>
FileEnd == /\ phase = "run" /\ Top.rest = <<>>
           /\ IF Len(stack) > 1 THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ phase' = phase
              ELSE stack' = stack /\ phase' = "done" /\ PrintT(ToJson([cid |-> cid, out |-> out]))
           /\ UNCHANGED <<cid, calls, cnt, out>>
Next == Step \/ FileEnd
Sane == \A i \in 1..Len(stack) : stack[i].phys >= 1 /\ stack[i].psp < stack[i].phys
\* the numbering of an includer does not change while a file it includes is read
Restored == [][Len(stack') > 1 /\ Len(stack) > 1 =>
               \A i \in 1..(IF Len(stack') < Len(stack) THEN Len(stack') ELSE Len(stack)) - 1 : stack'[i] = stack[i]]_vars
=============================================================================
