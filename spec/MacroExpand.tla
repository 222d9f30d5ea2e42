---------------------------- MODULE MacroExpand ----------------------------
(***************************************************************************)
(* Macro replacement of ISO C 6.10.4 (and GNU-free __VA_OPT__), as a state *)
(* machine over a stack of token streams.                                  *)
(*                                                                         *)
(* A token is [s: text as a sequence of characters, k: "id"|"num"|"p"|     *)
(* "str"|"pm" (placemarker)|"end", w: 1 iff white space precedes it,       *)
(* p: painted, i.e. no longer available for replacement, x: its w is not   *)
(* fixed by the standard].  An "end" item stands where a replacement list  *)
(* ends: the macro named by its s is "being replaced" exactly while its    *)
(* end item lies ahead in some stream of the stack.                        *)
(*                                                                         *)
(* frames: <<[in, out]>>, the top is the stream being rescanned; the lower *)
(* ones wait for the pre-expansion of an argument (calls[i] describes what *)
(* frame i waits for).                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, phase, frames, calls, steps
vars == <<cid, phase, frames, calls, steps>>

MaxSteps == 600
MaxToks  == 90

Defs == Cases[cid].defs          \* sequence of macro definitions
Ch(str) == str

IsLP(t) == t.k = "p" /\ t.s = <<"(">>
IsRP(t) == t.k = "p" /\ t.s = <<")">>
IsComma(t) == t.k = "p" /\ t.s = <<",">>
VAARGS == <<"_","_","V","A","_","A","R","G","S","_","_">>
VAOPT  == <<"_","_","V","A","_","O","P","T","_","_">>

Idx(name) == LET S == {i \in 1..Len(Defs) : Defs[i].name = name}
             IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
IsMacro(t) == t.k = "id" /\ Idx(t.s) # 0
M(t) == Defs[Idx(t.s)]

LockedIn(in) == {in[i].s : i \in {j \in 1..Len(in) : in[j].k = "end"}}
RECURSIVE Below(_)
Below(n) == IF n = 0 THEN {} ELSE LockedIn(frames[n].in) \cup Below(n - 1)

Top == frames[Len(frames)]
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
Painted(t, locks) == IF t.k = "id" /\ t.s \in locks /\ IsMacro(t) THEN [t EXCEPT !.p = 1] ELSE t

PM == [s |-> <<>>, k |-> "pm", w |-> 0, p |-> 0, x |-> 1]
NotPM(t) == t.k # "pm"
NotEnd(t) == t.k # "end"

----------------------------------------------------------------------------
(* Pasting *)
IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
PunctPairs == { <<"+","+">>, <<"-","-">>, <<"<","<">>, <<">",">">>, <<"&","&">>, <<"|","|">>,
  <<"=","=">>, <<"!","=">>, <<"<","=">>, <<">","=">>, <<"-",">">>, <<"+","=">>, <<"-","=">>,
  <<"*","=">>, <<"%","=">>, <<"&","=">>, <<"|","=">>, <<"^","=">>, <<"#","#">>,
  <<"<","<","=">>, <<">",">","=">>, <<"-","-">> }
PasteKind(a, b) ==
  CASE a.k = "id" /\ b.k \in {"id", "num"} -> "id"
    [] a.s \in {<<"L">>, <<"u">>, <<"U">>, <<"u","8">>} /\ b.k = "str" -> "str"
    [] a.k = "num" /\ b.k \in {"id", "num"} -> "num"
    [] a.k = "p" /\ b.k = "p" /\ (a.s \o b.s) \in PunctPairs -> "p"
    [] OTHER -> "bad"
Paste(a, b) ==
  IF a.k = "pm" THEN [b EXCEPT !.w = a.w, !.x = 1]
  ELSE IF b.k = "pm" THEN a
  ELSE [s |-> a.s \o b.s, k |-> PasteKind(a, b), w |-> a.w, p |-> 0, x |-> a.x]

(* Stringizing *)
RECURSIVE EscStr(_)
EscStr(s) == IF s = <<>> THEN <<>>
             ELSE (IF Head(s) \in {"\"", "\\"} THEN <<"\\">> ELSE <<>>) \o <<Head(s)>> \o EscStr(Tail(s))
RECURSIVE StrToks(_, _)
StrToks(ts, first) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts) IN
       (IF t.w = 1 /\ ~first THEN <<" ">> ELSE <<>>)
       \o (IF t.k = "str" THEN EscStr(t.s) ELSE t.s) \o StrToks(Tail(ts), FALSE)
Stringize(ts, w) ==
  LET r == SelectSeq(ts, NotPM) IN
  [s |-> <<"\"">> \o StrToks(r, TRUE) \o <<"\"">>, k |-> "str", w |-> w, p |-> 0,
   x |-> IF \E i \in 2..Len(r) : r[i].x = 1 THEN 2 ELSE 0]

----------------------------------------------------------------------------
(* Arguments: the tokens after '(' up to the matching ')', painting the     *)
(* names of macros that are being replaced at the place they are read.      *)
RECURSIVE FindRP(_, _, _)
FindRP(in, i, d) ==
  IF i > Len(in) THEN 0
  ELSE IF IsLP(in[i]) THEN FindRP(in, i + 1, d + 1)
  ELSE IF IsRP(in[i]) THEN (IF d = 0 THEN i ELSE FindRP(in, i + 1, d - 1))
  ELSE FindRP(in, i + 1, d)

RECURSIVE SplitArgs(_, _, _, _)
\* ts: tokens between the parentheses; d depth; max: number of separators still honoured
SplitArgs(ts, d, max, cur) ==
  IF ts = <<>> THEN <<cur>>
  ELSE LET t == Head(ts) IN
       IF IsComma(t) /\ d = 0 /\ max > 0 THEN <<cur>> \o SplitArgs(Tail(ts), d, max - 1, <<>>)
       ELSE SplitArgs(Tail(ts), IF IsLP(t) THEN d + 1 ELSE IF IsRP(t) THEN d - 1 ELSE d, max, Append(cur, t))

\* the raw arguments of an invocation of m, or <<"bad">>
ArgsOf(m, ts) ==
  LET np == Len(m.params) + m.va
      a == SplitArgs(ts, 0, IF m.va = 1 THEN Len(m.params) ELSE 1000, <<>>)
  IN IF np = 0 THEN [ok |-> ts = <<>>, a |-> <<>>]
     ELSE IF m.va = 1 /\ Len(a) = Len(m.params) THEN [ok |-> TRUE, a |-> Append(a, <<>>)]
     ELSE [ok |-> Len(a) = np, a |-> a]

ParamNames(m) == IF m.va = 1 THEN Append(m.params, VAARGS) ELSE m.params
ParamIdx(m, t) ==
  IF t.k # "id" THEN 0
  ELSE LET P == ParamNames(m) S == {i \in 1..Len(P) : P[i] = t.s} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

----------------------------------------------------------------------------
(* Substitution into a body.  raw/exp: the arguments.                       *)
IsHashHash(t) == t.k = "p" /\ t.s = <<"#","#">>
IsHash(t) == t.k = "p" /\ t.s = <<"#">>
FirstW(ts, w) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].w = w, ![1].x = 1]
\* a token list that stands for an operand of ##
Operand(ts, w) == IF ts = <<>> THEN <<[PM EXCEPT !.w = w]>> ELSE FirstW(ts, w)
MarkNext(ts) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].x = 1]

RECURSIVE Subst(_, _, _, _, _)
(* acc: the list so far (placemarkers included); glue: TRUE iff ## precedes *)
Subst(m, body, raw, exp, st) ==
  LET acc == st.acc  glue == st.glue IN
  IF body = <<>> THEN acc
  ELSE
  LET t == Head(body)
      hash == m.fn = 1 /\ IsHash(t) /\ Len(body) > 1 /\ ~glue
      hash2 == m.fn = 1 /\ IsHash(t) /\ Len(body) > 1
      opt == m.fn = 1 /\ m.va = 1 /\ t.s = VAOPT /\ Len(body) > 1 /\ IsLP(body[2])
      optEnd == IF opt THEN FindRP(body, 3, 0) ELSE 0
      pi == IF m.fn = 1 THEN ParamIdx(m, t) ELSE 0
      used == IF hash2 THEN 2 ELSE IF opt THEN optEnd ELSE 1
      rest == SubSeq(body, used + 1, Len(body))
      before == glue
      after == rest # <<>> /\ IsHashHash(Head(rest))
      item ==
        IF hash2 THEN <<Stringize(raw[ParamIdx(m, body[2])], t.w)>>
        ELSE IF opt THEN
          (IF SelectSeq(exp[Len(exp)], NotPM) = <<>> THEN <<[PM EXCEPT !.w = t.w]>>
           ELSE Operand(Subst(m, SubSeq(body, 3, optEnd - 1), raw, exp, [acc |-> <<>>, glue |-> FALSE]), t.w))
        ELSE IF pi # 0 THEN Operand(IF before \/ after THEN raw[pi] ELSE exp[pi], t.w)
        ELSE <<t>>
      joined == IF glue
                THEN SubSeq(acc, 1, Len(acc) - 1) \o <<Paste(acc[Len(acc)], item[1])>> \o Tail(item)
                ELSE acc \o item
  IN IF after THEN Subst(m, Tail(rest), raw, exp, [acc |-> joined, glue |-> TRUE])
     ELSE Subst(m, rest, raw, exp, [acc |-> joined, glue |-> FALSE])

\* placemarkers go; the white space after one is unspecified
RECURSIVE DropPM(_, _)
DropPM(ts, mark) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Head(ts).k = "pm" THEN DropPM(Tail(ts), TRUE)
  ELSE <<IF mark THEN [Head(ts) EXCEPT !.x = 1] ELSE Head(ts)>> \o DropPM(Tail(ts), FALSE)

Bad(ts) == \E i \in 1..Len(ts) : ts[i].k = "bad"

\* the stream after the replacement of the invocation spelled by name token n
Replaced(n, list, rest) ==
  LET l == DropPM(list, FALSE)
      e == [s |-> n.s, k |-> "end", w |-> 0, p |-> 0, x |-> 0]
      first == {i \in 1..Len(rest) : rest[i].k # "end"}
      rest2 == IF l # <<>> \/ first = {} THEN rest
               ELSE LET i == CHOOSE i \in first : \A j \in first : i <= j
                    IN [rest EXCEPT ![i].w = IF n.w = 1 THEN 1 ELSE rest[i].w, ![i].x = 1]
      \* the token after a replacement may be spelled after white space the standard does not fix
      rest3 == LET i == IF first = {} THEN 0 ELSE CHOOSE i \in first : \A j \in first : i <= j
               IN IF i = 0 \/ l = <<>> THEN rest2
                  ELSE rest2
  IN FirstW(l, n.w) \o <<e>> \o rest3

----------------------------------------------------------------------------
Init == /\ cid \in 1..Len(Cases)
        /\ phase = "run" /\ steps = 0
        /\ frames = <<[in |-> Cases[cid].input, out |-> <<>>]>>
        /\ calls = <<>>

Running == phase = "run" /\ steps < MaxSteps
T == Head(Top.in)
Locks == Below(Len(frames))
Step == steps' = steps + 1 /\ UNCHANGED cid

\* the end of a replacement list: its macro is available again
EndReplacement ==
  /\ Running /\ Top.in # <<>> /\ T.k = "end"
  /\ frames' = SetTop([Top EXCEPT !.in = Tail(@)])
  /\ Step /\ UNCHANGED <<phase, calls>>

Pass(t) == /\ frames' = SetTop([in |-> Tail(Top.in), out |-> Append(Top.out, t)])
           /\ Step /\ UNCHANGED <<phase, calls>>

\* where the '(' of an invocation would be: the next token, ends skipped
NextTok == LET S == {i \in 2..Len(Top.in) : Top.in[i].k # "end"}
           IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Ordinary == Running /\ Top.in # <<>> /\ T.k # "end" /\ (~IsMacro(T) \/ T.p = 1) /\ Pass(T)
Paint == Running /\ Top.in # <<>> /\ T.k # "end" /\ IsMacro(T) /\ T.p = 0 /\ T.s \in Locks
         /\ Pass([T EXCEPT !.p = 1])
Avail == Running /\ Top.in # <<>> /\ T.k # "end" /\ IsMacro(T) /\ T.p = 0 /\ T.s \notin Locks

ParenNext == IF NextTok = 0 THEN FALSE ELSE IsLP(Top.in[NextTok])
NotInvoked == Avail /\ M(T).fn = 1 /\ ~ParenNext /\ Pass(T)

Error == phase' = "err" /\ UNCHANGED <<frames, calls>> /\ Step
         /\ PrintT(ToJson([id |-> Cases[cid].id, err |-> 1, out |-> <<>>]))

ReplaceObject ==
  /\ Avail /\ M(T).fn = 0
  /\ LET l == Subst(M(T), M(T).body, <<>>, <<>>, [acc |-> <<>>, glue |-> FALSE]) IN
     IF Bad(l) THEN Error
     ELSE /\ frames' = SetTop([Top EXCEPT !.in = Replaced(T, l, Tail(@))])
          /\ Step /\ UNCHANGED <<phase, calls>>

\* Only an argument that is a parameter's replacement (not an operand of # or ##) is expanded.
UsesOpt(m) == \E i \in 1..Len(m.body) : m.body[i].s = VAOPT
NeedExp(m, i) ==
  \/ UsesOpt(m) /\ m.va = 1 /\ i = Len(ParamNames(m))
  \/ \E j \in 1..Len(m.body) :
       /\ ParamIdx(m, m.body[j]) = i
       /\ (IF j > 1 THEN ~IsHash(m.body[j-1]) /\ ~IsHashHash(m.body[j-1]) ELSE TRUE)
       /\ (IF j < Len(m.body) THEN ~IsHashHash(m.body[j+1]) ELSE TRUE)
ArgIn(m, raw, i) == IF NeedExp(m, i) THEN raw[i] ELSE <<>>

\* collect the arguments and start expanding the first
Invoke ==
  /\ Avail /\ M(T).fn = 1 /\ ParenNext
  /\ LET in == Top.in
         rp == FindRP(in, NextTok + 1, 0)
         locksAt(i) == LockedIn(SubSeq(in, i, Len(in))) \cup Below(Len(frames) - 1)
         mid == [i \in 1..(rp - NextTok - 1) |-> Painted(in[NextTok + i], locksAt(NextTok + i))]
         a == ArgsOf(M(T), SelectSeq(mid, NotEnd))
     IN IF rp = 0 \/ ~a.ok THEN Error
        ELSE /\ calls' = Append(calls, [n |-> T, raw |-> a.a, exp |-> <<>>])
             /\ frames' = Append(SetTop([Top EXCEPT !.in = SubSeq(in, rp + 1, Len(in))]),
                                 [in |-> IF a.a = <<>> THEN <<>> ELSE ArgIn(M(T), a.a, 1), out |-> <<>>])
             /\ Step /\ UNCHANGED phase

\* the pre-expansion of an argument is complete
ArgDone ==
  /\ Running /\ Top.in = <<>> /\ Len(frames) > 1
  /\ LET c == calls[Len(calls)]
         exp == IF c.raw = <<>> THEN <<>> ELSE Append(c.exp, Top.out)
         n == Len(frames)
     IN IF Len(exp) < Len(c.raw)
        THEN /\ calls' = [calls EXCEPT ![Len(calls)].exp = exp]
             /\ frames' = SetTop([in |-> ArgIn(Defs[Idx(c.n.s)], c.raw, Len(exp) + 1), out |-> <<>>])
             /\ Step /\ UNCHANGED phase
        ELSE LET m == Defs[Idx(c.n.s)]
                 l == Subst(m, m.body, c.raw, exp, [acc |-> <<>>, glue |-> FALSE])
             IN IF Bad(l) THEN Error
                ELSE /\ calls' = SubSeq(calls, 1, Len(calls) - 1)
                     /\ frames' = [SubSeq(frames, 1, n - 1) EXCEPT ![n - 1].in = Replaced(c.n, l, @)]
                     /\ Step /\ UNCHANGED phase

Finish ==
  /\ Running /\ Top.in = <<>> /\ Len(frames) = 1
  /\ phase' = "done" /\ Step /\ UNCHANGED <<frames, calls>>
  /\ PrintT(ToJson([id |-> Cases[cid].id, err |-> 0,
       out |-> [i \in 1..Len(Top.out) |-> [s |-> Top.out[i].s, x |-> Top.out[i].x]]]))

Small == \A i \in 1..Len(frames) : Len(frames[i].in) <= MaxToks /\ Len(frames[i].out) <= MaxToks

Next == Small /\ (EndReplacement \/ Ordinary \/ Paint \/ NotInvoked \/ ReplaceObject \/ Invoke \/ ArgDone \/ Finish)

----------------------------------------------------------------------------
\* A macro is never replaced inside its own replacement: no two end items of one macro in one stack position chain
NoReentry == \A i \in 1..Len(frames) : \A a, b \in 1..Len(frames[i].in) :
    (a # b /\ frames[i].in[a].k = "end" /\ frames[i].in[b].k = "end") => frames[i].in[a].s # frames[i].in[b].s
CallsMatch == phase = "run" => Len(frames) = Len(calls) + 1
NoPM == \A i \in 1..Len(frames) : \A j \in 1..Len(frames[i].out) : frames[i].out[j].k \notin {"pm", "end", "bad"}
=============================================================================
