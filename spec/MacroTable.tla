----------------------------- MODULE MacroTable -----------------------------
(***************************************************************************)
(* The macro table.  `map` is what the user relies on: a function from      *)
(* names to their last definition (0 = none).  `tab` is an open-addressing  *)
(* table with linear probing, tombstones and rehashing, the design the      *)
(* implementation uses; TLC checks exhaustively that it refines `map` for   *)
(* every history (Refines) and that every probe ends (HasFree).  Histories  *)
(* (enumerated with Record = TRUE, or given as cases) are replayed through  *)
(* the real preprocessor, where only `map` is observable.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Depth,    \* length of enumerated histories (0: run the given cases)
          Record,   \* keep the history (enumeration for replay) or not (refinement only)
          InitCap, High, Low

Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases          \* sequences of operations
Home  == Input.home           \* home bucket (hash) of each key
NV    == Input.nv             \* values 1..NV
Keys  == 1..Len(Home)

Free == 0
Tomb == -1

VARIABLES cid, hist, map, tab, rest, log, phase
vars == <<cid, hist, map, tab, rest, log, phase>>

\* tab = [cap, used, key: 0..cap-1 -> Free/Tomb/key, val]
Empty(c) == [cap |-> c, used |-> 0, key |-> [i \in 0..c-1 |-> Free], val |-> [i \in 0..c-1 |-> 0]]

RECURSIVE Find(_, _, _)
Find(t, k, i) ==   \* bucket of k, or the free bucket that ends its probe, or -1 if the probe never ends
  LET b == (Home[k] + i) % t.cap
  IN IF i = t.cap THEN -1
     ELSE IF t.key[b] = k \/ t.key[b] = Free THEN b
     ELSE Find(t, k, i + 1)

PutRaw(t, k, v) ==
  LET b == Find(t, k, 0)
  IN IF t.key[b] = k THEN [t EXCEPT !.val[b] = v]
     ELSE [t EXCEPT !.key[b] = k, !.val[b] = v, !.used = @ + 1]

RECURSIVE Copy(_, _, _)
Copy(t, new, i) == IF i = t.cap THEN new
                   ELSE Copy(t, IF t.key[i] \in {Free, Tomb} THEN new ELSE PutRaw(new, t.key[i], t.val[i]), i + 1)
RECURSIVE CountFrom(_, _)
CountFrom(t, i) == IF i = t.cap THEN 0 ELSE (IF t.key[i] \in {Free, Tomb} THEN 0 ELSE 1) + CountFrom(t, i + 1)
RECURSIVE Grow(_, _)
Grow(c, n) == IF (n * 100) \div c >= Low THEN Grow(c * 2, n) ELSE c
Rehash(t) == Copy(t, Empty(Grow(t.cap, CountFrom(t, 0))), 0)

Put(t, k, v) == PutRaw(IF (t.used * 100) \div t.cap >= High THEN Rehash(t) ELSE t, k, v)
Del(t, k) == LET b == Find(t, k, 0) IN IF t.key[b] = k THEN [t EXCEPT !.key[b] = Tomb, !.val[b] = 0] ELSE t
Get(t, k) == LET b == Find(t, k, 0) IN IF t.key[b] = k THEN t.val[b] ELSE 0

Init == /\ map = [k \in Keys |-> 0] /\ tab = Empty(InitCap) /\ hist = <<>> /\ log = <<>> /\ phase = "run"
        /\ IF Depth > 0 THEN cid = 0 /\ rest = <<>> ELSE \E i \in 1..Len(Cases) : cid = i /\ rest = Cases[i]

\* an operation's effect; only "D" and "U" touch the map; churn ("C") defines and removes other names
Do(o) ==
  CASE o.o = "D" -> map' = [map EXCEPT ![o.k] = o.v] /\ tab' = (IF Depth > 0 THEN Put(tab, o.k, o.v) ELSE tab) /\ log' = log
    [] o.o = "U" -> map' = [map EXCEPT ![o.k] = 0] /\ tab' = (IF Depth > 0 THEN Del(tab, o.k) ELSE tab) /\ log' = log
    [] o.o = "C" -> UNCHANGED <<map, tab, log>>
    [] o.o = "P" -> UNCHANGED <<map, tab>> /\ log' = Append(log, map)

Ops == [o : {"D"}, k : Keys, v : 1..NV] \cup [o : {"U"}, k : Keys]
Choose == /\ Depth > 0 /\ phase = "run" /\ (Record => Len(hist) < Depth)
          /\ \E o \in Ops : Do(o) /\ hist' = (IF Record THEN Append(hist, o) ELSE hist)
          /\ UNCHANGED <<cid, rest, phase>>
Emit == /\ Depth > 0 /\ Record /\ phase = "run" /\ Len(hist) = Depth /\ phase' = "done"
        /\ PrintT(ToJson([hist |-> hist, map |-> map]))
        /\ UNCHANGED <<cid, hist, map, tab, rest, log>>
Step == /\ Depth = 0 /\ phase = "run" /\ rest # <<>> /\ Do(Head(rest)) /\ rest' = Tail(rest) /\ UNCHANGED <<cid, hist, phase>>
Finish == /\ Depth = 0 /\ phase = "run" /\ rest = <<>> /\ phase' = "done"
          /\ PrintT(ToJson([cid |-> cid, log |-> log])) /\ UNCHANGED <<cid, hist, map, tab, rest, log>>
Next == Choose \/ Emit \/ Step \/ Finish

Refines == Depth > 0 => \A k \in Keys : Get(tab, k) = map[k]
HasFree == \E i \in 0..tab.cap-1 : tab.key[i] = Free
UsedOk  == Depth > 0 => tab.used = tab.cap - (LET f[i \in 0..tab.cap] == IF i = tab.cap THEN 0 ELSE (IF tab.key[i] = Free THEN 1 ELSE 0) + f[i+1] IN f[0])
=============================================================================
