------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* Name lookup in C.  A translation unit is a sequence of events in source  *)
(* order: scopes opened and closed, ordinary identifiers and tags declared, *)
(* uses.  The machine keeps the stack of scopes, each mapping names of two  *)
(* name spaces to declarations, and answers every event:                    *)
(*   ord   declares an ordinary identifier; 0 if the scope has another one  *)
(*   ext   block-scope extern: binds the name to the object or function     *)
(*         with linkage the file declares (f), 0 if not allowed             *)
(*   tbeg  begins the definition of a tag, tend completes it                *)
(*   fwd   struct n;   declares the tag in the current scope                *)
(*   men   struct n *  refers to the visible tag or declares one here       *)
(*   use, tuse  the declaration a name denotes here (0: none)               *)
(*   ptr   whether the type an earlier event named has been completed       *)
(* An answer 0 means that the generator leaves the construct out; what is   *)
(* inside a definition left out gets -1.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, scopes, done, skip, open, out
vars == <<cid, pc, scopes, done, skip, open, out>>
C == Cases[cid].ev
Reserved == {Cases[cid].res[i] : i \in 1..Len(Cases[cid].res)}   \* names the file declares with external linkage
Ev == C[pc]
Empty == [x \in {} |-> 0]
NewScope == [o |-> Empty, t |-> Empty]
Top == scopes[Len(scopes)]
Has(f, n) == n \in DOMAIN f
Put(f, n, v) == (n :> v) @@ f
SetTop(s) == [scopes EXCEPT ![Len(scopes)] = s]
\* innermost visible declaration of name n in name space sp ("o" or "t"); entries are <<id, kind>>
RECURSIVE Find(_, _, _)
Find(sp, n, d) == IF d = 0 THEN <<0, "">> ELSE IF Has(scopes[d][sp], n) THEN scopes[d][sp][n] ELSE Find(sp, n, d - 1)
Seen(sp, n) == Find(sp, n, Len(scopes))
\* what an extern declaration of n denotes is not changed by declarations without linkage in between,
\* but C leaves the linkage undefined when a hidden internal one is re-declared
Ans(a) == out' = Append(out, a)
Stay == UNCHANGED <<scopes, done, skip, open>>
Declare(sp, n, v) == scopes' = SetTop([Top EXCEPT ![sp] = Put(@, n, v)])
Keep == UNCHANGED <<done, skip, open>>
Open == Ev.e = "open" /\ scopes' = Append(scopes, NewScope) /\ Ans(1) /\ Keep
Close == Ev.e = "close" /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1) /\ Ans(1) /\ Keep
Ord == /\ Ev.e = "ord"
       /\ IF Has(Top.o, Ev.n) \/ (Len(scopes) = 1 /\ Ev.n \in Reserved) THEN Ans(0) /\ UNCHANGED scopes ELSE Declare("o", Ev.n, <<Ev.i, Ev.k>>) /\ Ans(Ev.i)
       /\ Keep
Ext == /\ Ev.e = "ext"
       /\ IF Has(Top.o, Ev.n) /\ Top.o[Ev.n] # <<Ev.i, Ev.k>> THEN Ans(0) /\ UNCHANGED scopes
          ELSE Declare("o", Ev.n, <<Ev.i, Ev.k>>) /\ Ans(Ev.i)
       /\ Keep
Tbeg == /\ Ev.e = "tbeg"
        /\ IF ~Has(Top.t, Ev.n) THEN Declare("t", Ev.n, <<Ev.i, Ev.k>>) /\ Ans(Ev.i) /\ open' = Append(open, Ev.i) /\ UNCHANGED <<done, skip>>
           ELSE LET d == Top.t[Ev.n] IN
                IF d[2] = Ev.k /\ Ev.k # "enum" /\ d[1] \notin done /\ (\A j \in 1..Len(open) : open[j] # d[1])
                THEN Ans(d[1]) /\ open' = Append(open, d[1]) /\ UNCHANGED <<scopes, done, skip>>
                ELSE Ans(0) /\ skip' = 1 /\ UNCHANGED <<scopes, done, open>>
Tend == /\ Ev.e = "tend"
        /\ done' = done \cup {open[Len(open)]} /\ open' = SubSeq(open, 1, Len(open) - 1) /\ Ans(1) /\ UNCHANGED <<scopes, skip>>
Fwd == /\ Ev.e = "fwd"
       /\ IF Has(Top.t, Ev.n) THEN Ans(IF Top.t[Ev.n][2] = Ev.k THEN Top.t[Ev.n][1] ELSE 0) /\ UNCHANGED scopes
          ELSE Declare("t", Ev.n, <<Ev.i, Ev.k>>) /\ Ans(Ev.i)
       /\ Keep
Men == /\ Ev.e = "men"
       /\ LET d == Seen("t", Ev.n) IN
          IF d[1] = 0 THEN Declare("t", Ev.n, <<Ev.i, Ev.k>>) /\ Ans(Ev.i)
          ELSE Ans(IF d[2] = Ev.k THEN d[1] ELSE 0) /\ UNCHANGED scopes
       /\ Keep
Use == Ev.e = "use" /\ Ans(Seen("o", Ev.n)[1]) /\ Stay
Tuse == Ev.e = "tuse" /\ (LET d == Seen("t", Ev.n)[1] IN Ans(IF d \in done THEN d ELSE 0)) /\ Stay
Ptr == Ev.e = "ptr" /\ Ans(IF out[Ev.i + 1] \in done THEN 1 ELSE 0) /\ Stay
Skipping == /\ skip > 0 /\ Ans(-1)
            /\ skip' = (IF Ev.e = "tbeg" THEN skip + 1 ELSE IF Ev.e = "tend" THEN skip - 1 ELSE skip)
            /\ UNCHANGED <<scopes, done, open>>
Step == /\ pc <= Len(C) /\ pc' = pc + 1 /\ UNCHANGED cid
        /\ IF skip > 0 THEN Skipping
           ELSE Open \/ Close \/ Ord \/ Ext \/ Tbeg \/ Tend \/ Fwd \/ Men \/ Use \/ Tuse \/ Ptr
Report == /\ pc = Len(C) + 1 /\ pc' = pc + 1 /\ PrintT(ToJson([cid |-> cid, out |-> out])) /\ UNCHANGED <<cid, scopes, done, skip, open, out>>
Done == pc = Len(C) + 2 /\ UNCHANGED vars
Init == (\E i \in 1..Len(Cases) : cid = i) /\ pc = 1 /\ scopes = <<NewScope>> /\ done = {} /\ skip = 0 /\ open = <<>> /\ out = <<>>
Next == Step \/ Report \/ Done
\* at least the file scope is open; it alone when the unit ends
Balanced == Len(scopes) >= 1 /\ (pc > Len(C) => Len(scopes) = 1 /\ open = <<>> /\ skip = 0)
\* a type being defined is visible or hidden, never complete
OpenIncomplete == \A j \in 1..Len(open) : open[j] \notin done
\* no declaration is in two scopes, except those with linkage and definitions
Private == \A d, e \in 1..Len(scopes) : d < e => \A n \in DOMAIN scopes[d].t : Has(scopes[e].t, n) => scopes[d].t[n][1] # scopes[e].t[n][1]
=============================================================================
