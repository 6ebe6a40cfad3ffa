---------------------------- MODULE ProgressImpl ----------------------------
(* The workers of the code: each takes a file, reads it, and then, holding the *)
(* lock of the counters, counts it and shows the count.  Refines Progress;     *)
(* without the lock (Locked = FALSE) it does not.                              *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Files, Bad, Workers, Locked
VARIABLES queue, pc, file, reg, counter, lock, shown, named
vars == <<queue, pc, file, reg, counter, lock, shown, named>>
None == "none"
Init == /\ queue = Files /\ pc = [w \in Workers |-> "idle"] /\ file = [w \in Workers |-> None] /\ reg = [w \in Workers |-> 0]
        /\ counter = 0 /\ lock = None /\ shown = <<>> /\ named = {}
Take(w) == /\ pc[w] = "idle"
           /\ \E f \in queue : queue' = queue \ {f} /\ file' = [file EXCEPT ![w] = f]
           /\ pc' = [pc EXCEPT ![w] = "read"] /\ UNCHANGED <<reg, counter, lock, shown, named>>
ReadGood(w) == /\ pc[w] = "read" /\ file[w] \notin Bad /\ pc' = [pc EXCEPT ![w] = "lock"] /\ UNCHANGED <<queue, file, reg, counter, lock, shown, named>>
ReadBad(w) == /\ pc[w] = "read" /\ file[w] \in Bad /\ named' = named \cup {file[w]}
              /\ file' = [file EXCEPT ![w] = None]
              /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<queue, reg, counter, lock, shown>>
Lock(w) == /\ pc[w] = "lock" /\ (Locked => lock = None) /\ lock' = (IF Locked THEN w ELSE lock)
           /\ pc' = [pc EXCEPT ![w] = "load"] /\ UNCHANGED <<queue, file, reg, counter, shown, named>>
Load(w) == /\ pc[w] = "load" /\ reg' = [reg EXCEPT ![w] = counter] /\ pc' = [pc EXCEPT ![w] = "store"] /\ UNCHANGED <<queue, file, counter, lock, shown, named>>
Store(w) == /\ pc[w] = "store" /\ counter' = reg[w] + 1 /\ pc' = [pc EXCEPT ![w] = "show"] /\ UNCHANGED <<queue, file, reg, lock, shown, named>>
Show(w) == /\ pc[w] = "show" /\ shown' = Append(shown, counter) /\ file' = [file EXCEPT ![w] = None]
           /\ pc' = [pc EXCEPT ![w] = "unlock"] /\ UNCHANGED <<queue, reg, counter, lock, named>>
Unlock(w) == /\ pc[w] = "unlock" /\ lock' = (IF Locked THEN None ELSE lock) /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<queue, file, reg, counter, shown, named>>
Next == \E w \in Workers : Take(w) \/ ReadGood(w) \/ ReadBad(w) \/ Lock(w) \/ Load(w) \/ Store(w) \/ Show(w) \/ Unlock(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Take(w) \/ ReadGood(w) \/ ReadBad(w) \/ Load(w) \/ Store(w) \/ Show(w) \/ Unlock(w)) /\ SF_vars(Lock(w))
Held == {file[w] : w \in Workers} \ {None}
Abs == INSTANCE Progress WITH todo <- queue \cup Held
Refines == Abs!ASpec
Done == queue = {} /\ \A w \in Workers : pc[w] = "idle"
AllTold == Done => Abs!Complete(shown, named, Cardinality(Files)) /\ named = Bad
Ends == <>Done
=============================================================================
