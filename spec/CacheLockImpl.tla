--------------------------- MODULE CacheLockImpl ---------------------------
(* How the cache keeps other processes out: an exclusive, non-blocking lock   *)
(* on a lock file that is never removed, taken before the database is touched *)
(* and given back after the database is closed; the kernel drops the lock of  *)
(* a process that dies.                                                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, Files, LockFirst, UnlockLast, KeepFile
VARIABLES name,   \* the lock file the path leads to, 0: none
          fd,     \* process |-> lock file it has open
          owner,  \* lock file |-> process that has locked it, 0: nobody
          pc, db  \* db: processes that have the database open
vars == <<name, fd, owner, pc, db>>
Init == /\ name = 0 /\ fd = [p \in Procs |-> 0] /\ owner = [f \in Files |-> 0]
        /\ pc = [p \in Procs |-> "out"] /\ db = {}
Go(p, x) == pc' = [pc EXCEPT ![p] = x]
OpenFile(p) == /\ pc[p] = "out"
               /\ \E f \in Files : /\ IF name # 0 THEN f = name ELSE \A q \in Procs : fd[q] # f /\ owner[f] = 0
                                   /\ name' = f /\ fd' = [fd EXCEPT ![p] = f]
               /\ Go(p, IF LockFirst THEN "lock" ELSE "dbfirst") /\ UNCHANGED <<owner, db>>
DbFirst(p) == pc[p] = "dbfirst" /\ db' = db \cup {p} /\ Go(p, "lock") /\ UNCHANGED <<name, fd, owner>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF owner[fd[p]] = 0 THEN owner' = [owner EXCEPT ![fd[p]] = p] /\ Go(p, IF LockFirst THEN "db" ELSE "in") /\ UNCHANGED <<fd, db>>
              ELSE fd' = [fd EXCEPT ![p] = 0] /\ db' = db \ {p} /\ Go(p, "out") /\ UNCHANGED owner
           /\ UNCHANGED name
OpenDb(p) == pc[p] = "db" /\ db' = db \cup {p} /\ Go(p, "in") /\ UNCHANGED <<name, fd, owner>>
Close(p) == pc[p] = "in" /\ Go(p, IF UnlockLast THEN "dbclose" ELSE "unlock") /\ UNCHANGED <<name, fd, owner, db>>
CloseDb(p) == pc[p] = "dbclose" /\ db' = db \ {p} /\ Go(p, IF UnlockLast THEN "unlock" ELSE "closefd") /\ UNCHANGED <<name, fd, owner>>
Unlock(p) == /\ pc[p] = "unlock" /\ owner' = [owner EXCEPT ![fd[p]] = 0]
             /\ Go(p, IF UnlockLast THEN (IF KeepFile THEN "closefd" ELSE "remove") ELSE "dbclose") /\ UNCHANGED <<name, fd, db>>
Remove(p) == pc[p] = "remove" /\ name' = 0 /\ Go(p, "closefd") /\ UNCHANGED <<fd, owner, db>>
CloseFd(p) == pc[p] = "closefd" /\ fd' = [fd EXCEPT ![p] = 0] /\ Go(p, "out") /\ UNCHANGED <<name, owner, db>>
Die(p) == /\ pc[p] # "out"
          /\ owner' = [f \in Files |-> IF owner[f] = p THEN 0 ELSE owner[f]]
          /\ fd' = [fd EXCEPT ![p] = 0] /\ db' = db \ {p} /\ Go(p, "out") /\ UNCHANGED name
Next == \E p \in Procs : OpenFile(p) \/ DbFirst(p) \/ Lock(p) \/ OpenDb(p) \/ Close(p) \/ CloseDb(p) \/ Unlock(p) \/ Remove(p) \/ CloseFd(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Lock(p) \/ OpenDb(p))
Exclusive == Cardinality(db) <= 1
(* when nobody else is around, opening succeeds *)
Alone(p) == \A q \in Procs \ {p} : pc[q] = "out"
NotLockedOut == \A p \in Procs : (pc[p] = "lock" /\ Alone(p)) => owner[fd[p]] = 0
=============================================================================
