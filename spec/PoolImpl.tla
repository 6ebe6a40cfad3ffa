------------------------------ MODULE PoolImpl ------------------------------
(* The pool's algorithm: one mutex, condition `update' (work for the workers)  *)
(* and condition `done' (for the waiting clients), counters and flags, with    *)
(* wake-ups in any order and spurious ones.  A critical section is one step.   *)
(* Every step reports its events to the abstract state s of ThreadPool.        *)
(* Workers are created one by one; the system may refuse the n-th.             *)
(* Precautions the algorithm rests on (the check also removes each):           *)
(*   "loop"  a client that wakes up looks at the condition again               *)
(*   "done"  clients wait on a condition of their own                          *)
(*   "reset" a submission reopens a pool that had run dry                      *)
(*   "all"   the pool is dry only when every worker waits                      *)
(*   "undo"  a refused worker ends those created before it                     *)
EXTENDS ThreadPool, TLC
CONSTANTS NW, Script, MaxSpur, Refusals, Care
(* Script: sequence over clients of sequences of "s" (submit), "w" (wait)      *)
Workers == 1..NW
Clients == 1..Len(Script)
VARIABLES pc, task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, s, ok, born, refuse
vars == <<pc, task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, s, ok, born, refuse>>
Do(x) == s' = Apply(s, x) /\ ok' = (ok /\ Can(s, x))
NoEvent == UNCHANGED <<s, ok>>

Init == /\ pc = [w \in Workers |-> "unborn"] /\ task = [w \in Workers |-> 0]
        /\ list = <<>> /\ ended = FALSE /\ run = FALSE /\ shutdown = FALSE /\ nwaiting = 0
        /\ cpc = [c \in Clients |-> "idle"] /\ pos = [c \in Clients |-> 1]
        /\ next = 1 /\ spur = MaxSpur /\ s = Fresh /\ ok = TRUE
        /\ born = 0 /\ refuse \in Refusals

(* ---- creation: the refused worker is number `refuse' (0: none) ---- *)
Denied == refuse # 0 /\ born + 1 = refuse
Start == born = NW
Create == /\ born < NW /\ ~Denied /\ born' = born + 1 /\ pc' = [pc EXCEPT ![born + 1] = "ready"]
          /\ NoEvent /\ UNCHANGED <<task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, refuse>>
Deny == /\ Denied /\ ~s.deny /\ Do([e |-> "deny", n |-> refuse])
        /\ IF "undo" \in Care
           THEN shutdown' = TRUE /\ pc' = [w \in Workers |-> IF pc[w] = "waiting" THEN "woken" ELSE pc[w]]
           ELSE UNCHANGED <<shutdown, pc>>
        /\ UNCHANGED <<task, list, ended, run, nwaiting, cpc, pos, next, spur, born, refuse>>
Living == {w \in Workers : pc[w] \notin {"unborn", "exit"}}
NoPool == /\ s.deny /\ s.shut = "no" /\ ("undo" \in Care => Living = {})
          /\ Do([e |-> "nopool", n |-> Cardinality(Living)])
          /\ UNCHANGED <<pc, task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, born, refuse>>

(* ---- workers ---- *)
WorkerStep(w) ==
  /\ pc[w] \in {"ready", "woken"}
  /\ LET nw == IF pc[w] = "woken" THEN nwaiting - 1 ELSE nwaiting
     IN IF shutdown THEN /\ pc' = [pc EXCEPT ![w] = "exit"] /\ nwaiting' = nw
                         /\ NoEvent /\ UNCHANGED <<task, list, ended, cpc>>
        ELSE IF list # <<>> /\ ~ended
        THEN /\ pc' = [pc EXCEPT ![w] = "running"] /\ task' = [task EXCEPT ![w] = Head(list)]
             /\ list' = Tail(list) /\ nwaiting' = nw /\ Do([e |-> "begin", n |-> Head(list)])
             /\ UNCHANGED <<ended, cpc>>
        ELSE /\ nwaiting' = nw + 1 /\ pc' = [pc EXCEPT ![w] = "waiting"]
             /\ IF ~ended /\ run /\ (nw + 1 = NW \/ "all" \notin Care)
                THEN ended' = TRUE /\ cpc' = [c \in Clients |-> IF cpc[c] = "waiting" THEN "woken" ELSE cpc[c]]
                ELSE UNCHANGED <<ended, cpc>>
             /\ NoEvent /\ UNCHANGED <<task, list>>
  /\ UNCHANGED <<run, shutdown, pos, next, spur, born, refuse>>
Finish(w) == /\ pc[w] = "running" /\ pc' = [pc EXCEPT ![w] = "ready"] /\ Do([e |-> "end", n |-> task[w]])
             /\ UNCHANGED <<task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, born, refuse>>

(* ---- clients ---- *)
Cur(c) == IF pos[c] <= Len(Script[c]) THEN Script[c][pos[c]] ELSE "stop"
CallSubmit(c) == /\ Start /\ cpc[c] = "idle" /\ Cur(c) = "s" /\ cpc' = [cpc EXCEPT ![c] = "adding"]
                 /\ next' = next + 1 /\ task' = task
                 /\ Do([e |-> "call", n |-> next]) /\ pos' = pos
                 /\ list' = Append(list, next) /\ ended' = (ended /\ "reset" \notin Care)      \* the critical section of add
                 /\ UNCHANGED <<pc, run, shutdown, nwaiting, spur, born, refuse>>
Signal(c) == /\ cpc[c] = "adding"
             /\ LET ws == {w \in Workers : pc[w] = "waiting"}
                    cs == IF "done" \in Care THEN {} ELSE {d \in Clients : cpc[d] = "waiting"}
                    here == [cpc EXCEPT ![c] = "added"]
                IN \/ ws = {} /\ cs = {} /\ pc' = pc /\ cpc' = here
                   \/ \E w \in ws : pc' = [pc EXCEPT ![w] = "woken"] /\ cpc' = here
                   \/ \E d \in cs : pc' = pc /\ cpc' = [here EXCEPT ![d] = "woken"]
             /\ NoEvent
             /\ UNCHANGED <<task, list, ended, run, shutdown, nwaiting, pos, next, spur, born, refuse>>
RetSubmit(c) == /\ cpc[c] = "added" /\ cpc' = [cpc EXCEPT ![c] = "idle"] /\ pos' = [pos EXCEPT ![c] = @ + 1]
                /\ \E n \in s.called \ s.acc : (\A m \in s.called \ s.acc : n <= m) /\ Do([e |-> "ret", n |-> n])
                /\ UNCHANGED <<pc, task, list, ended, run, shutdown, nwaiting, next, spur, born, refuse>>
CallWait(c) == /\ Start /\ cpc[c] = "idle" /\ Cur(c) = "w" /\ cpc' = [cpc EXCEPT ![c] = "entering"]
               /\ Do([e |-> "wait", n |-> c])
               /\ UNCHANGED <<pc, task, list, ended, run, shutdown, nwaiting, pos, next, spur, born, refuse>>
WaitStep(c) == /\ cpc[c] \in {"entering", "woken"}
               /\ IF ~ended /\ (list # <<>> \/ nwaiting # NW) /\ (cpc[c] = "entering" \/ "loop" \in Care)
                  THEN cpc' = [cpc EXCEPT ![c] = "waiting"] /\ run' = TRUE /\ NoEvent /\ UNCHANGED <<pos, list>>
                  ELSE /\ cpc' = [cpc EXCEPT ![c] = "idle"] /\ pos' = [pos EXCEPT ![c] = @ + 1]
                       /\ run' = (IF cpc[c] = "woken" THEN FALSE ELSE run)
                       /\ list' = <<>> /\ Do([e |-> "waited", n |-> c])
               /\ UNCHANGED <<pc, task, ended, shutdown, nwaiting, next, spur, born, refuse>>
AllStopped == \A c \in Clients : cpc[c] = "idle" /\ Cur(c) = "stop"
Shutdown == /\ Start /\ AllStopped /\ ~shutdown /\ shutdown' = TRUE
            /\ pc' = [w \in Workers |-> IF pc[w] = "waiting" THEN "woken" ELSE pc[w]]
            /\ Do([e |-> "shut", n |-> 0])
            /\ UNCHANGED <<task, list, ended, run, nwaiting, cpc, pos, next, spur, born, refuse>>
Gone == /\ shutdown /\ s.shut = "called" /\ \A w \in Workers : pc[w] = "exit"
        /\ Do([e |-> "gone", n |-> 0])
        /\ UNCHANGED <<pc, task, list, ended, run, shutdown, nwaiting, cpc, pos, next, spur, born, refuse>>
Spurious == /\ spur > 0 /\ spur' = spur - 1 /\ NoEvent
            /\ \/ \E w \in Workers : pc[w] = "waiting" /\ pc' = [pc EXCEPT ![w] = "woken"] /\ cpc' = cpc
               \/ \E c \in Clients : cpc[c] = "waiting" /\ cpc' = [cpc EXCEPT ![c] = "woken"] /\ pc' = pc
            /\ UNCHANGED <<task, list, ended, run, shutdown, nwaiting, pos, next, born, refuse>>
Over == s.shut = "gone" /\ UNCHANGED vars
Step == \/ \E w \in Workers : WorkerStep(w) \/ Finish(w)
        \/ \E c \in Clients : CallSubmit(c) \/ Signal(c) \/ RetSubmit(c) \/ CallWait(c) \/ WaitStep(c)
        \/ Shutdown \/ Gone \/ Over \/ Create \/ Deny \/ NoPool
Next == Step \/ Spurious
Fair == /\ \A w \in Workers : WF_vars(WorkerStep(w)) /\ WF_vars(Finish(w))
        /\ \A c \in Clients : /\ WF_vars(CallSubmit(c)) /\ WF_vars(Signal(c)) /\ WF_vars(RetSubmit(c))
                              /\ WF_vars(CallWait(c)) /\ WF_vars(WaitStep(c))
        /\ WF_vars(Shutdown) /\ WF_vars(Gone) /\ WF_vars(Create) /\ WF_vars(Deny) /\ WF_vars(NoPool)
Spec == Init /\ [][Next]_vars /\ Fair
Sound == ok
NoDeadlock == s.shut = "gone" \/ ENABLED Step
Terminates == <>(s.shut = "gone")
WaitedAllDone == (s.shut = "gone" /\ ~s.deny /\ \A c \in Clients : Script[c] # <<>> /\ Script[c][Len(Script[c])] = "w") => s.done = s.called
=============================================================================
