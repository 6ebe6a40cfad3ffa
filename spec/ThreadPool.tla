----------------------------- MODULE ThreadPool -----------------------------
(* What users of the thread pool rely on, as operators on an abstract state    *)
(* and observable events:                                                     *)
(*   [e |-> "call", n]    the submission of task n begins                       *)
(*   [e |-> "ret", n]     it has been accepted                                 *)
(*   [e |-> "begin", n], [e |-> "end", n]   a worker runs task n               *)
(*   [e |-> "wait", n], [e |-> "waited", n] client n waits                     *)
(*   [e |-> "shut", n], [e |-> "gone", n]   shutdown begins / has returned with *)
(*                        n workers still alive                               *)
(*   [e |-> "deny", n]    the system is going to refuse the n-th worker thread  *)
(*   [e |-> "nopool", n]  the pool could not be created, n workers left behind  *)
EXTENDS Naturals, FiniteSets, Sequences

Fresh == [called |-> {}, acc |-> {}, run |-> {}, done |-> {}, owed |-> {}, shut |-> "no", deny |-> FALSE]
(* owed: [c, ts] for client c that waits: the tasks accepted before          *)

Can(s, x) ==
  CASE x.e = "call"   -> x.n \notin s.called /\ s.shut = "no"
    [] x.e = "ret"    -> x.n \in s.called /\ x.n \notin s.acc
    [] x.e = "begin"  -> x.n \in s.called /\ x.n \notin s.run /\ x.n \notin s.done /\ s.shut # "gone"
    [] x.e = "end"    -> x.n \in s.run
    [] x.e = "wait"   -> \A o \in s.owed : o.c # x.n
    [] x.e = "waited" -> \E o \in s.owed : o.c = x.n /\ o.ts \subseteq s.done
    [] x.e = "shut"   -> s.shut = "no"
    [] x.e = "gone"   -> s.shut = "called" /\ s.run = {} /\ x.n = 0
    [] x.e = "deny"   -> s = Fresh
    [] x.e = "nopool" -> s = [Fresh EXCEPT !.deny = TRUE] /\ x.n = 0
    [] OTHER          -> FALSE
Apply(s, x) ==
  CASE x.e = "call"   -> [s EXCEPT !.called = @ \cup {x.n}]
    [] x.e = "ret"    -> [s EXCEPT !.acc = @ \cup {x.n}]
    [] x.e = "begin"  -> [s EXCEPT !.run = @ \cup {x.n}]
    [] x.e = "end"    -> [s EXCEPT !.run = @ \ {x.n}, !.done = @ \cup {x.n}]
    [] x.e = "wait"   -> [s EXCEPT !.owed = @ \cup {[c |-> x.n, ts |-> s.acc]}]
    [] x.e = "waited" -> [s EXCEPT !.owed = {o \in @ : o.c # x.n}]
    [] x.e = "shut"   -> [s EXCEPT !.shut = "called"]
    [] x.e = "gone"   -> [s EXCEPT !.shut = "gone"]
    [] x.e = "deny"   -> [s EXCEPT !.deny = TRUE]
    [] x.e = "nopool" -> [s EXCEPT !.shut = "gone"]
    [] OTHER          -> s
(* An ended history: the pool is gone, nobody waits any more.                  *)
Ended(s) == s.shut = "gone" /\ s.owed = {} /\ s.run = {} /\ s.acc = s.called
=============================================================================
