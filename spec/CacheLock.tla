----------------------------- MODULE CacheLock -----------------------------
(* Several processes and one cache file.  Operations are seen as call and     *)
(* return; a process may die at any moment.                                   *)
(*   st     process |-> "out", "opening", "in", "closing"                     *)
(*   other  process |-> while it was opening, somebody else was not out       *)
(*   cand   contents the file may hold: one, or two after a death during a    *)
(*          commit                                                            *)
(*   bad    the file was replaced by something that is not a cache           *)
(*   pend   process |-> the entry <<k, v>> of the commit in progress, or <<>> *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Procs == 1..4
Start == [st |-> [p \in Procs |-> "out"], other |-> [p \in Procs |-> FALSE], cand |-> {None}, pend |-> [p \in Procs |-> <<>>], bad |-> FALSE]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Shows(d, f) == /\ Len(d) = Cardinality(DOMAIN f)
               /\ \A i \in 1..Len(d) : d[i][1] \in DOMAIN f /\ f[d[i][1]] = d[i][2]
Others(s, p, S) == \E q \in Procs \ {p} : s.st[q] \in S
Can(s, e) ==
  CASE e.o = "opened" -> CASE e.rc = "ok" -> ~Others(s, e.p, {"in"}) /\ ~s.bad
                            [] e.rc = "busy" -> s.other[e.p]        (* somebody else was there *)
                            [] OTHER -> s.bad /\ ~Others(s, e.p, {"in"})
    [] e.o \in {"closed", "stored"} -> e.rc = "ok"
    [] e.o = "all" -> e.rc = "ok" /\ \E f \in s.cand : Shows(e.d, f)
    [] e.o \in {"open", "close", "store", "die"} -> TRUE
    [] e.o \in {"spoil", "mend"} -> \A q \in Procs : s.st[q] = "out"
    [] OTHER -> FALSE
Apply(s, e) ==
  CASE e.o = "open" -> [s EXCEPT !.st[e.p] = "opening",
                                 !.other = [q \in Procs |-> IF q = e.p THEN Others(s, q, {"opening", "in", "closing"}) ELSE s.other[q] \/ s.st[q] = "opening"]]
    [] e.o = "opened" -> IF e.rc = "ok" THEN [s EXCEPT !.st[e.p] = "in"] ELSE [s EXCEPT !.st[e.p] = "out"]
    [] e.o \in {"spoil", "mend"} -> [s EXCEPT !.bad = (e.o = "spoil")]
    [] e.o = "close" -> [s EXCEPT !.st[e.p] = "closing"]
    [] e.o = "closed" -> [s EXCEPT !.st[e.p] = "out"]
    [] e.o = "store" -> [s EXCEPT !.pend[e.p] = <<e.k, e.v>>]
    [] e.o = "stored" -> [s EXCEPT !.pend[e.p] = <<>>, !.cand = {With(f, s.pend[e.p][1], s.pend[e.p][2]) : f \in s.cand}]
    [] e.o = "all" -> [s EXCEPT !.cand = {f \in s.cand : Shows(e.d, f)}]
    [] e.o = "die" -> [s EXCEPT !.st[e.p] = "out", !.pend[e.p] = <<>>,
                                !.cand = IF s.pend[e.p] = <<>> THEN s.cand ELSE s.cand \cup {With(f, s.pend[e.p][1], s.pend[e.p][2]) : f \in s.cand}]
    [] OTHER -> s
=============================================================================
