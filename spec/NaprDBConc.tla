----------------------------- MODULE NaprDBConc -----------------------------
(* Threads sharing one database.  Operations are seen as call and return.      *)
(*                                                                             *)
(*   st   committed contents in order of commitment (st[1]: empty)             *)
(*   seen index of the newest state known to be visible: its commit returned,  *)
(*        or a transaction has already read it                                 *)
(*   w    the write transaction that has begun and whose end was not called, 0 *)
(*   view its contents                                                         *)
(*   of   commit number |-> index of the state it made                         *)
(*   rd   reader |-> [lo, hi: states it may show; fixed; d: what it showed]     *)
(* A commit takes effect between call and return; a reader shows one state     *)
(* that was the newest at some moment between call and return of its begin.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Start == [st |-> <<None>>, seen |-> 1, w |-> 0, view |-> None, of |-> None, rd |-> None]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b
Shows(d, f) == /\ Len(d) = Cardinality(DOMAIN f)
               /\ \A i \in 1..Len(d) : d[i][1] \in DOMAIN f /\ f[d[i][1]] = d[i][2]
               /\ \A i \in 1..Len(d)-1 : d[i][1] < d[i+1][1]
Fits(s, r, d) == {i \in r.lo..r.hi : Shows(d, s.st[i])}
-----------------------------------------------------------------------------
Can(s, e) ==
  CASE e.e = "b" -> s.w = 0
    [] e.e = "put" -> s.w = e.t /\ e.rc = 0
    [] e.e = "del" -> s.w = e.t /\ e.rc = IF e.k \in DOMAIN s.view THEN 0 ELSE 1
    [] e.e = "s" -> IF e.t = s.w THEN Shows(e.d, s.view)
                    ELSE e.t \in DOMAIN s.rd /\ IF s.rd[e.t].fixed THEN e.d = s.rd[e.t].d ELSE Fits(s, s.rd[e.t], e.d) # {}
    [] e.e \in {"C", "A"} -> s.w = e.t
    [] e.e \in {"B", "c", "n", "a", "R", "r", "E", "e"} -> TRUE
    [] OTHER -> FALSE       (* refused, failed without a fault, stuck, crash *)
Apply(s, e) ==
  CASE e.e = "b" -> [s EXCEPT !.w = e.t, !.view = s.st[Len(s.st)], !.seen = Len(s.st)]
    [] e.e = "put" -> [s EXCEPT !.view = With(s.view, e.k, e.v)]
    [] e.e = "del" -> IF e.rc = 0 THEN [s EXCEPT !.view = Without(s.view, e.k)] ELSE s
    [] e.e = "s" -> IF e.t = s.w \/ s.rd[e.t].fixed THEN s
                    ELSE LET fit == Fits(s, s.rd[e.t], e.d)
                             least == CHOOSE i \in fit : \A j \in fit : i <= j
                         IN [s EXCEPT !.rd[e.t].fixed = TRUE, !.rd[e.t].d = e.d, !.seen = Max(s.seen, least)]
    [] e.e = "C" -> IF e.ok THEN [s EXCEPT !.w = 0, !.st = Append(s.st, s.view), !.of = With(s.of, e.t, Len(s.st) + 1)] ELSE [s EXCEPT !.w = 0]
    [] e.e = "A" -> [s EXCEPT !.w = 0]
    [] e.e = "c" -> [s EXCEPT !.seen = Max(s.seen, s.of[e.t])]
    [] e.e = "R" -> [s EXCEPT !.rd = With(s.rd, e.t, [lo |-> s.seen, hi |-> 0, fixed |-> FALSE, d |-> <<>>])]
    [] e.e = "r" -> [s EXCEPT !.rd[e.t].hi = Len(s.st)]
    [] e.e = "E" -> [s EXCEPT !.rd = Without(s.rd, e.t)]
    [] OTHER -> s
=============================================================================
