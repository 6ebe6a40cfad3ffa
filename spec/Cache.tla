------------------------------- MODULE Cache -------------------------------
(* The cache as its user sees it: stored entries by path, marks since the last *)
(* sweep, one transaction at a time.  Events carry the answer of the real      *)
(* cache; Can judges it, Apply gives the next state.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Start == [db |-> None, view |-> None, tx |-> "no", marks |-> {}, open |-> FALSE]
Fill(f, ks, v) == [x \in DOMAIN f \cup ks |-> IF x \in ks THEN v + x ELSE f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Shows(d, f) == /\ Len(d) = Cardinality(DOMAIN f)
               /\ \A i \in 1..Len(d) : d[i][1] \in DOMAIN f /\ f[d[i][1]] = d[i][2]
Can(s, e) ==
  CASE e.o = "open" -> ~s.open /\ e.rc = "ok"
    [] e.o \in {"close", "beginr", "beginw", "endr", "abort", "mark", "fill"} -> e.rc = "ok"
    [] e.o = "put" -> e.rc = "ok" \/ e.ks > 1900          (* paths that long may be refused *)
    [] e.o = "get" -> IF e.k \in DOMAIN s.view THEN e.rc = "ok" /\ e.v = s.view[e.k] ELSE e.rc = "nf"
    [] e.o = "all" -> e.rc = "ok" /\ Shows(e.d, s.view)
    [] e.o \in {"commit", "sweep"} -> e.rc = "ok" \/ e.fault = 1
    [] OTHER -> FALSE
Apply(s, e) ==
  CASE e.o = "open" -> [s EXCEPT !.open = TRUE, !.marks = {}, !.tx = "no"]
    [] e.o = "close" -> [s EXCEPT !.open = FALSE]
    [] e.o \in {"beginr", "beginw"} -> [s EXCEPT !.tx = e.o, !.view = s.db]
    [] e.o = "put" -> IF e.rc = "ok" THEN [s EXCEPT !.view = With(s.view, e.k, e.v)] ELSE s
    [] e.o = "fill" -> [s EXCEPT !.view = Fill(s.view, e.a..e.b, e.v)]
    [] e.o = "commit" -> IF e.rc = "ok" THEN [s EXCEPT !.db = s.view, !.tx = "no"] ELSE [s EXCEPT !.tx = "no"]
    [] e.o \in {"abort", "endr"} -> [s EXCEPT !.tx = "no"]
    [] e.o = "mark" -> [s EXCEPT !.marks = s.marks \cup (e.a..e.b)]
    [] e.o = "sweep" -> IF e.rc = "ok" THEN [s EXCEPT !.db = Only(s.db, s.marks), !.marks = {}] ELSE s
    [] OTHER -> s
=============================================================================
