------------------------------- MODULE NaprDB -------------------------------
(* What a user of the database observes.  Keys and values are numbers; keys    *)
(* are numbered in byte order.                                                 *)
(*                                                                             *)
(*   db    the committed contents: a function from keys to values              *)
(*   hist  all committed contents, oldest first (hist[1] is the empty one)     *)
(*   tries what was offered to commit on top of hist[i], successful or not     *)
(*   w     the write transaction: on, its view                                 *)
(*   rd    the read transactions: number |-> view                              *)
(*   cu    the cursors: number |-> [t, pos]; pos = 0: on no key                *)
(*   pg    the page report of the newest committed state, rp the pages of the  *)
(*         states the readers see; quiet counts commits since a reader existed *)
(*                                                                             *)
(* An event e carries the operation, its arguments and the answer; Can says    *)
(* whether the answer is allowed in state s, Apply gives the state after it.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Start == [db |-> None, hist |-> <<None>>, tries |-> <<{}>>, w |-> [on |-> FALSE, view |-> None], rd |-> None, cu |-> None,
          pg |-> [main |-> {}, fdb |-> {}, free |-> {}, last |-> 1, known |-> FALSE], rp |-> None, quiet |-> 0, small |-> FALSE]
MaxReaders == 126       (* so many read transactions at once are always possible *)
Range(q) == {q[i] : i \in 1..Len(q)}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
View(s, t) == IF t = 0 THEN s.w.view ELSE s.rd[t]
Above(f, k) == {x \in DOMAIN f : x > k}
Below(f, k) == {x \in DOMAIN f : x < k}
(* sizes that every page can hold, and sizes it may refuse *)
MustFit(e) == e.ks <= 1900 /\ e.ks + e.vs <= 4000
IsScan(d, f) == /\ Len(d) = Cardinality(DOMAIN f)
                /\ \A i \in 1..Len(d) : d[i][1] \in DOMAIN f /\ f[d[i][1]] = d[i][2]
                /\ \A i \in 1..Len(d)-1 : d[i][1] < d[i+1][1]
IsBack(d, f) == /\ Len(d) = Cardinality(DOMAIN f)
                /\ \A i \in 1..Len(d) : d[i][1] \in DOMAIN f /\ f[d[i][1]] = d[i][2]
                /\ \A i \in 1..Len(d)-1 : d[i][1] > d[i+1][1]
-----------------------------------------------------------------------------
(* x is the key a cursor moves to, 0: there is none *)
Least(x, S) == IF x = 0 THEN S = {} ELSE x \in S /\ \A y \in S : x <= y
Greatest(x, S) == IF x = 0 THEN S = {} ELSE x \in S /\ \A y \in S : x >= y
Moves(e, p, f, x) ==
  CASE e.m = "first"   -> Least(x, DOMAIN f)
    [] e.m = "last"    -> Greatest(x, DOMAIN f)
    [] e.m = "next"    -> Least(x, IF p = 0 THEN {} ELSE Above(f, p))
    [] e.m = "prev"    -> Greatest(x, IF p = 0 THEN {} ELSE Below(f, p))
    [] e.m = "set"     -> x = IF e.k \in DOMAIN f THEN e.k ELSE 0
    [] e.m = "range"   -> Least(x, Above(f, e.k - 1))
    [] e.m = "current" -> x = p
-----------------------------------------------------------------------------
(* Every page after the two meta pages is in the tree of keys, in the tree of  *)
(* free pages, or listed there: exactly one of the three, exactly once.        *)
Accounted(e) == /\ e.bad = ""
                /\ Cardinality(Range(e.main) \cup Range(e.fdb) \cup Range(e.free)) = Len(e.main) + Len(e.fdb) + Len(e.free)
                /\ Range(e.main) \cup Range(e.fdb) \cup Range(e.free) = 2..e.last
(* Nothing of the last committed state or of a reader's state was overwritten. *)
Spared(s, e) == /\ Range(e.wrote) \cap (s.pg.main \cup s.pg.fdb) = {}
                /\ \A t \in DOMAIN s.rp : Range(e.wrote) \cap s.rp[t] = {}
(* Free pages are used before the file grows (some slack for housekeeping).    *)
Reused(s, e) == (s.pg.known /\ s.quiet >= 2 /\ e.last > s.pg.last) => Cardinality(s.pg.free) <= 2 * Len(e.wrote) + 64
(* Once quiet, the file stays within a small multiple of what is alive.        *)
Level(s, e) == s.pg.last <= e.mult * (Cardinality(s.pg.main) + Cardinality(s.pg.fdb)) + e.slack
-----------------------------------------------------------------------------
(* Whole ranges of keys at once.  Fresh: those a put refuses, because they     *)
(* were inserted by this very transaction.                                     *)
Fresh(s, e) == {k \in e.a..e.b : k \in DOMAIN s.w.view /\ k \notin DOMAIN s.db}
Filled(s, e) == LET f == s.w.view  keep == Fresh(s, e) IN
                [k \in DOMAIN f \cup (e.a..e.b) |-> IF k < e.a \/ k > e.b \/ k \in keep THEN f[k] ELSE 1 + ((e.c + 7 * k) % e.nv)]
Cleared(e) == {k \in e.a..e.b : (k - e.a) % e.c = 0}
-----------------------------------------------------------------------------
Can(s, e) ==
  CASE e.o = "open"   -> e.rc = "ok"
    [] e.o = "begin"  -> e.rc = "ok" \/ (e.t > 0 /\ Cardinality(DOMAIN s.rd) >= MaxReaders)
    [] e.o = "put"    -> \/ e.rc = "ok" /\ ~(e.k \in DOMAIN s.w.view /\ e.k \notin DOMAIN s.db)
                         \/ e.rc = "exist" /\ e.k \in DOMAIN s.w.view /\ e.k \notin DOMAIN s.db
                         \/ e.rc \in {"full", "err"} /\ ~MustFit(e)
                         \/ e.rc = "full" /\ s.small
    [] e.o = "del"    -> e.rc = IF e.k \in DOMAIN s.w.view THEN "ok" ELSE "nf"
    [] e.o = "cdel"   -> e.rc = IF e.k \in DOMAIN s.w.view /\ s.w.view[e.k] = e.v THEN "ok" ELSE "nf"
    [] e.o = "get"    -> IF e.k \in DOMAIN View(s, e.t) THEN e.rc = "ok" /\ e.v = View(s, e.t)[e.k] ELSE e.rc = "nf"
    [] e.o = "fill"   -> e.rc = "ok" /\ e.odd = Cardinality(Fresh(s, e))
    [] e.o = "clear"  -> e.rc = "ok" /\ e.odd = Cardinality(Cleared(e) \ DOMAIN s.w.view)
    [] e.o = "spin"   -> e.rc = "ok"
    [] e.o = "all"    -> e.rc = "ok" /\ LET f == View(s, e.t) IN
                         \A k \in DOMAIN e.d : e.d[k] = IF k \in DOMAIN f THEN f[k] ELSE 0
    [] e.o = "held"   -> e.rc = "ok"
    [] e.o = "scan"   -> e.rc = "ok" /\ IsScan(e.d, View(s, e.t))
    [] e.o = "back"   -> e.rc = "ok" /\ IsBack(e.d, View(s, e.t))
    [] e.o = "commit" -> e.rc = "ok" \/ e.fault = 1 \/ (s.small /\ e.rc = "full")
    [] e.o \in {"abort", "end", "cursor", "cclose", "crashed"} -> e.rc = "ok"
    [] e.o = "cur"    -> LET f == View(s, e.t) IN
                         /\ IF e.rk = 0 THEN e.rc = "nf" ELSE e.rc = "ok" /\ e.rk \in DOMAIN f /\ e.rv = f[e.rk]
                         /\ Moves(e, s.cu[e.c].pos, f, e.rk)
    [] e.o = "pages"  -> e.rc = "ok" /\ Accounted(e) /\ Spared(s, e) /\ Reused(s, e)
    [] e.o = "crash"  -> /\ e.open = "ok" /\ e.rc = "ok" /\ e.follow = "ok"
                         /\ \/ IsScan(e.d, s.hist[e.done + 1])
                            \/ e.pend = 1 /\ \E f \in s.tries[e.done + 1] : IsScan(e.d, f)
    [] e.o = "level"  -> Level(s, e)
    [] OTHER -> FALSE
Apply(s, e) ==
  CASE e.o = "begin"  -> IF e.rc # "ok" THEN s
                         ELSE IF e.t = 0 THEN [s EXCEPT !.w = [on |-> TRUE, view |-> s.db]]
                         ELSE [s EXCEPT !.rd = With(s.rd, e.t, s.db), !.rp = With(s.rp, e.t, s.pg.main), !.quiet = 0]
    [] e.o = "put"    -> IF e.rc = "ok" THEN [s EXCEPT !.w.view = With(s.w.view, e.k, e.v)] ELSE s
    [] e.o = "fill"   -> [s EXCEPT !.w.view = Filled(s, e)]
    [] e.o = "clear"  -> [s EXCEPT !.w.view = LET gone == Cleared(e) IN [k \in DOMAIN s.w.view \ gone |-> s.w.view[k]]]
    [] e.o = "spin"   -> LET f == With(s.db, e.k, e.v) IN [s EXCEPT !.db = f, !.hist = Append(@, f), !.tries = Append(@, {})]
    [] e.o \in {"del", "cdel"} -> IF e.rc = "ok" THEN [s EXCEPT !.w.view = Without(s.w.view, e.k)] ELSE s
    [] e.o = "commit" -> LET t == [s EXCEPT !.w.on = FALSE, !.tries[Len(s.hist)] = @ \cup {s.w.view}]
                         IN IF e.rc = "ok" THEN [t EXCEPT !.db = s.w.view, !.hist = Append(s.hist, s.w.view), !.tries = Append(t.tries, {})] ELSE t
    [] e.o = "abort"  -> [s EXCEPT !.w.on = FALSE]
    [] e.o = "end"    -> [s EXCEPT !.rd = Without(s.rd, e.t), !.rp = Without(s.rp, e.t), !.quiet = 0]
    [] e.o = "cursor" -> [s EXCEPT !.cu = With(s.cu, e.c, [pos |-> 0])]
    [] e.o = "cclose" -> [s EXCEPT !.cu = Without(s.cu, e.c)]
    [] e.o = "cur"    -> [s EXCEPT !.cu = With(s.cu, e.c, [pos |-> e.rk])]
    [] e.o = "pages"  -> [s EXCEPT !.pg = [main |-> Range(e.main), fdb |-> Range(e.fdb), free |-> Range(e.free), last |-> e.last, known |-> TRUE],
                                   !.quiet = IF DOMAIN s.rd = {} THEN s.quiet + 1 ELSE 0]
    [] OTHER -> s
=============================================================================
