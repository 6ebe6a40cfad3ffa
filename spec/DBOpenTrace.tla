---------------------------- MODULE DBOpenTrace ----------------------------
(* Histories of real files: see harness/db_open.c for the events.            *)
EXTENDS Naturals, Sequences, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
D == INSTANCE DBOpen WITH Keys <- 1..3, Values <- 1..200, file <- 0, open <- 0, hist <- 0
RECURSIVE Run(_, _, _, _)
(* ev from i on, the file being f and the environment m ("no", "ro", "rw"); 0 if all is allowed, otherwise the event *)
Run(ev, i, f, m) ==
  IF i > Len(ev) THEN 0
  ELSE LET e == ev[i] IN
    CASE e.o = "open" ->
           LET w == D!Outcome(f, e.create, e.ro, e.small)
               g == D!AfterOpen(f, e.create, e.ro, e.small)
           IN IF w = "refuse" THEN (IF e.rc = "no" /\ e.same /\ e.held = 0 THEN Run(ev, i + 1, f, "no") ELSE i)
              ELSE IF e.rc = "ok" /\ (w = "show" => e.same) /\ e.c = D!Shown(g) THEN Run(ev, i + 1, g, IF e.ro THEN "ro" ELSE "rw") ELSE i
      [] e.o = "put" ->
           LET c == [D!Shown(f) EXCEPT ![e.k] = e.v] IN
           IF m = "ro" \/ (e.rc = "no" /\ e.tight)
           THEN (IF e.rc = "no" /\ (m = "ro" => e.same) /\ e.c = D!Shown(f) THEN Run(ev, i + 1, f, m) ELSE i)
           ELSE IF e.rc = "ok" /\ e.c = c THEN Run(ev, i + 1, D!Committed(f, c), m) ELSE i
      [] e.o = "close" -> IF e.held = 0 THEN Run(ev, i + 1, f, "no") ELSE i
      [] e.o = "damage" -> Run(ev, i + 1, IF f.kind = "db" THEN D!Normal(D!Damaged(f, e.which)) ELSE D!Other("foreign"), m)
      [] e.o = "longer" -> Run(ev, i + 1, f, m)
      [] e.o = "remove" -> Run(ev, i + 1, D!Other("absent"), m)
      [] e.o = "died" -> i
      [] OTHER -> Run(ev, i + 1, D!Other(e.o), m)
Bad(r) == Run(r.ev, 1, D!Other("absent"), "no")
Init == l = 1
Next == l <= Len(Trace) /\ (IF Bad(Trace[l]) = 0 THEN l' = l + 1 ELSE PrintT(<<"WHY", l, Bad(Trace[l]), Trace[l].ev[Bad(Trace[l])]>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
