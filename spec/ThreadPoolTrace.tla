--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Every record is one complete history of the real pool under one schedule:   *)
(* h = sequence of events, strict: all tasks must have run, want: "tasks"       *)
(* (every task exactly once) or "waits" (waiting and shutdown).  A schedule    *)
(* that cannot go on is recorded as the event "stuck", a crash as "crash".      *)
EXTENDS ThreadPool, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
May(s, x, want) ==
  IF x.e = "stuck" THEN want = "tasks" /\ s.acc \subseteq s.done
  ELSE IF want = "tasks" THEN (IF x.e \in {"wait", "waited", "gone", "shut", "nopool"} THEN TRUE ELSE Can(s, x))
  ELSE IF x.e \in {"begin", "end"} THEN TRUE ELSE Can(s, x)
RECURSIVE Fold(_, _, _, _)
Fold(h, i, s, want) == IF i > Len(h) THEN [bad |-> 0, s |-> s]
                 ELSE IF May(s, h[i], want) THEN Fold(h, i+1, Apply(s, h[i]), want) ELSE [bad |-> i, s |-> s]
(* Runs at scale (tens of thousands of tasks, hundreds of workers) are recorded *)
(* in counts: per batch, what was accepted and finished when the wait returned, *)
(* and how often one task was run; gone: workers alive after the shutdown (-1:  *)
(* it did not return).                                                         *)
Bulk(r) == IF r.want = "tasks"
           THEN /\ \A i \in 1..Len(r.b) : r.b[i].most = 1 /\ r.b[i].done <= r.b[i].acc
                /\ (Len(r.b) = r.batches => r.b[r.batches].done = r.b[r.batches].acc /\ r.b[r.batches].acc = r.all)
           ELSE Len(r.b) = r.batches /\ r.gone = 0 /\ \A i \in 1..Len(r.b) : r.b[i].done = r.b[i].acc
Single(r) == LET f == Fold(r.h, 1, Fresh, r.want)
               IN /\ f.bad = 0
                  /\ IF r.want = "tasks" THEN (r.strict /\ f.s.shut = "gone" => f.s.done = f.s.called)
                     ELSE Ended(f.s)
Conforms(r) == IF "b" \in DOMAIN r THEN Bulk(r) ELSE Single(r)
Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1
                            ELSE PrintT(<<"WHY", l, IF "b" \in DOMAIN Trace[l] THEN Trace[l] ELSE Fold(Trace[l].h, 1, Fresh, Trace[l].want)>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
