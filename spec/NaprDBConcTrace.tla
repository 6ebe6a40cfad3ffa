-------------------------- MODULE NaprDBConcTrace --------------------------
(* Every record is one execution of threads on the real database.            *)
EXTENDS NaprDBConc, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
RECURSIVE Fold(_, _, _)
Fold(h, i, s) == IF i > Len(h) THEN [bad |-> 0, s |-> s]
                 ELSE IF Can(s, h[i]) THEN Fold(h, i+1, Apply(s, h[i])) ELSE [bad |-> i, s |-> s]
Init == l = 1
Next == l <= Len(Trace) /\ LET v == Fold(Trace[l].h, 1, Start) IN
                           (IF v.bad = 0 THEN l' = l + 1
                            ELSE PrintT(<<"WHY", l, v.bad, ToString(Trace[l].h[v.bad])>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
