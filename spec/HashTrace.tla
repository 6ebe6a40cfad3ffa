---------------------------- MODULE HashTrace ------------------------------
(* Every record is one history of the real table: h = operations with answers.  *)
EXTENDS HashTable, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
RECURSIVE Fold(_, _, _)
Fold(h, i, s) == IF i > Len(h) THEN [bad |-> 0, s |-> s]
                 ELSE IF Can(s, h[i]) THEN Fold(h, i+1, Apply(s, h[i])) ELSE [bad |-> i, s |-> s]
Verdict(r) == Fold(r.h, 1, Empty)
Init == l = 1
Next == l <= Len(Trace) /\ (IF Verdict(Trace[l]).bad = 0 THEN l' = l + 1
                            ELSE PrintT(<<"WHY", l, Trace[l].h[Verdict(Trace[l]).bad], Verdict(Trace[l]).bad, Verdict(Trace[l]).s.n>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
