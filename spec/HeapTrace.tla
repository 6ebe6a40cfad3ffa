------------------------------ MODULE HeapTrace ------------------------------
(* Every record is one history of the real heap: h = operations with answers.  *)
(* kind "seq": operations of one thread, in order.                             *)
(* kind "par": the insertions of several threads (all before the rest), whose  *)
(* order is not visible: elements are numbered by the caller, h[1] has them.   *)
EXTENDS Heap, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
RECURSIVE Fold(_, _, _)
Fold(h, i, s) == IF i > Len(h) THEN [bad |-> 0, s |-> s]
                 ELSE IF Can(s, h[i]) THEN Fold(h, i+1, Apply(s, h[i])) ELSE [bad |-> i, s |-> s]
Start(r) == IF r.kind = "par" THEN [in |-> 1..Len(r.ranks), rk |-> r.ranks] ELSE Empty
Verdict(r) == Fold(r.h, 1, Start(r))
Init == l = 1
Next == l <= Len(Trace) /\ (IF Verdict(Trace[l]).bad = 0 THEN l' = l + 1
                            ELSE PrintT(<<"WHY", l, Trace[l].h[Verdict(Trace[l]).bad], Verdict(Trace[l]).bad, Cardinality(Verdict(Trace[l]).s.in)>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
