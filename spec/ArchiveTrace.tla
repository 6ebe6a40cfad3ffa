---------------------------- MODULE ArchiveTrace ----------------------------
(* One line per call of the real extraction:                                 *)
(*   a members [n, k, d: content id], reqs: the requests made by one process, *)
(*   one after the other or at the same time, each [n requested name, res],   *)
(*   res: [ok, d: content id of the file, private, regular],                  *)
(*   cut: "none", "inside" (the bytes of the member requested, or the room    *)
(*   for them, are incomplete) or "elsewhere", calls: changing calls on       *)
(*   anything but the temporary files, left: files left behind,              *)
(*   others: were the bystander files unchanged.                             *)
EXTENDS Naturals, Sequences, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Index(r, n) == LET s == {i \in 1..Len(r.a) : r.a[i].n = n} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Plain(r, n) == Index(r, n) > 0 /\ r.a[Index(r, n)].k = "file"
Answer(r, q) ==
  IF q.res.ok THEN /\ Plain(r, q.n) /\ r.cut # "inside"
                   /\ q.res.d = r.a[Index(r, q.n)].d /\ q.res.private /\ q.res.regular
  ELSE ~Plain(r, q.n) \/ r.cut # "none"
(* No request depends on the ones before it or beside it. *)
Conforms(r) == /\ \A i \in 1..Len(r.reqs) : Answer(r, r.reqs[i])
               /\ r.distinct /\ r.calls = <<>> /\ r.left = <<>> /\ r.others
Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1 ELSE PrintT(<<"WHY", l, Trace[l].reqs, Trace[l].distinct, Trace[l].cut, Trace[l].calls, Trace[l].left>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
