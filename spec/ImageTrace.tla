----------------------------- MODULE ImageTrace -----------------------------
(* Runs of the real command in image mode.                                   *)
(*  w: world (as in World), imgs: sequence of [p, ok], dist: sequence of       *)
(*  [a, b, d, near, rank] over indices of imgs (distances measured by          *)
(*  libpuzzle outside ftwin; near: undecidable, the order matters),           *)
(*  level: 0 (default) to 5, out: sequence of blocks, each a sequence of paths *)
(*  (the first one is close to all others), rc.                               *)
EXTENDS World, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
(* limits 0.2, 0.3, 0.5, 0.6, 0.7; rank: the number of limits the distance reaches *)
Level(level) == IF level = 0 THEN 1 ELSE level
Conforms(r) ==
  LET cons == Considered(r.w)
      live == {i \in 1..Len(r.imgs) : r.imgs[i].ok /\ r.imgs[i].p \in cons}
      pr(e) == {r.imgs[e.a].p, r.imgs[e.b].p}
      mine == {i \in 1..Len(r.dist) : r.dist[i].a \in live /\ r.dist[i].b \in live}
      must == {pr(r.dist[i]) : i \in {j \in mine : ~r.dist[j].near /\ r.dist[j].rank < Level(r.level)}}
      may  == {pr(r.dist[i]) : i \in {j \in mine : r.dist[j].near}}
      shown == UNION {{<<i, j>> : j \in 2..Len(r.out[i])} : i \in 1..Len(r.out)}
      pairs == {{r.out[x[1]][1], r.out[x[1]][x[2]]} : x \in shown}
  IN /\ r.rc = (IF cons = {} THEN 255 ELSE 0)
     /\ \A i \in 1..Len(r.out) : Len(r.out[i]) >= 2
     /\ Cardinality(pairs) = Cardinality(shown)
     /\ \A s \in pairs : Cardinality(s) = 2
     /\ must \subseteq pairs /\ pairs \subseteq (must \cup may)
Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1 ELSE PrintT(<<"WHY", l, Trace[l].out, Considered(Trace[l].w)>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
