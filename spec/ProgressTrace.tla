--------------------------- MODULE ProgressTrace ---------------------------
(* What real runs wrote to standard error with -v.  One record per run:       *)
(*   mode "files", "images" or "json"; same: standard output and exit status   *)
(*   are those of the run without -v; ev: the events, in order,              *)
(*     [k |-> "ref"|"rep"|"p"|"c"|"skip"|"cmp"|"link"|"off", n, of, pct, a, b, why]*)
(*   bad: files that could not be read [p, why] (why "" : any reason),         *)
(*   must: those of them the report has to name, links: dangling links met,   *)
(*   n: images examined, r: those of them that are readable.                 *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
P == INSTANCE Progress WITH Files <- {}, Bad <- {}, todo <- {}, shown <- <<>>, named <- {}
Of(r, kind) == SelectSeq(r.ev, LAMBDA e : e.k = kind)
Set(s) == {s[i] : i \in 1..Len(s)}
Percent(e) == e.of > 0 => LET x == (100 * e.n) \div e.of IN (e.pct = x \/ e.pct + 1 = x) /\ (e.n = e.of => e.pct = 100)
Files(r) ==
  LET p == Of(r, "p") s == Of(r, "skip") c == Of(r, "cmp") lk == Of(r, "link")
      bad == {x.p : x \in Set(r.bad)}
      told == {e.a : e \in Set(s)}
  IN /\ \A e \in Set(p) : e.of = p[1].of /\ Percent(e)
     /\ Cardinality(told) = Len(s) /\ told \subseteq bad
     /\ p # <<>> => P!Complete([i \in 1..Len(p) |-> p[i].n], told, p[1].of)
     /\ \A e \in Set(s) : \E x \in Set(r.bad) : x.p = e.a /\ e.why # "" /\ x.why \in {"", e.why}
     /\ \A e \in Set(c) : {e.a, e.b} \cap bad # {} /\ e.why # ""
     /\ Set(r.must) \subseteq (told \cup UNION {{e.a, e.b} : e \in Set(c)})
     /\ {e.a : e \in Set(lk)} = Set(r.links) /\ Len(lk) = Cardinality(Set(r.links))
     /\ Of(r, "c") = <<>>
Rises(p, last) == /\ \A i \in 1..(Len(p) - 1) : p[i + 1].n = p[i].n + 1
                  /\ p # <<>> => p[1].n \in {0, 1} /\ p[Len(p)].n = last
Images(r) ==
  LET p == Of(r, "p") c == Of(r, "c")
  IN /\ p # <<>> /\ c # <<>>
     /\ \A e \in Set(p) : e.of = r.n /\ Percent(e)
     /\ Rises(p, r.n)
     /\ \A e \in Set(c) : e.of = (r.n * (r.n - 1)) \div 2
     /\ Rises(c, (r.r * (r.r - 1)) \div 2)
     /\ c[Len(c)].pct = 100
(* files are announced before they are worked on, the report comes last *)
Ordered(r) == LET at(kinds) == {i \in 1..Len(r.ev) : r.ev[i].k \in kinds}
              IN /\ \A i \in at({"p", "skip"}), j \in at({"ref"}) : j < i
                 /\ \A i \in at({"p", "skip"}), j \in at({"rep"}) : i < j
                 /\ \A i \in at({"cmp"}), j \in at({"rep"}) : j < i
                 /\ Cardinality(at({"ref"})) = 1 /\ Cardinality(at({"rep"})) = 1
Conforms(r) == /\ r.same
               /\ CASE r.mode = "files" -> Files(r) /\ Ordered(r)
                    [] r.mode = "images" -> Images(r)
                    [] OTHER -> \A i \in 1..Len(r.ev) : r.ev[i].k = "off"
Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1 ELSE PrintT(<<"WHY", l, Trace[l].mode, Trace[l].same, SubSeq(Trace[l].ev, 1, IF Len(Trace[l].ev) < 60 THEN Len(Trace[l].ev) ELSE 60)>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
