------------------------------ MODULE TwinTrace ------------------------------
(* Trace specification: every line of trace.ndjson is one run of the real    *)
(* command on one world.  A run is accepted when the clauses named in its    *)
(* field `want` hold of its output.                                          *)
(*   out : sequence of groups, each a sequence of [p : absolute access path, *)
(*         d : displayed characters]                                         *)
EXTENDS World, Json, TLC

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l

Rng(s) == {s[i] : i \in 1..Len(s)}
Members(g) == {g[i].p : i \in 1..Len(g)}
Groups(r) == {Members(r.out[i]) : i \in 1..Len(r.out)}
AllListed(r) == UNION {Members(r.out[i]) : i \in 1..Len(r.out)}
NodeOfPath(w, pp) == LET s == {a \in 1..Len(w.args) : HasPrefix(pp, w.args[a].p)}
                     IN IF s = {} THEN NodeAt(w, pp)
                        ELSE LET a == CHOOSE x \in s : TRUE
                             IN RealAlong(w, ArgNode(w, a), SubSeq(pp, Len(w.args[a].p)+1, Len(pp)))

(* F01: members of a group have equal content. *)
Sound(r) == \A g \in Groups(r) : \A p, q \in g :
               LET m == NodeOfPath(r.w, p) n == NodeOfPath(r.w, q)
               IN m.k = "f" /\ n.k = "f" /\ SameContent(m, n)
(* F02: the report is the partition; nothing is listed twice. *)
NoRepeat(r) == \A i \in 1..Len(r.out) :
                 /\ Cardinality(Members(r.out[i])) = Len(r.out[i])
                 /\ Len(r.out[i]) >= 2
                 /\ \A j \in 1..Len(r.out) : i # j => Members(r.out[i]) \cap Members(r.out[j]) = {}
Partition(r) == NoRepeat(r) /\ Groups(r) = Classes(r.w)
(* F03/F04: when all files have equal content, the one group is exactly the  *)
(* set of files considered.                                                  *)
Selected(r) == LET c == Considered(r.w)
               IN IF Cardinality(c) < 2 THEN r.out = <<>> ELSE Groups(r) = {c} /\ NoRepeat(r)
(* F05: the runs of one tree agree on the set of groups.                     *)
GroupSet(gs) == {Rng(gs[i]) : i \in 1..Len(gs)}
Agree(r) == \A i \in 1..Len(r.runs) : r.runs[i].ok /\ GroupSet(r.runs[i].groups) = GroupSet(r.runs[1].groups)
(* F09: a run is a stuttering step of the file system: same entries, same     *)
(* attributes, no changing call aimed at the tree, no temporary file left.    *)
Unchanged(r) == r.before = r.after /\ r.calls = <<>> /\ r.leftover = <<>>
(* Bulk worlds (tens of thousands of files) are recorded in counts: every     *)
(* group is one content, complete and without repetition.                     *)
Bulk(r) == /\ Len(r.groups) = Cardinality({i \in 1..Len(r.expect) : r.expect[i] >= 2})
           /\ \A i \in 1..Len(r.groups) :
                LET g == r.groups[i] IN
                /\ Len(g.contents) = 1
                /\ g.members = r.expect[g.contents[1]]
                /\ g.distinct = g.members
           /\ \A i, j \in 1..Len(r.groups) : i # j => r.groups[i].contents # r.groups[j].contents
Exit(r) == r.rc = (IF Considered(r.w) = {} THEN 255 ELSE 0)
Success(r) == r.rc = 0

(* F07: order and layout. *)
SizeOfGroup(r, i) == NodeOfPath(r.w, r.out[i][1].p).sz
Descending(r) == \A i \in 1..(Len(r.out)-1) : SizeOfGroup(r, i) >= SizeOfGroup(r, i+1)
Prio(r, m) == r.w.opts.prio # <<>> /\ HasPrefix(Fold(m.d, r.w.opts.icase), Fold(r.w.opts.prio, r.w.opts.icase))
PriorityFirst(r) == \A i \in 1..Len(r.out) : \A j, k \in 1..Len(r.out[i]) :
                      (j < k /\ Prio(r, r.out[i][k])) => Prio(r, r.out[i][j])

Digits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digits[n+1]>> ELSE Dec(n \div 10) \o <<Digits[(n % 10)+1]>>
(* one decimal, nearest; the middle may go either way, uniformly *)
Round(num, den, mode) == LET q == num \div den r == num % den
   IN IF 2*r > den \/ (2*r = den /\ (mode = "up" \/ q % 2 = 1)) THEN q + 1 ELSE q
Human(sz, mode) ==
  IF sz < 1024 THEN Dec(sz) \o <<" ", "B">>
  ELSE LET unit == IF sz < 1048576 THEN 1024 ELSE 1048576
           t == Round(sz * 10, unit, mode)
       IN Dec(t \div 10) \o <<".">> \o <<Digits[(t % 10)+1]>> \o
          (IF unit = 1024 THEN <<" ","K","i","B">> ELSE <<" ","M","i","B">>)
RECURSIVE JoinMembers(_, _, _)
JoinMembers(g, i, sep) == g[i].d \o (IF i < Len(g) THEN <<sep>> \o JoinMembers(g, i+1, sep) ELSE <<>>)
RECURSIVE Render(_, _, _)
Render(r, i, mode) == IF i > Len(r.out) THEN <<>>
  ELSE (IF r.w.opts.sized THEN <<"S","i","z","e",":"," ">> \o Human(SizeOfGroup(r, i), mode) \o <<"\n">> ELSE <<>>)
       \o JoinMembers(r.out[i], 1, r.w.opts.sep) \o <<"\n", "\n">> \o Render(r, i+1, mode)
Layout(r) == \E mode \in {"up", "even"} : r.raw = Render(r, 1, mode)

(* F06: JSON document.  Fields are compared one by one; time is compared as  *)
(* calendar fields computed here from the modification time (day, second).   *)
Civil(t) ==           \* t: days since 1970-01-01, seconds of the day
  LET z == t[1] + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
      s == t[2]
  IN <<y, m, d, s \div 3600, (s % 3600) \div 60, s % 60>>
JsonOK(r) ==
  /\ r.valid
  /\ Len(r.doc) = Len(r.out)
  /\ \A i \in 1..Len(r.doc) :
       LET g == r.doc[i] IN
       /\ {"size_bytes", "hash_xxh128", "duplicates"} \subseteq Rng(g.keys)
       /\ g.sz = NodeOfPath(r.w, r.out[i][1].p).sz
       /\ \A j \in 1..Len(r.out[i]) : g.hash = NodeOfPath(r.w, r.out[i][j].p).h
       /\ Len(g.dups) = Len(r.out[i])
       /\ \A j \in 1..Len(g.dups) :
            LET e == g.dups[j] n == NodeOfPath(r.w, r.out[i][j].p) IN
            /\ {"path", "mtime_utc", "prioritized"} \subseteq Rng(e.keys)
            /\ e.time = Civil(n.mt)
            /\ e.prio = Prio(r, r.out[i][j])
            /\ e.abs

Clause(c, r) ==
  CASE c = "sound" -> Sound(r)
    [] c = "partition" -> Partition(r)
    [] c = "selected" -> Selected(r)
    [] c = "agree" -> Agree(r)
    [] c = "bulk" -> Bulk(r)
    [] c = "exit" -> Exit(r)
    [] c = "unchanged" -> Unchanged(r)
    [] c = "success" -> Success(r)
    [] c = "descending" -> Descending(r)
    [] c = "priority" -> PriorityFirst(r)
    [] c = "layout" -> Layout(r)
    [] c = "json" -> JsonOK(r)
    [] c = "norepeat" -> NoRepeat(r)

Conforms(r) == \A i \in 1..Len(r.want) : Clause(r.want[i], r) \/ (PrintT(<<"WHY", l, r.want[i]>>) /\ FALSE)

Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1 ELSE FALSE)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
