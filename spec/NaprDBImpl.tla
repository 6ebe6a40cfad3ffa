----------------------------- MODULE NaprDBImpl -----------------------------
(* How the database keeps its promises: copy on write to fresh pages, two      *)
(* alternating meta pages, a list of freed pages tagged with the transaction   *)
(* that freed them, a table of readers, and two synchronisations per commit.   *)
(*                                                                             *)
(* A page holds a stamp (the number of the attempt that wrote it).  A state of *)
(* the database is a function from its pages to the stamps they must hold;     *)
(* the tree of keys and the tree of free pages are not told apart.             *)
(*                                                                             *)
(*   disk, dm   pages and meta pages that survive a crash                      *)
(*   mem, vm    pages and meta pages as the running program sees them          *)
(*   pend       writes not yet synchronised                                    *)
(*   live       slot of the live meta page                                     *)
(*   rd         readers: slot |-> [st: begin/on, tx, tree]                     *)
(*   w          the writer: pc, its new tree, list of free pages, last page    *)
(*   last_ok    the state of the last successful commit; trial: the one being  *)
(*              committed (or that failed since)                               *)
(* Constants switch single precautions off, to see that each one is needed.    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxPage, MaxTx, Readers, MaxFail,
          HonourReaders,    \* freed pages are reused only below the oldest reader
          AtomicRegister,   \* a reader takes its snapshot and registers in one step
          SyncData,         \* data pages are synchronised before the meta page is written
          SyncMeta,         \* the meta page is synchronised before the commit returns
          Alternate,        \* the meta page written is not the live one
          Fresh,            \* changed pages go to fresh places
          Restore           \* a failed commit puts the old meta page back
VARIABLES disk, dm, mem, vm, pend, live, rd, w, last_ok, trials, stamp, fails, returned
vars == <<disk, dm, mem, vm, pend, live, rd, w, last_ok, trials, stamp, fails, returned>>
Pages == 1..MaxPage
NoTree == [x \in {} |-> 0]
Blank == [tx |-> 0, tree |-> NoTree, free |-> {}, last |-> 0]
Idle == [pc |-> "idle", tree |-> NoTree, free |-> {}, last |-> 0, tx |-> 0, new |-> {}]
Init == /\ disk = [p \in Pages |-> 0] /\ mem = disk
        /\ dm = <<Blank, [Blank EXCEPT !.tx = 1]>> /\ vm = dm
        /\ pend = {} /\ live = 2
        /\ rd = [r \in Readers |-> [st |-> "off", tx |-> 0, tree |-> NoTree]]
        /\ w = Idle /\ last_ok = [Blank EXCEPT !.tx = 1] /\ trials = {} /\ stamp = 1 /\ fails = 0 /\ returned = TRUE
Live == vm[live]
Registered == {r \in Readers : rd[r].st = "on"}
Oldest == IF Registered = {} THEN Live.tx + 1 ELSE CHOOSE t \in {rd[r].tx : r \in Registered} : \A r \in Registered : t <= rd[r].tx
-----------------------------------------------------------------------------
ReadBegin(r) == /\ rd[r].st = "off"
                /\ rd' = [rd EXCEPT ![r] = [st |-> IF AtomicRegister THEN "on" ELSE "begin", tx |-> Live.tx, tree |-> Live.tree]]
                /\ UNCHANGED <<disk, dm, mem, vm, pend, live, w, last_ok, trials, stamp, fails, returned>>
ReadRegister(r) == /\ rd[r].st = "begin"
                   /\ rd' = [rd EXCEPT ![r].st = "on"]
                   /\ UNCHANGED <<disk, dm, mem, vm, pend, live, w, last_ok, trials, stamp, fails, returned>>
ReadEnd(r) == /\ rd[r].st = "on"
              /\ rd' = [rd EXCEPT ![r] = [st |-> "off", tx |-> 0, tree |-> NoTree]]
              /\ UNCHANGED <<disk, dm, mem, vm, pend, live, w, last_ok, trials, stamp, fails, returned>>
-----------------------------------------------------------------------------
(* The whole of a transaction's work: the pages `out` of the live tree are     *)
(* replaced or dropped, the pages `in` are used instead.                       *)
WriteBegin == /\ w.pc = "idle" /\ Live.tx < MaxTx
              /\ \E out \in SUBSET DOMAIN Live.tree :
                 LET usable == UNION {f.pages : f \in {g \in Live.free : ~HonourReaders \/ g.tag < Oldest}}
                     rest == {f \in Live.free : f.pages \cap usable = {}}
                 IN \E in \in SUBSET (usable \cup (Live.last + 1)..MaxPage \cup (IF Fresh THEN {} ELSE out)) :
                    /\ in # {} /\ Cardinality(in) <= 2 /\ Cardinality(out) <= 2
                    /\ \A p \in in : p > Live.last => \A q \in (Live.last + 1)..p : q \in in
                    /\ LET tx == Live.tx + 1
                           freed == (out \ in) \cup (usable \ in)
                           tree == [p \in (DOMAIN Live.tree \ out) \cup in |-> IF p \in in THEN stamp + 1 ELSE Live.tree[p]]
                       IN w' = [pc |-> "data", tree |-> tree, free |-> rest \cup (IF freed = {} THEN {} ELSE {[tag |-> tx, pages |-> freed]}),
                                last |-> IF \E p \in in : p > Live.last THEN CHOOSE p \in in : \A q \in in : p >= q ELSE Live.last, tx |-> tx, new |-> in]
              /\ UNCHANGED <<disk, dm, mem, vm, pend, live, rd, last_ok, trials, stamp, fails, returned>>
Abort == w.pc = "data" /\ w' = Idle /\ UNCHANGED <<disk, dm, mem, vm, pend, live, rd, last_ok, trials, stamp, fails, returned>>
WriteData == /\ w.pc = "data"
             /\ stamp' = stamp + 1
             /\ mem' = [p \in Pages |-> IF p \in w.new THEN stamp' ELSE mem[p]]
             /\ pend' = pend \cup {[k |-> "page", p |-> p, v |-> stamp', n |-> stamp'] : p \in w.new}
             /\ w' = [w EXCEPT !.pc = IF SyncData THEN "sync1" ELSE "meta"]
             /\ trials' = trials \cup {[tx |-> w.tx, tree |-> w.tree, free |-> w.free, last |-> w.last]}
             /\ returned' = FALSE
             /\ UNCHANGED <<disk, dm, vm, live, rd, last_ok, fails>>
(* synchronisation: everything pending reaches the disk; later writes of the same place win *)
Settled(d, q) == [p \in Pages |-> LET mine == {e \in q : e.k = "page" /\ e.p = p}
                                  IN IF mine = {} THEN d[p] ELSE (CHOOSE e \in mine : \A f \in mine : e.n >= f.n).v]
SettledM(d, q) == [i \in 1..2 |-> LET mine == {e \in q : e.k = "meta" /\ e.p = i}
                                  IN IF mine = {} THEN d[i] ELSE (CHOOSE e \in mine : \A f \in mine : e.n >= f.n).v]
Sync1 == /\ w.pc = "sync1"
         /\ disk' = Settled(disk, pend) /\ dm' = SettledM(dm, pend) /\ pend' = {}
         /\ w' = [w EXCEPT !.pc = "meta"]
         /\ UNCHANGED <<mem, vm, live, rd, last_ok, trials, stamp, fails, returned>>
Slot == IF Alternate THEN 3 - live ELSE live
Meta == [tx |-> w.tx, tree |-> w.tree, free |-> w.free, last |-> w.last]
WriteMeta == /\ w.pc = "meta"
             /\ pend' = pend \cup {[k |-> "meta", p |-> Slot, v |-> Meta, n |-> stamp]}
             /\ w' = [w EXCEPT !.pc = "sync2"]
             /\ UNCHANGED <<disk, dm, mem, vm, live, rd, last_ok, trials, stamp, fails, returned>>
Sync2 == /\ w.pc = "sync2"
         /\ IF SyncMeta THEN disk' = Settled(disk, pend) /\ dm' = SettledM(dm, pend) /\ pend' = {} ELSE UNCHANGED <<disk, dm, pend>>
         /\ w' = [w EXCEPT !.pc = "switch"]
         /\ UNCHANGED <<mem, vm, live, rd, last_ok, trials, stamp, fails, returned>>
Switch == /\ w.pc = "switch"
          /\ vm' = [vm EXCEPT ![Slot] = Meta] /\ live' = Slot
          /\ last_ok' = Meta /\ trials' = {} /\ w' = Idle /\ returned' = TRUE
          /\ UNCHANGED <<disk, dm, mem, pend, rd, stamp, fails>>
(* a system call of the commit fails; the old meta page is put back and synchronised *)
Fail == /\ fails < MaxFail /\ w.pc \in {"sync1", "meta", "sync2"}
        /\ fails' = fails + 1
        /\ IF w.pc = "sync2" /\ Restore
             THEN LET q == pend \cup {[k |-> "meta", p |-> Slot, v |-> vm[Slot], n |-> stamp + 1]}
                  IN disk' = Settled(disk, q) /\ dm' = SettledM(dm, q) /\ pend' = {} /\ stamp' = stamp + 1
             ELSE UNCHANGED <<disk, dm, pend, stamp>>
        /\ w' = Idle /\ returned' = TRUE
        /\ UNCHANGED <<mem, vm, live, rd, last_ok, trials>>
Next == \/ WriteBegin \/ Abort \/ WriteData \/ Sync1 \/ WriteMeta \/ Sync2 \/ Switch \/ Fail
        \/ \E r \in Readers : ReadBegin(r) \/ ReadRegister(r) \/ ReadEnd(r)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Intact(tree, d) == \A p \in DOMAIN tree : d[p] = tree[p]
(* D03 *)
SnapshotIntact == \A r \in Readers : rd[r].st # "off" => Intact(rd[r].tree, mem)
(* D01, D02: the live state is readable *)
LiveIntact == Intact(Live.tree, mem)
(* D04: whatever subset of the pending writes survives, recovery finds the last committed state or the one on trial, complete *)
(* a meta page torn by the crash (slots in t) is recognised as invalid *)
Recovered(q, t) == LET m == [i \in 1..2 |-> IF i \in t THEN [Blank EXCEPT !.tx = -1] ELSE SettledM(dm, q)[i]] IN IF m[1].tx > m[2].tx THEN m[1] ELSE m[2]
CrashSafe == \A q \in SUBSET pend : \A t \in SUBSET {e.p : e \in {f \in q : f.k = "meta"}} :
               LET m == Recovered(q, t)
               IN /\ m \in {last_ok} \cup trials
                  /\ Intact(m.tree, Settled(disk, q))
(* D02: a closed database shows the last successful commit *)
CleanReopen == returned => LET m == Recovered(pend, {}) IN m = last_ok
(* D07: every page is in the tree or in exactly one entry of the list of free pages *)
Accounted == LET m == Live IN
             /\ DOMAIN m.tree \cup UNION {f.pages : f \in m.free} = 1..m.last
             /\ \A f \in m.free : f.pages \cap DOMAIN m.tree = {} /\ \A g \in m.free : f = g \/ f.pages \cap g.pages = {}
=============================================================================
