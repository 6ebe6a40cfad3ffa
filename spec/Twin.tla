-------------------------------- MODULE Twin --------------------------------
(* The duplicate finder as a state machine, shaped like the implementation:  *)
(* categorise by size, checksum in parallel workers (any order, any colliding *)
(* checksum function), sort each size's table by checksum, compare pairs,     *)
(* mark twins, report.  A file in Bad cannot be read: its checksum is         *)
(* arbitrary and every comparison with it fails.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, NSizes, NContents, NHashes, MaxBad, Emit

Kinds == {<<0, 0>>} \cup {<<s, c>> : s \in 1..NSizes, c \in 1..NContents}
KLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
File == 1..N

VARIABLES world, h, bad, json, phase, sum, arr, i, j, alive, cur, groups
vars == <<world, h, bad, json, phase, sum, arr, i, j, alive, cur, groups>>

OfSize(s) == {f \in File : world[f][1] = s}
(* In text mode two files of a size, and empty files, are not checksummed.   *)
NeedsHash(f) == LET k == Cardinality(OfSize(world[f][1]))
                IN IF json THEN k >= 2 ELSE k > 2 /\ world[f][1] # 0

Init == /\ world \in {w \in [File -> Kinds] : \A f \in 1..(N-1) : KLeq(w[f], w[f+1])}
        /\ h \in [0..NContents -> 0..(NHashes-1)]
        /\ h[0] = 0
        /\ bad \in {b \in SUBSET File : Cardinality(b) <= MaxBad /\ \A f \in b : world[f][1] # 0}
        /\ json \in BOOLEAN
        /\ phase = "hash"
        /\ sum = [f \in File |-> -1]
        /\ arr = <<>> /\ i = 0 /\ j = 0 /\ alive = File /\ cur = {} /\ groups = {}

(* A worker checksums one file. *)
Hash(f) == /\ phase = "hash" /\ sum[f] = -1 /\ NeedsHash(f)
           /\ \E v \in (IF f \in bad THEN 0..NHashes ELSE {h[world[f][2]]}) : sum' = [sum EXCEPT ![f] = v]
           /\ UNCHANGED <<world, h, bad, json, phase, arr, i, j, alive, cur, groups>>

HashDone == /\ phase = "hash"
            /\ \A f \in File : NeedsHash(f) => sum[f] # -1
            /\ phase' = "size"
            /\ sum' = [f \in File |-> IF sum[f] = -1 THEN 0 ELSE sum[f]]
            /\ UNCHANGED <<world, h, bad, json, arr, i, j, alive, cur, groups>>

Perms(S) == {p \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => p[a] # p[b]}

(* The largest size not yet reported; its table is sorted by checksum (the   *)
(* sort is not stable: every order of equal checksums is possible).          *)
Pending(s) == Cardinality(OfSize(s)) >= 2 /\ (IF arr = <<>> THEN TRUE ELSE s < arr[1])
PickSize == /\ phase = "size"
            /\ \E s \in 0..NSizes :
                 /\ Pending(s) /\ \A t \in 0..NSizes : Pending(t) => t <= s
                 /\ \E p \in Perms(OfSize(s)) :
                      /\ \A a \in 1..(Len(p)-1) : sum[p[a]] <= sum[p[a+1]]
                      /\ arr' = <<s, p>>
            /\ i' = 1 /\ j' = 2 /\ cur' = {} /\ phase' = "compare"
            /\ UNCHANGED <<world, h, bad, json, sum, alive, groups>>
AllDone == /\ phase = "size" /\ ~ \E s \in 0..NSizes : Pending(s)
           /\ phase' = "done"
           /\ UNCHANGED <<world, h, bad, json, sum, arr, i, j, alive, cur, groups>>

Tab == arr[2]
NextI == /\ groups' = (IF cur = {} THEN groups ELSE groups \cup {cur})
         /\ cur' = {}
         /\ IF i + 1 >= Len(Tab) THEN /\ phase' = "size" /\ i' = 0 /\ j' = 0
            ELSE phase' = phase /\ i' = i + 1 /\ j' = i + 2
Compare ==
  /\ phase = "compare"
  /\ UNCHANGED <<world, h, bad, json, sum, arr>>
  /\ IF Tab[i] \notin alive \/ j > Len(Tab) \/ sum[Tab[i]] # sum[Tab[j]]
     THEN NextI /\ UNCHANGED alive
     ELSE /\ j' = j + 1 /\ UNCHANGED <<i, phase, groups>>
          /\ IF Tab[j] \notin alive \/ Tab[i] \in bad \/ Tab[j] \in bad
                \/ world[Tab[i]] # world[Tab[j]]
             THEN UNCHANGED <<alive, cur>>
             ELSE alive' = alive \ {Tab[j]} /\ cur' = cur \cup {Tab[i], Tab[j]}

Next == (\E f \in File : Hash(f)) \/ HashDone \/ PickSize \/ AllDone \/ Compare
        \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
Good == File \ bad
Expected == {g \in {{f \in Good : world[f] = world[e]} : e \in Good} : Cardinality(g) >= 2}
SoundInv == \A g \in groups \cup {cur} : \A e, f \in g : world[e] = world[f] /\ e \notin bad
DisjointInv == \A g1, g2 \in groups : g1 # g2 => g1 \cap g2 = {}
CompleteInv == phase = "done" => groups = Expected
Termination == <>(phase = "done")

EmitInv == (Emit /\ phase = "done" /\ bad = {}) =>
             PrintT("WORLD " \o ToJson([w |-> world, h |-> [k \in 1..NContents |-> h[k]], j |-> json]))
=============================================================================
