------------------------------- MODULE Image -------------------------------
(* Image mode as a state machine: workers turn files into signatures in any   *)
(* order (some files are no images), then the main thread takes the files     *)
(* from the heap one by one and compares each with every file still there.    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS NFiles, NWorkers, Dists, Threshold, Emit
Files == 1..NFiles
Pairs == {s \in SUBSET Files : Cardinality(s) = 2}
VARIABLES good, dist, queue, busy, done, heap, reported, phase
vars == <<good, dist, queue, busy, done, heap, reported, phase>>
Init == /\ good \in SUBSET Files
        /\ dist \in [Pairs -> Dists]
        /\ queue = Files /\ busy = {} /\ done = {}
        /\ heap = Files /\ reported = <<>> /\ phase = "vectors"
Take == /\ phase = "vectors" /\ queue # {} /\ Cardinality(busy) < NWorkers
        /\ LET f == CHOOSE x \in queue : \A y \in queue : x <= y
           IN queue' = queue \ {f} /\ busy' = busy \cup {f}
        /\ UNCHANGED <<good, dist, done, heap, reported, phase>>
Finish(f) == /\ f \in busy
             /\ busy' = busy \ {f}
             /\ done' = IF f \in good THEN done \cup {f} ELSE done
             /\ UNCHANGED <<good, dist, queue, heap, reported, phase>>
Wait == /\ phase = "vectors" /\ queue = {} /\ busy = {}
        /\ phase' = "compare"
        /\ UNCHANGED <<good, dist, queue, busy, done, heap, reported>>
(* the heap may yield the files in any order that sizes dictate: any order    *)
Extract(f) == /\ phase = "compare" /\ f \in heap
              /\ heap' = heap \ {f}
              /\ reported' = IF f \notin done THEN reported
                             ELSE LET near == {g \in heap' : g \in done /\ dist[{f, g}] < Threshold}
                                  IN IF near = {} THEN reported ELSE Append(reported, [f |-> f, n |-> near])
              /\ UNCHANGED <<good, dist, queue, busy, done, phase>>
Next == Take \/ Wait \/ (\E f \in Files : Finish(f) \/ Extract(f))
        \/ (phase = "compare" /\ heap = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PairsOf(rep) == UNION {{{rep[i].f, g} : g \in rep[i].n} : i \in 1..Len(rep)}
Below == {s \in Pairs : s \subseteq good /\ dist[s] < Threshold}
Occurs(rep, s) == Cardinality({i \in 1..Len(rep) : rep[i].f \in s /\ (s \ {rep[i].f}) \subseteq rep[i].n})
Exact == (phase = "compare" /\ heap = {}) => PairsOf(reported) = Below /\ \A s \in Below : Occurs(reported, s) = 1
SoundAlways == PairsOf(reported) \subseteq Below
Ends == <>(phase = "compare" /\ heap = {})
=============================================================================
