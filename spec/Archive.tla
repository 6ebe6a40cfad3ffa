------------------------------ MODULE Archive ------------------------------
(* Extraction of one named member as a state machine: read headers in order, *)
(* create the temporary file at the first member of that name, copy its      *)
(* blocks, and end with the complete file or with no file at all.  The       *)
(* archive may end early (cut) anywhere.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMembers, Names, Kinds, MaxBlocks, Emit

Member == [n : Names, k : Kinds, b : 0..MaxBlocks]
Archives == UNION {[1..m -> Member] : m \in 0..MaxMembers}
NoDup(a) == \A i, j \in DOMAIN a : i # j => a[i].n # a[j].n

VARIABLES arch, name, cut, pos, copied, tmp, phase
vars == <<arch, name, cut, pos, copied, tmp, phase>>

(* cut = [m, b]: the archive ends before block b+1 of member m (m = Len+1:    *)
(* not at all).                                                              *)
Init == /\ arch \in {a \in Archives : NoDup(a)}
        /\ name \in Names
        /\ cut \in {[m |-> m, b |-> b] : m \in 1..(Len(arch)+1), b \in 0..MaxBlocks}
        /\ IF cut.m <= Len(arch) THEN cut.b < arch[cut.m].b \/ (cut.b = 0) ELSE cut.b = 0
        /\ pos = 0 /\ copied = 0 /\ tmp = "none" /\ phase = "header"

HeaderThere(i) == i < cut.m \/ (i = cut.m /\ i <= Len(arch) /\ (arch[i].b > 0))
Header == /\ phase = "header"
          /\ UNCHANGED <<arch, name, cut, copied>>
          /\ IF pos + 1 > Len(arch) \/ ~HeaderThere(pos + 1)
             THEN phase' = "failed" /\ UNCHANGED <<pos, tmp>>
             ELSE /\ pos' = pos + 1
                  /\ IF arch[pos+1].n # name THEN UNCHANGED <<phase, tmp>>
                     ELSE IF arch[pos+1].k # "file" THEN phase' = "failed" /\ UNCHANGED tmp
                     ELSE phase' = "copy" /\ tmp' = "partial"
Copy == /\ phase = "copy" /\ copied < arch[pos].b
        /\ ~(cut.m = pos /\ copied >= cut.b)
        /\ copied' = copied + 1
        /\ UNCHANGED <<arch, name, cut, pos, tmp, phase>>
CopyFails == /\ phase = "copy" /\ copied < arch[pos].b /\ cut.m = pos /\ copied >= cut.b
             /\ tmp' = "none" /\ phase' = "failed"
             /\ UNCHANGED <<arch, name, cut, pos, copied>>
Finish == /\ phase = "copy" /\ copied = arch[pos].b
          /\ tmp' = "full" /\ phase' = "ok"
          /\ UNCHANGED <<arch, name, cut, pos, copied>>
Next == Header \/ Copy \/ CopyFails \/ Finish
        \/ (phase \in {"ok", "failed"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The declarative meaning: may an extraction succeed, must it? *)
Index(a, n) == LET s == {i \in DOMAIN a : a[i].n = n} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
CanSucceed(a, n, c) == LET i == Index(a, n) IN i > 0 /\ a[i].k = "file" /\ c.m > i
Exact == /\ phase = "ok" => tmp = "full" /\ CanSucceed(arch, name, cut) /\ copied = arch[Index(arch, name)].b
         /\ phase = "failed" => tmp = "none" /\ ~CanSucceed(arch, name, cut)
Ends == <>(phase \in {"ok", "failed"})
EmitInv == (Emit /\ phase \in {"ok", "failed"}) =>
             PrintT("WORLD " \o ToJson([a |-> arch, n |-> name, c |-> cut]))
=============================================================================
