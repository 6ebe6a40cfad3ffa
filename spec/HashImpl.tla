------------------------------ MODULE HashImpl ------------------------------
(* The bucket algorithm: 2^p buckets of a fixed capacity, a rebuild with twice *)
(* the buckets when one fills up; a bucket is enlarged instead when the table  *)
(* has more buckets than elements (keys with equal hash values).               *)
EXTENDS HashTable, TLC
CONSTANTS Keys, F, MaxPow, MaxOps
VARIABLES h, p, b, s, ops
vars == <<h, p, b, s, ops>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
Bk(k, q) == h[k] % Pow2(q)
NoBuckets(q) == [i \in 0..(Pow2(q)-1) |-> <<>>]
RECURSIVE Count(_, _)
Count(t, i) == IF i < 0 THEN 0 ELSE Len(t[i]) + Count(t, i-1)
Nel(t, q) == Count(t, Pow2(q)-1)
RECURSIVE Add(_, _, _), AddAll(_, _, _)
AddAll(st, q, i) == IF i > Len(q) THEN st ELSE AddAll(Add(st.t, st.p, q[i]), q, i+1)
Flat(t, q) == LET RECURSIVE G(_) G(i) == IF i > Pow2(q)-1 THEN <<>> ELSE t[i] \o G(i+1) IN G(0)
Add(t, q, k) == LET t2 == [t EXCEPT ![Bk(k, q)] = Append(@, k)]
                IN IF Len(t2[Bk(k, q)]) >= F /\ Nel(t2, q) >= Pow2(q) THEN AddAll([t |-> NoBuckets(q+1), p |-> q+1], Flat(t2, q), 1)
                   ELSE [t |-> t2, p |-> q]
Init == h \in [Keys -> 0..3] /\ p = 0 /\ b = NoBuckets(0) /\ s = Empty /\ ops = 0
Store(k) == /\ k \notin Dom(s) /\ LET r == Add(b, p, k) IN b' = r.t /\ p' = r.p
            /\ s' = Put(s, k, k) /\ UNCHANGED h
Find(i, q, k) == CHOOSE j \in 1..Len(q) : q[j] = k
Take(k) == /\ k \in Dom(s) /\ s' = Drop(s, k) /\ UNCHANGED <<h, p>>
           /\ LET i == Bk(k, p)
                  q == b[i]
                  j == CHOOSE x \in 1..Len(q) : q[x] = k
              IN b' = [b EXCEPT ![i] = SubSeq([q EXCEPT ![j] = q[Len(q)]], 1, Len(q)-1)]
Next == ops < MaxOps /\ ops' = ops + 1 /\ \E k \in Keys : Store(k) \/ Take(k)
Spec == Init /\ [][Next]_vars
Exact == /\ \A k \in Keys : (k \in Dom(s)) <=> (\E j \in 1..Len(b[Bk(k, p)]) : b[Bk(k, p)][j] = k)
         /\ Len(Flat(b, p)) = Cardinality(Dom(s)) /\ Range(Flat(b, p)) = Dom(s)
Bounded == p <= MaxPow
=============================================================================
