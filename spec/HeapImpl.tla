------------------------------ MODULE HeapImpl ------------------------------
(* The array algorithm: sift up on insertion, sift down on extraction.         *)
(* Refines Heap: what it extracts is always a top element, nothing is lost.    *)
EXTENDS Heap, TLC
CONSTANTS MaxOps, Ranks
VARIABLES a, s, out, ops
vars == <<a, s, out, ops>>
Swap(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
RECURSIVE Up(_, _), Down(_, _)
Up(t, i) == IF i > 1 /\ s'.rk[t[i \div 2]] < s'.rk[t[i]] THEN Up(Swap(t, i, i \div 2), i \div 2) ELSE t
Down(t, i) == LET n == Len(t)
                  l == 2*i
                  r == 2*i + 1
                  m1 == IF l <= n /\ s.rk[t[l]] > s.rk[t[i]] THEN l ELSE i
                  m == IF r <= n /\ s.rk[t[r]] > s.rk[t[m1]] THEN r ELSE m1
              IN IF m = i THEN t ELSE Down(Swap(t, i, m), m)
Init == a = <<>> /\ s = Empty /\ out = <<"none", 0>> /\ ops = 0
Ins(r) == /\ ops < MaxOps /\ ops' = ops + 1
          /\ s' = Insert(s, Len(s.rk) + 1, r)
          /\ a' = Up(Append(a, Len(s.rk) + 1), Len(a) + 1)
          /\ out' = <<"none", 0>>
Ext == /\ ops < MaxOps /\ ops' = ops + 1
       /\ IF a = <<>> THEN out' = <<"x", 0>> /\ UNCHANGED <<a, s>>
          ELSE /\ out' = <<"x", a[1]>>
               /\ a' = LET b == SubSeq([a EXCEPT ![1] = a[Len(a)]], 1, Len(a) - 1) IN IF b = <<>> THEN b ELSE Down(b, 1)
               /\ s' = Remove(s, a[1])
Next == (\E r \in Ranks : Ins(r)) \/ Ext
Spec == Init /\ [][Next]_vars
Agree == Range(a) = s.in /\ Len(a) = Cardinality(s.in) /\ (a # <<>> => Top(s, a[1]))
Order == \A i \in 2..Len(a) : s.rk[a[i \div 2]] >= s.rk[a[i]]
StepOk == [][out'[1] = "x" => IsTopOrNone(s, out'[2])]_vars
=============================================================================
