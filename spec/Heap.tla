-------------------------------- MODULE Heap --------------------------------
(* A priority queue as its users see it: a set of stored elements (each with a *)
(* number of its own and a rank).  Extraction hands out an element none ranks  *)
(* above; the positional accessor enumerates the stored elements in an order   *)
(* of the heap's choosing whose first element is a top element.                *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [in |-> {}, rk |-> <<>>]                 \* rk: sequence of ranks by element number
Insert(s, id, r) == [in |-> s.in \cup {id}, rk |-> Append(s.rk, r)]
Remove(s, id) == [s EXCEPT !.in = @ \ {id}]
Top(s, id) == id \in s.in /\ \A j \in s.in : s.rk[j] <= s.rk[id]
IsTopOrNone(s, id) == IF s.in = {} THEN id = 0 ELSE Top(s, id)
Range(q) == {q[k] : k \in 1..Len(q)}
(* What an operation may answer in state s *)
Can(s, e) ==
  CASE e.op = "i" -> e.rc = 0 /\ e.id = Len(s.rk) + 1
    [] e.op = "x" -> IsTopOrNone(s, e.id)
    [] e.op = "s" -> e.n = Cardinality(s.in)
    [] e.op = "n" -> IF e.k < Cardinality(s.in) THEN e.id \in s.in ELSE e.id = 0
    [] e.op = "a" -> /\ Len(e.ids) = Cardinality(s.in) + 2
                     /\ LET n == Cardinality(s.in)
                        IN /\ {e.ids[k] : k \in 1..n} = s.in
                           /\ e.ids[n+1] = 0 /\ e.ids[n+2] = 0
                           /\ (n > 0 => Top(s, e.ids[1]))
    [] OTHER -> FALSE
Apply(s, e) == CASE e.op = "i" -> Insert(s, e.id, e.r)
                 [] e.op = "x" -> Remove(s, e.id)
                 [] OTHER -> s
=============================================================================
