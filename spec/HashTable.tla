------------------------------ MODULE HashTable ------------------------------
(* The hash table as its users see it: a map from keys to elements.  Keys are  *)
(* numbered; element numbers are handed out in order of storing.               *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [m |-> <<>>, n |-> 0]       \* m: function key -> element, n: elements stored so far
Dom(s) == DOMAIN s.m
Put(s, k, id) == [m |-> [x \in Dom(s) \cup {k} |-> IF x = k THEN id ELSE s.m[x]], n |-> id]
Drop(s, k) == [s EXCEPT !.m = [x \in Dom(s) \ {k} |-> s.m[x]]]
Value(s, k) == IF k \in Dom(s) THEN s.m[k] ELSE 0
Range(q) == {q[i] : i \in 1..Len(q)}
Can(s, e) ==
  CASE e.op = "f" -> e.id = Value(s, e.k)
    [] e.op = "s" -> e.k \notin Dom(s) /\ e.rc = 0 /\ e.id = s.n + 1
    [] e.op = "r" -> TRUE
    [] e.op = "a" -> Len(e.ids) = Cardinality(Dom(s)) /\ Range(e.ids) = {s.m[k] : k \in Dom(s)}
    [] e.op = "k" -> e.ok = 1       \* iteration handed out the keys belonging to its elements
    [] OTHER -> FALSE
Apply(s, e) == CASE e.op = "s" -> Put(s, e.k, e.id)
                 [] e.op = "r" -> Drop(s, e.k)
                 [] OTHER -> s
=============================================================================
