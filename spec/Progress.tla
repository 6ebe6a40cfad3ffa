------------------------------ MODULE Progress ------------------------------
(* What -v tells about the work on the contents of files: every file announced *)
(* is either counted, once, or named as skipped; the counts shown go up one by  *)
(* one.                                                                       *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Files, Bad            \* Bad: those that cannot be read
VARIABLES todo, shown, named    \* not looked at yet; the counts shown so far; the files named as skipped
avars == <<todo, shown, named>>
AInit == todo = Files /\ shown = <<>> /\ named = {}
Count == \E f \in todo \ Bad : todo' = todo \ {f} /\ shown' = Append(shown, Len(shown) + 1) /\ UNCHANGED named
Skip  == \E f \in todo \cap Bad : todo' = todo \ {f} /\ named' = named \cup {f} /\ UNCHANGED shown
ANext == Count \/ Skip
ASpec == AInit /\ [][ANext]_avars
(* a finished report *)
Complete(counts, skipped, announced) ==
  /\ \A i \in 1..Len(counts) : counts[i] = i
  /\ Len(counts) + Cardinality(skipped) = announced
CompleteAtEnd == todo = {} => Complete(shown, named, Cardinality(Files)) /\ named = Bad
=============================================================================
