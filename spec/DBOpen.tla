------------------------------- MODULE DBOpen -------------------------------
(* A database file over its life: created, used, closed, damaged, opened again. *)
(* The file has two meta pages; a commit overwrites the older (or damaged) one.  *)
(* Opening shows the newest state whose meta page is intact, creates an empty    *)
(* database where there is none yet, or refuses and leaves the file alone.      *)
EXTENDS Naturals, Sequences
CONSTANTS Keys, Values
Empty == [k \in Keys |-> 0]
Contents == [Keys -> Values \cup {0}]
(* kind "db": states new and old [ok, c]; every other kind has no intact state *)
Kinds == {"absent", "empty", "short", "blank", "foreign", "db", "cut"}
Slot(ok, c) == [ok |-> ok, c |-> c]
Nothing == Slot(FALSE, Empty)
File(kind, new, old) == [kind |-> kind, new |-> new, old |-> old]
Other(kind) == File(kind, Nothing, Nothing)
Fresh == File("db", Slot(TRUE, Empty), Slot(TRUE, Empty))
(* what opening with these flags has to do: "refuse", "create" or "show" *)
Outcome(f, create, ro, small) ==
  IF small THEN "refuse"
  ELSE CASE f.kind = "db" /\ (f.new.ok \/ f.old.ok) -> "show"
         [] f.kind \in {"absent", "empty", "blank"} /\ create /\ ~ro -> "create"
         [] OTHER -> "refuse"
Shown(f) == IF f.new.ok THEN f.new.c ELSE f.old.c
AfterOpen(f, create, ro, small) == IF Outcome(f, create, ro, small) = "create" THEN Fresh ELSE f
Committed(f, c) == File("db", Slot(TRUE, c), IF f.new.ok THEN f.new ELSE f.old)
(* both meta pages blank: as after an interrupted creation, nothing can be said about such a file if it is longer *)
Damaged(f, which) == [f EXCEPT !.new.ok = @ /\ which = "o", !.old.ok = @ /\ which = "n"]
(* with only one intact state left, that one is the newest *)
Normal(f) == IF f.kind = "db" /\ ~f.new.ok THEN File("db", f.old, f.new) ELSE f
-----------------------------------------------------------------------------
(* the life of a file, for model checking *)
VARIABLES file, open, hist    \* hist: the committed contents, oldest first
vars == <<file, open, hist>>
Init == file = Other("absent") /\ open = "no" /\ hist = <<>>
Open == \E create, ro, small \in BOOLEAN :
          /\ open = "no"
          /\ LET o == Outcome(file, create, ro, small) IN
             /\ open' = (IF o = "refuse" THEN "no" ELSE IF ro THEN "ro" ELSE "rw")
             /\ file' = AfterOpen(file, create, ro, small)
             /\ hist' = (IF o = "create" THEN <<Empty, Empty>> ELSE hist)
Commit == /\ open = "rw" /\ Len(hist) < 5
          /\ \E k \in Keys, v \in Values : LET c == [Shown(file) EXCEPT ![k] = v] IN file' = Committed(file, c) /\ hist' = Append(hist, c)
          /\ UNCHANGED open
Close == open # "no" /\ open' = "no" /\ UNCHANGED <<file, hist>>
Damage == /\ open = "no" /\ file.kind = "db" /\ \E w \in {"n", "o", "b"} : file' = Normal(Damaged(file, w)) /\ UNCHANGED <<open, hist>>
Lose == /\ open = "no" /\ \E k \in Kinds \ {"db"} : file' = Other(k) /\ UNCHANGED <<open, hist>>
Next == Open \/ Commit \/ Close \/ Damage \/ Lose
Spec == Init /\ [][Next]_vars
TypeOK == file.kind \in Kinds
(* whatever happens to the file, what is shown was committed *)
OnlyCommitted == open # "no" => \E i \in 1..Len(hist) : Shown(file) = hist[i]
(* an undamaged file shows the last commit *)
LastIfIntact == (open # "no" /\ file.new.ok /\ file.old.ok) => Shown(file) = hist[Len(hist)]
NeverNothing == open # "no" => file.kind = "db" /\ (file.new.ok \/ file.old.ok)
=============================================================================
