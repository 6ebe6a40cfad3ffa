------------------------------- MODULE Ignore -------------------------------
(* gitignore semantics, stated on path components and characters, without    *)
(* regular expressions.  Lines and names are sequences of one-character      *)
(* strings; paths are sequences of names.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

Blank == {" ", "\t", "\r"}
Alphabet == << "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4",
               "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H",
               "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\",
               "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
               "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
Ord(c) == IF \E i \in 1..Len(Alphabet) : Alphabet[i] = c
          THEN CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c ELSE 0

RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Head(s) \in Blank THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == LET n == Len(s) IN
            IF n > 0 /\ s[n] \in Blank /\ ~(n > 1 /\ s[n-1] = "\\")
            THEN RTrim(SubSeq(s, 1, n-1)) ELSE s

RECURSIVE SplitSlash(_)
SplitSlash(s) ==
  IF ~ \E i \in 1..Len(s) : s[i] = "/" THEN <<s>>
  ELSE LET k == CHOOSE i \in 1..Len(s) : s[i] = "/" /\ \A j \in 1..(i-1) : s[j] # "/"
       IN <<SubSeq(s, 1, k-1)>> \o SplitSlash(SubSeq(s, k+1, Len(s)))

NoPattern == [none |-> TRUE, neg |-> FALSE, dir |-> FALSE, anch |-> FALSE, comps |-> <<>>]

(* One line of an ignore file. *)
ParseLine(line) ==
  LET t    == RTrim(LTrim(line))
      neg  == t # <<>> /\ t[1] = "!"
      b    == IF neg THEN LTrim(Tail(t)) ELSE t
      lead == b # <<>> /\ b[1] = "/"
      c    == IF lead THEN Tail(b) ELSE b
      dir  == c # <<>> /\ c[Len(c)] = "/"
      d    == IF dir THEN SubSeq(c, 1, Len(c)-1) ELSE c
  IN IF t = <<>> \/ t[1] = "#" \/ d = <<>> THEN NoPattern
     ELSE [none |-> FALSE, neg |-> neg, dir |-> dir,
           anch |-> lead \/ \E i \in 1..Len(d) : d[i] = "/",
           comps |-> SplitSlash(d)]

RECURSIVE ParseAll(_)
ParseAll(lines) == IF lines = <<>> THEN <<>>
                   ELSE LET p == ParseLine(Head(lines))
                        IN (IF p.none THEN <<>> ELSE <<p>>) \o ParseAll(Tail(lines))

(* Position of the "]" that ends a class, searching from position i; 0 if   *)
(* the class is never closed.  A backslash protects the next character.      *)
RECURSIVE CloseAt(_, _)
CloseAt(p, i) == IF i > Len(p) THEN 0
                 ELSE IF p[i] = "\\" THEN CloseAt(p, i + 2)
                 ELSE IF p[i] = "]" THEN i ELSE CloseAt(p, i + 1)
(* The class that starts at p[1] = "[": a "]" in first place is a member.    *)
ClassEnd(p) ==
  LET start == IF Len(p) >= 2 /\ p[2] \in {"!", "^"} THEN 3 ELSE 2
  IN IF start <= Len(p) /\ p[start] = "]" THEN CloseAt(p, start + 1) ELSE CloseAt(p, start)

(* Members of a class: characters, each literal (lit) or possibly a range dash. *)
RECURSIVE Items(_)
Items(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] = "\\" /\ Len(s) >= 2 THEN <<[c |-> s[2], lit |-> TRUE]>> \o Items(SubSeq(s, 3, Len(s)))
            ELSE <<[c |-> s[1], lit |-> FALSE]>> \o Items(Tail(s))
RECURSIVE InItems(_, _)
InItems(items, c) ==
  IF items = <<>> THEN FALSE
  ELSE IF Len(items) >= 3 /\ items[2].c = "-" /\ ~items[2].lit
       THEN (Ord(items[1].c) > 0 /\ Ord(items[1].c) <= Ord(c) /\ Ord(c) <= Ord(items[3].c))
            \/ InItems(SubSeq(items, 4, Len(items)), c)
       ELSE items[1].c = c \/ InItems(Tail(items), c)

RECURSIVE WildAt(_, _, _, _)
(* One path component against one pattern component, from positions i and j. *)
WildAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = "*" /\ \A k \in (i+1)..Len(p) : p[k] \notin {"*", "?", "\\", "["}
       THEN Len(s) - j >= Len(p) - i - 1 /\ \A k \in (i+1)..Len(p) : s[Len(s) - Len(p) + k] = p[k]
  ELSE IF p[i] = "*" THEN WildAt(p, i+1, s, j) \/ (j <= Len(s) /\ WildAt(p, i, s, j+1))
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF p[i] = "?" THEN WildAt(p, i+1, s, j+1)
  ELSE IF p[i] = "\\" /\ i < Len(p) THEN p[i+1] = s[j] /\ WildAt(p, i+2, s, j+1)
  ELSE IF p[i] = "["
       THEN LET c == SubSeq(p, i, Len(p))
                e == ClassEnd(c)
            IN e > 0 /\
               LET neg == c[2] \in {"!", "^"}
                   its == SubSeq(c, IF neg THEN 3 ELSE 2, e-1)
               IN (InItems(Items(its), s[j]) # neg) /\ WildAt(p, i+e, s, j+1)
  ELSE p[i] = s[j] /\ WildAt(p, i+1, s, j+1)
Wild(p, s) == WildAt(p, 1, s, 1)

DoubleStar == <<"*", "*">>
RECURSIVE PathMatch(_, _)
(* Pattern components against path components (each a character sequence). *)
PathMatch(cs, path) ==
  IF cs = <<>> THEN path = <<>>
  ELSE IF cs[1] = DoubleStar
       THEN IF Len(cs) = 1 THEN path # <<>>
            ELSE PathMatch(Tail(cs), path) \/ (path # <<>> /\ PathMatch(cs, Tail(path)))
       ELSE path # <<>> /\ Wild(cs[1], path[1]) /\ PathMatch(Tail(cs), Tail(path))

Matches(pat, rel, isdir) ==
  /\ pat.dir => isdir
  /\ rel # <<>>
  /\ IF pat.anch THEN PathMatch(pat.comps, rel)
     ELSE IF Len(pat.comps) = 1 /\ pat.comps[1] # DoubleStar THEN Wild(pat.comps[1], rel[Len(rel)])
     ELSE PathMatch(<<DoubleStar>> \o pat.comps, rel)

(* Verdict of one ignore file: the last matching pattern decides. *)
FileVerdict(pats, rel, isdir) ==
  LET m == {i \in 1..Len(pats) : Matches(pats[i], rel, isdir)}
  IN IF m = {} THEN "none"
     ELSE LET last == CHOOSE i \in m : \A j \in m : j <= i
          IN IF pats[last].neg THEN "keep" ELSE "ignore"

(* Verdict over a chain of ignore files, outermost first.  Each element has  *)
(* the depth of its directory (components to drop from the path).            *)
RECURSIVE Verdict(_, _, _)
Verdict(chain, path, isdir) ==
  IF chain = <<>> THEN "none"
  ELSE LET inner == chain[Len(chain)]
           v == FileVerdict(inner.pats, SubSeq(path, inner.depth + 1, Len(path)), isdir)
       IN IF v # "none" THEN v ELSE Verdict(SubSeq(chain, 1, Len(chain)-1), path, isdir)

BuiltinLines == <<
  <<".","g","i","t","/">>, <<".","h","g","/">>, <<".","s","v","n","/">>,
  <<"b","u","i","l","d","/">>, <<"d","i","s","t","/">>, <<"o","u","t","/">>,
  <<"t","a","r","g","e","t","/">>, <<"b","i","n","/">>,
  <<"*",".","o">>, <<"*",".","c","l","a","s","s">>, <<"*",".","p","y","c">>, <<"*",".","p","y","o">>,
  <<"n","o","d","e","_","m","o","d","u","l","e","s","/">>, <<"v","e","n","d","o","r","/">>, <<".","v","e","n","v","/">>,
  <<".","D","S","_","S","t","o","r","e">>, <<"T","h","u","m","b","s",".","d","b">>, <<"*",".","s","w","p">>, <<"*","~">>,
  <<".","i","d","e","a","/">>, <<".","v","s","c","o","d","e","/">> >>
Builtin == ParseAll(BuiltinLines)
=============================================================================
