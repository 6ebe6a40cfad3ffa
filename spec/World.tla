-------------------------------- MODULE World --------------------------------
(* The file tree a run of ftwin sees, the options it is given, and the set of *)
(* files it must consider: the declarative half of the specification.        *)
(*                                                                           *)
(* A world w is a record                                                     *)
(*   nodes : sequence of [p : path, k : "f"|"d"|"l", sz, c, t : path, x]     *)
(*           (t: target of a link, x: FALSE when the entry is inaccessible)  *)
(*   chars : function name -> sequence of characters (names, lines, words)   *)
(*   ign   : sequence of [p : directory path, lines : sequence of strings]   *)
(*   opts  : record of options;  args : sequence of [p : path, d : display]  *)
(* Paths are sequences of names.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Ignore

Ch(w, s) == w.chars[s]
NodeAt(w, p) == LET m == {i \in 1..Len(w.nodes) : w.nodes[i].p = p}
                IN IF m = {} THEN [p |-> p, k |-> "none", sz |-> 0, c |-> 0, t |-> <<>>, x |-> FALSE, mt |-> <<0, 0>>, h |-> "?"]
                   ELSE w.nodes[CHOOSE i \in m : TRUE]
IsChild(p, q) == Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p
Children(w, p) == {w.nodes[i].p[Len(p)+1] : i \in {j \in 1..Len(w.nodes) : IsChild(p, w.nodes[j].p)}}
LinesAt(w, p) == LET m == {i \in 1..Len(w.ign) : w.ign[i].p = p}
                 IN IF m = {} THEN <<>> ELSE w.ign[CHOOSE i \in m : TRUE].lines
HasIgn(w, p) == \E i \in 1..Len(w.ign) : w.ign[i].p = p

(* ---- character helpers ---- *)
UpperA == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerA == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == {UpperA[i] : i \in 1..26}
ToLow == [c \in UpperSet |-> LowerA[CHOOSE i \in 1..26 : UpperA[i] = c]]
LowC(c) == IF c \in UpperSet THEN ToLow[c] ELSE c
Low(s) == [i \in 1..Len(s) |-> LowC(s[i])]
Fold(s, icase) == IF icase THEN Low(s) ELSE s
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasInfix(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i+1, i+Len(p)) = p

(* Regular expressions are given as lists of alternatives: literal prefix,   *)
(* suffix, infix or whole string.  The driver writes them as PCRE.           *)
AltMatch(s, a) == CASE a.k = "prefix" -> HasPrefix(s, a.l)
                    [] a.k = "suffix" -> HasSuffix(s, a.l)
                    [] a.k = "infix"  -> HasInfix(s, a.l)
                    [] a.k = "exact"  -> s = a.l
RegexMatch(alts, s, icase) == \E i \in 1..Len(alts) :
      AltMatch(Fold(s, icase), [k |-> alts[i].k, l |-> Fold(alts[i].l, icase)])

RECURSIVE JoinRest(_, _)
JoinRest(w, p) == IF p = <<>> THEN <<>> ELSE <<"/">> \o Ch(w, Head(p)) \o JoinRest(w, Tail(p))
(* What is displayed for the entry q below argument a (a trailing slash of   *)
(* the argument is not doubled).                                             *)
Display(w, a, q) == LET d == w.args[a].d
                        r == JoinRest(w, q)
                    IN IF r # <<>> /\ d # <<>> /\ d[Len(d)] = "/" THEN d \o Tail(r) ELSE d \o r

(* ---- which files are considered ---- *)
RECURSIVE Resolve(_, _, _)
(* Follow links at the end of path p (targets are given as real paths). *)
Resolve(w, p, fuel) == LET n == NodeAt(w, p) IN
   IF n.k = "l" /\ fuel > 0 THEN Resolve(w, n.t, fuel - 1) ELSE n

SizeOK(o, sz) == sz >= o.min /\ (o.max = 0 \/ sz <= o.max)

NameOK(w, o, nm) == /\ nm \notin {o.ilist[i] : i \in 1..Len(o.ilist)}
                    /\ (Ch(w, nm)[1] # "." \/ o.hidden)

Rel(w, q) == [i \in 1..Len(q) |-> Ch(w, q[i])]

RECURSIVE Walk(_, _, _, _, _, _)
(* a: argument, q: names below it, n: node reached (links resolved),         *)
(* anc: real directories on the way, chain: ignore files in force.           *)
Walk(w, a, q, n, anc, chain) ==
  LET o == w.opts
      top == q = <<>>
      ignored == ~top /\ Verdict(chain, Rel(w, q), n.k = "d") = "ignore"
  IN IF n.k = "none" \/ ~n.x \/ ignored THEN {}
     ELSE IF n.k = "f"
     THEN IF /\ SizeOK(o, n.sz)
             /\ top \/ o.wre = <<>> \/ RegexMatch(o.wre, Display(w, a, q), o.icase)
          THEN {[a |-> a, q |-> q]} ELSE {}
     ELSE IF n.k = "d"
     THEN IF n.p \in anc \/ (~top /\ ~o.rec) THEN {}
          ELSE LET ch2 == IF HasIgn(w, n.p)
                          THEN Append(chain, [depth |-> Len(q),
                                              pats |-> ParseAll([i \in 1..Len(LinesAt(w, n.p)) |-> Ch(w, LinesAt(w, n.p)[i])])])
                          ELSE chain
                   kids == {nm \in Children(w, n.p) :
                              /\ NameOK(w, o, nm)
                              /\ ~RegexMatch(o.ere, Display(w, a, Append(q, nm)), o.icase)}
                   node(nm) == LET m == NodeAt(w, Append(n.p, nm))
                               IN IF m.k = "l" THEN (IF o.follow THEN Resolve(w, m.p, 8)
                                                     ELSE [m EXCEPT !.k = "none"])
                                  ELSE m
               IN UNION {Walk(w, a, Append(q, nm), node(nm), anc \cup {n.p}, ch2) : nm \in kids}
     ELSE {}

ArgNode(w, a) == LET m == NodeAt(w, w.args[a].p)
                 IN IF m.k = "l" THEN (IF w.opts.follow THEN Resolve(w, m.p, 8) ELSE [m EXCEPT !.k = "none"]) ELSE m

BuiltinChain == <<[depth |-> 0, pats |-> Builtin]>>
(* Occurrences [a, q]; the first argument through which a path is reached    *)
(* counts, later ones add nothing.                                           *)
Occurrences(w) == UNION {Walk(w, a, <<>>, ArgNode(w, a), {}, BuiltinChain) : a \in 1..Len(w.args)}
AbsPath(w, x) == w.args[x.a].p \o x.q
Considered(w) == {AbsPath(w, x) : x \in Occurrences(w)}

RECURSIVE RealAlong(_, _, _)
(* Node reached by an access path (intermediate links resolved). *)
RealAlong(w, n, q) == IF q = <<>> THEN n
   ELSE LET m == NodeAt(w, Append(n.p, Head(q)))
            r == IF m.k = "l" THEN Resolve(w, m.p, 8) ELSE m
        IN RealAlong(w, r, Tail(q))
NodeOf(w, x) == RealAlong(w, ArgNode(w, x.a), x.q)

(* ---- the report ---- *)
(* Displayed files carry their absolute access path; content is that of the  *)
(* node reached.  Exactly the classes of equal content with >= 2 members.    *)
Cands(w) == LET occ == Occurrences(w)
            IN {[p |-> pp, n |-> NodeOf(w, CHOOSE x \in occ : AbsPath(w, x) = pp)] : pp \in Considered(w)}
SameContent(m, n) == m.sz = n.sz /\ (m.sz = 0 \/ m.c = n.c)
Classes(w) == LET cs == Cands(w)
              IN {cl \in {{y.p : y \in {z \in cs : SameContent(x.n, z.n)}} : x \in cs} : Cardinality(cl) >= 2}
==============================================================================
