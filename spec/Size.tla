-------------------------------- MODULE Size --------------------------------
(* The meaning of size texts and of rendered sizes.  Sizes are sequences of   *)
(* digits in base 1024, least significant first, without leading zeroes.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
B == 1024
DigitChars == <<"0","1","2","3","4","5","6","7","8","9">>
DigitSet == {DigitChars[i] : i \in 1..10}
ValMap == [c \in DigitSet |-> (CHOOSE i \in 1..10 : DigitChars[i] = c) - 1]
Blank == {" ", "\t", "\f", "\r"}

RECURSIVE Norm(_)
Norm(x) == IF x = <<>> THEN <<>> ELSE IF x[Len(x)] = 0 THEN Norm(SubSeq(x, 1, Len(x)-1)) ELSE x
RECURSIVE MulAdd(_, _, _)
(* x * m + c *)
MulAdd(x, m, c) == IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o MulAdd(<<>>, m, c \div B))
                   ELSE LET v == x[1] * m + c IN <<v % B>> \o MulAdd(Tail(x), m, v \div B)
RECURSIVE DivTop(_, _, _)
(* divides by 10 from the most significant digit i down, remainder r *)
DivTop(x, i, r) == IF i = 0 THEN <<>> ELSE LET v == r * B + x[i] IN DivTop(x, i-1, v % 10) \o <<v \div 10>>
Div10(x) == Norm(DivTop(x, Len(x), 0))
RECURSIVE Div10n(_, _)
Div10n(x, n) == IF n = 0 THEN x ELSE Div10n(Div10(x), n-1)
RECURSIVE FromDigits(_, _)
FromDigits(s, x) == IF s = <<>> THEN Norm(x) ELSE FromDigits(Tail(s), MulAdd(x, 10, ValMap[Head(s)]))
Zeros(n) == [i \in 1..n |-> 0]
Shift(x, n) == IF x = <<>> THEN <<>> ELSE Zeros(n) \o x
RECURSIVE LessRev(_, _, _)
LessRev(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessRev(x, y, i-1)
Less(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LessRev(x, y, Len(x)))
Limit63 == <<0, 0, 0, 0, 0, 0, 8>>          \* 2^63

RECURSIVE SpanDigits(_, _)
SpanDigits(s, i) == IF i <= Len(s) /\ s[i] \in DigitSet THEN SpanDigits(s, i+1) ELSE i
RECURSIVE SpanBlank(_, _)
SpanBlank(s, i) == IF i <= Len(s) /\ s[i] \in Blank THEN SpanBlank(s, i+1) ELSE i

Refused == [k |-> "refused", v |-> <<>>]
Free == [k |-> "free", v |-> <<>>]
Value(v) == IF Less(v, Limit63) THEN [k |-> "value", v |-> v] ELSE Refused
UnitOf(r) == \* the power of 1024 named by the text r, or 99
  LET u == [i \in 1..Len(r) |-> IF r[i] \in {"k","K"} THEN "K" ELSE IF r[i] \in {"m","M"} THEN "M" ELSE IF r[i] \in {"g","G"} THEN "G"
                                 ELSE IF r[i] \in {"t","T"} THEN "T" ELSE IF r[i] \in {"b","B"} THEN "B" ELSE IF r[i] \in {"i","I"} THEN "I" ELSE "?"]
      pow(c) == CASE c = "K" -> 1 [] c = "M" -> 2 [] c = "G" -> 3 [] c = "T" -> 4 [] OTHER -> 99
  IN IF u = <<>> \/ u = <<"B">> THEN 0
     ELSE IF Len(u) = 1 \/ (Len(u) = 2 /\ u[2] = "B") \/ (Len(u) = 3 /\ u[2] = "I" /\ u[3] = "B") THEN pow(u[1])
     ELSE 99
Parse(s) ==
  IF s = <<>> THEN Refused
  ELSE IF s[1] \in Blank \cup {"+"} THEN Free                 \* not settled
  ELSE IF Len(s) >= 2 /\ s[1] = "0" /\ s[2] \in {"x", "X"} THEN Free
  ELSE IF s[1] = "-" /\ \A i \in 2..Len(s) : s[i] \in (DigitSet \ {"0"}) => \E j \in 2..i : s[j] \in {"e", "E"} THEN Free   \* minus zero
  ELSE IF s[1] = "-" THEN Refused
  ELSE LET a == SpanDigits(s, 1)
           dot == a <= Len(s) /\ s[a] = "."
           b == IF dot THEN SpanDigits(s, a+1) ELSE a
           int == SubSeq(s, 1, a-1)
           frac == IF dot THEN SubSeq(s, a+1, b-1) ELSE <<>>
           c == SpanBlank(s, b)
           unit == SubSeq(s, c, Len(s))
           exp == /\ b <= Len(s) /\ s[b] \in {"e", "E"}
                  /\ b + 1 <= Len(s) /\ s[b+1] \in DigitSet \cup {"+", "-"}
       IN IF int = <<>> /\ frac = <<>> THEN Refused
          ELSE IF exp THEN Free
          ELSE IF unit = <<>> /\ c > b THEN Free
          ELSE IF UnitOf(unit) = 99 THEN Refused
          ELSE Value(Div10n(Shift(FromDigits(int \o frac, <<>>), UnitOf(unit)), Len(frac)))

(* Thread counts: whole numbers from 1 to 256. *)
ParseThreads(s) ==
  IF s # <<>> /\ s[1] \in Blank \cup {"+"} THEN Free
  ELSE IF s = <<>> \/ \E i \in 1..Len(s) : s[i] \notin DigitSet THEN Refused
  ELSE LET v == FromDigits(s, <<>>) IN IF Len(v) = 1 /\ v[1] <= 256 THEN [k |-> "value", v |-> v] ELSE Refused
ParseLevel(s) == IF Len(s) = 1 /\ s[1] \in {"1","2","3","4","5"} THEN [k |-> "value", v |-> <<ValMap[s[1]]>>] ELSE Refused

(* ---- rendering ---- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<DigitChars[n+1]>> ELSE Dec(n \div 10) \o <<DigitChars[(n % 10)+1]>>
Units == << <<"B">>, <<"K","i","B">>, <<"M","i","B">>, <<"G","i","B">>, <<"T","i","B">>, <<"P","i","B">>, <<"E","i","B">> >>
(* The set of acceptable renderings: one decimal, nearest (either way in the   *)
(* middle).                                                                  *)
Renderings(v) ==
  IF Len(v) <= 1 THEN {Dec(IF v = <<>> THEN 0 ELSE v[1]) \o <<" ", "B">>}
  ELSE LET n == Len(v)
           low == SubSeq(v, 1, n-2)
           up == ((v[n-1] * 10) % B) * B + (IF low = <<>> THEN 0 ELSE low[Len(low)] * 10)   \* of 1024*1024, plus sticky
           sticky == \E i \in 1..(Len(low)-1) : low[i] # 0
           half == (B * B) \div 2
           u2 == up % (B * B)
           q == v[n] * 10 + (v[n-1] * 10) \div B + up \div (B * B)
           up1 == u2 > half \/ (u2 = half /\ sticky)
           rs == IF up1 THEN {q + 1} ELSE IF u2 = half THEN {q, q + 1} ELSE {q}
       IN {Dec(r \div 10) \o <<".">> \o <<DigitChars[(r % 10)+1]>> \o <<" ">> \o Units[n] : r \in rs}

(* The command line.  A word is [k, name, eq, cs]: k "long" (--name, eq: with  *)
(* "=value"), "short" (-cs, one letter after the other), "end" (--) or "plain". *)
Flags == {"a", "c", "d", "n", "f", "h", "I", "J", "o", "r", "R", "t", "v", "V"}
Valued == {"e", "T", "i", "m", "M", "p", "s", "j", "w", "x"}
LongName == ("hidden" :> "a") @@ ("case-unsensitive" :> "c") @@ ("display-size" :> "d") @@ ("dry-run" :> "n") @@ ("regex-ignore-file" :> "e")
  @@ ("follow-symlink" :> "f") @@ ("help" :> "h") @@ ("image-cmp" :> "I") @@ ("image-threshold" :> "T") @@ ("ignore-list" :> "i") @@ ("json" :> "J")
  @@ ("minimal-length" :> "m") @@ ("max-size" :> "M") @@ ("optimize-memory" :> "o") @@ ("priority-path" :> "p") @@ ("recurse-subdir" :> "r")
  @@ ("no-recurse" :> "R") @@ ("separator" :> "s") @@ ("tar-cmp" :> "t") @@ ("threads" :> "j") @@ ("verbose" :> "v") @@ ("version" :> "V")
  @@ ("whitelist-regex-file" :> "w") @@ ("excessive-size" :> "x")
(* "scan": a well-formed line with something to scan; "info": help or version   *)
(* came first; "refused": anything else.                                       *)
RECURSIVE Line(_, _), Cluster(_, _, _)
Line(ws, i) ==
  IF i > Len(ws) THEN "refused"
  ELSE LET w == ws[i] IN
    CASE w.k = "plain" -> "scan"
      [] w.k = "end" -> IF i < Len(ws) THEN "scan" ELSE "refused"
      [] w.k = "long" ->
           IF w.name \notin DOMAIN LongName THEN "refused"
           ELSE LET o == LongName[w.name] IN
             IF o \in Valued THEN (IF w.eq THEN Line(ws, i+1) ELSE IF i = Len(ws) THEN "refused" ELSE Line(ws, i+2))
             ELSE IF w.eq THEN "refused" ELSE IF o \in {"h", "V"} THEN "info" ELSE Line(ws, i+1)
      [] OTHER -> Cluster(ws, i, 1)
Cluster(ws, i, j) ==
  LET cs == ws[i].cs IN
  IF j > Len(cs) THEN Line(ws, i+1)
  ELSE IF cs[j] \in Valued THEN (IF j < Len(cs) THEN Line(ws, i+1) ELSE IF i = Len(ws) THEN "refused" ELSE Line(ws, i+2))
  ELSE IF cs[j] \notin Flags THEN "refused"
  ELSE IF cs[j] \in {"h", "V"} THEN "info" ELSE Cluster(ws, i, j+1)
=============================================================================
