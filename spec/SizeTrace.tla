------------------------------ MODULE SizeTrace ------------------------------
(* op "parse":  s text, got: sequence of base-1024 digits, ok                  *)
(* op "format": v digits, got: characters                                     *)
(* op "cli":    opt ("m","M","x","j","T"), s text, rc, usage, sizes (sequence  *)
(*              of digit sequences): sizes present as twins, shown: reported   *)
(* op "line":   ws: the words of a command line (see Size), rc, usage, shown   *)
EXTENDS Size, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
Agrees(want, ok, got) == CASE want.k = "free" -> TRUE
                           [] want.k = "refused" -> ~ok
                           [] want.k = "value" -> ok /\ got = want.v
Cli(r) ==
  LET want == CASE r.opt \in {"m", "M", "x"} -> Parse(r.s) [] r.opt = "j" -> ParseThreads(r.s) [] r.opt = "T" -> ParseLevel(r.s)
      lim == want.v
      all == Rng(r.sizes)
  IN CASE want.k = "free" -> TRUE
       [] want.k = "refused" -> r.rc # 0 /\ r.rc < 1000 /\ r.usage /\ r.shown = <<>>
       [] want.k = "value" ->
            LET sel == CASE r.opt = "m" -> {x \in all : ~Less(x, lim)}
                         [] r.opt = "M" -> {x \in all : lim = <<>> \/ ~Less(lim, x)}
                         [] OTHER -> all
            IN IF sel = {} THEN r.shown = <<>> ELSE r.rc = 0 /\ (r.opt = "T" \/ Rng(r.shown) = sel)
WholeLine(r) == LET want == Line(r.ws, 1) IN
  CASE want = "scan" -> r.rc = 0 /\ Rng(r.shown) = Rng(r.sizes)
    [] want = "info" -> r.rc = 0 /\ r.shown = <<>>
    [] OTHER -> r.rc # 0 /\ r.rc < 1000 /\ r.usage /\ r.shown = <<>>
Conforms(r) == CASE r.op = "parse" -> Agrees(Parse(r.s), r.ok, r.got)
                 [] r.op = "format" -> r.got \in Renderings(r.v)
                 [] r.op = "cli" -> Cli(r)
                 [] r.op = "line" -> WholeLine(r)
Why(r) == CASE r.op = "parse" -> <<r.s, Parse(r.s)>> [] r.op = "format" -> <<r.v, Renderings(r.v)>> [] r.op = "line" -> <<r.ws, Line(r.ws, 1)>> [] OTHER -> <<r.opt, r.s>>
Init == l = 1
Next == l <= Len(Trace) /\ (IF Conforms(Trace[l]) THEN l' = l + 1 ELSE PrintT(<<"WHY", l, Why(Trace[l])>>) /\ FALSE /\ l' = l)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
