------------------------------ MODULE BulkGen ------------------------------
(* Random behaviours of Bulk over an alphabet of operations. *)
EXTENDS Bulk, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.GENCFG)
Ops == Cfg.ops
CAP == Cfg.hdr.cap
VARIABLES s, hist
E == ToString(Len(hist))

Gets(q, n) == Spread(s, Avail(s, q), Score, IF q = Many THEN Sum(s, Avail(s, q)) ELSE Amount(n))
Runs(st) == FoldSet(LAMBDA q, x : LET B == DueIn(s, q, st) IN Spread(s, B, Due, AtLeast(q, Sum(s, B))) @@ x, <<>>, Queues(s))
Olds == Spread(s, Expired(s), Exp, TTLRUN)
Excs == FoldSet(LAMBDA q, x : Spread(s, InQueue(s, q), Exp, Over(s, q)) @@ x, <<>>, Queues(s))
Can(o) ==
  CASE o.op = "add" -> s.rec = "done" /\ Sum(s, DOMAIN s.cells) + o.n <= CAP /\ (o.q = Many => Sum(s, InQueue(s, Many)) + o.n <= 2500)
    [] o.op \in {"pull", "drain"} -> Avail(s, o.q) # {}
    [] o.op \in {"ack", "nack"} -> InFlight(s, o.q, o.g) # {}
    [] o.op = "timeout" -> Some(Runs("P")) # {}
    [] o.op = "unlock" -> Some(Runs("KA") @@ Runs("KN")) # {}
    [] o.op = "ttl" -> s.rec # "run" /\ Expired(s) # {}
    [] o.op = "max" -> Some(Excs) # {}
    [] o.op = "remove" -> OfGroup(s, o.q, o.g) # {}
    [] o.op \in {"lose", "cacheflush"} -> s.rec = "done" /\ DOMAIN s.cells # {}
    [] o.op = "recover" -> s.rec # "done"
    [] o.op = "adv" -> s.now < 60 /\ DOMAIN s.cells # {}
    [] o.op = "editq" -> Sum(s, InQueue(s, o.q)) > o.n
    [] OTHER -> DOMAIN s.cells # {}
BPost(o) ==
  CASE o.op = "add" -> [s EXCEPT !.cells = ((o.g \o "." \o E) :> Batch(o.q, o.g, o.n, o.sc, s.now + o.ttl)) @@ @]
    [] o.op = "pull" -> Leased(s, Gets(o.q, o.n), E, o.dl)
    [] o.op = "drain" -> Leased(s, All(s, Avail(s, o.q)), E, o.dl)
    [] o.op \in {"ack", "nack"} -> Acked(s, Spread(s, InFlight(s, o.q, o.g), Due, o.n), E, o)
    [] o.op = "timeout" -> Returned(s, Runs("P"), E)
    [] o.op = "unlock" -> Unlocked(s, Runs("KA") @@ Runs("KN"), E)
    [] o.op = "ttl" -> Take(s, Olds)
    [] o.op = "max" -> Take(s, Excs)
    [] o.op = "remove" -> Take(s, Spread(s, OfGroup(s, o.q, o.g), Exp, o.n))
    [] o.op \in {"lose", "cacheflush"} -> Forget(s)
    [] o.op = "recover" -> LET x == Spread(s, Lost(s), Exp, PAGE) IN RecAfter(Recovered(s, x, E), SumObs(x))
    [] o.op = "adv" -> [s EXCEPT !.now = @ + o.d]
    [] o.op = "editq" -> [s EXCEPT !.max = (o.q :> o.n) @@ @]
    [] OTHER -> s
Init == s = B0 /\ hist = <<>>
\* kinds of operations by weight
W(k) == IF k \in DOMAIN Cfg.hdr.w THEN Cfg.hdr.w[k] ELSE 2
Pick(U) == LET k == RandomElement(UNION {{<<Ops[i].op, j>> : j \in 1..W(Ops[i].op)} : i \in U})[1] IN RandomElement({j \in U : Ops[j].op = k})
Next ==
  /\ Len(hist) < Cfg.depth
  /\ \E U \in {{i \in 1..Len(Ops) : Can(Ops[i])}} : \E i \in {Pick(U)} : s' = BPost(Ops[i]) /\ hist' = Append(hist, i)
  /\ IF Len(hist) + 1 = Cfg.depth THEN PrintT("GEN " \o ToString(hist')) ELSE TRUE
SpecSim == Init /\ [][Next]_<<s, hist>>
=============================================================================
