------------------------------- MODULE Gen -------------------------------
(* Generates behaviours of the specification over a given alphabet of     *)
(* operations (a JSON file), as sequences of positions in that alphabet.  *)
(*   cover:    breadth first; every transition out of every state found   *)
(*             (up to the depth) is printed with a shortest way there     *)
(*   simulate: random walks, printed when they reach the depth            *)
EXTENDS DeckardCore, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.GENCFG)
Ops == Cfg.ops                    \* sequence of operations
H == Cfg.hdr
Depth == Cfg.depth
Start == Cfg.start                \* operations performed first (positions)

VARIABLES s, hist

ScoreOf(k) == Min(s.pool[k].score)
OrdOf(k) == IF k \in DOMAIN s.store THEN s.store[k].seq ELSE 0
Before(j, k) == ScoreOf(j) < ScoreOf(k) \/ (ScoreOf(j) = ScoreOf(k) /\ OrdOf(j) < OrdOf(k))
Choice(o) ==
  LET lo == MinBound(o.min) hi == MaxBound(s.now, o)
      M == {k \in Avail(s, o.q) : MayMatch(s, k, lo, hi)}
  IN {k \in M : Cardinality({j \in M : Before(j, k)}) < Amount(o.n)}

GPost(o) == IF o.op = "pull" THEN PullPost(H, s, o, Choice(o)) ELSE Post(H, s, o)

Useful(o) ==
  CASE o.op = "pull" -> Choice(o) # {}
    [] o.op \in {"ack", "nack"} -> Inflight(s, <<o.q, o.id>>)
    [] o.op = "timeout" -> DueTimeout(s) # {}
    [] o.op = "unlock" -> DueUnlock(s) # {}
    [] o.op = "ttl" -> Expired(s) # {}
    [] o.op = "max" -> MaxVictims(s) # {}
    [] o.op = "remove" -> \E i \in DOMAIN o.ids : <<o.q, o.ids[i]>> \in DOMAIN s.store
    [] o.op \in {"storedrop", "cachedrop"} -> \E i \in DOMAIN o.ids : <<o.q, o.ids[i]>> \in DOMAIN s.pool
    [] o.op = "adv" -> s.now + o.d <= Cfg.maxnow
    [] o.op = "recover" -> ~s.rec.done
    [] o.op = "lag" -> o.on = (s.view = <<>>)
    [] o.op \in {"losecache", "cacheflush", "flush"} -> DOMAIN s.store # {}
    [] OTHER -> TRUE
Allowed(o) == /\ o.op = "adv" => s.now + o.d <= Cfg.maxnow
              /\ o.op = "storedrop" => s.view = <<>>

RECURSIVE Walk(_, _)
Walk(st, is) == IF is = <<>> THEN st ELSE Walk(Post(H, st, Ops[Head(is)]), Tail(is))

Init == hist = Start /\ s = Walk(Init0, Start)

Do(i) == /\ s' = GPost(Ops[i])
         /\ hist' = Append(hist, i)

NextCover == \E i \in 1..Len(Ops) : Allowed(Ops[i]) /\ Do(i) /\ PrintT("GEN " \o ToString(hist'))
CoverConstraint == Len(hist) < Depth + Len(Start)
View == s
SpecCover == Init /\ [][NextCover]_<<s, hist>>

NextSim ==
  LET U == {i \in 1..Len(Ops) : Allowed(Ops[i]) /\ Useful(Ops[i])}
      A == {i \in 1..Len(Ops) : Allowed(Ops[i])}
      i == RandomElement(IF U # {} /\ RandomElement(1..10) <= Cfg.bias THEN U ELSE A)
  IN /\ Len(hist) < Depth + Len(Start)
     /\ Do(i)
     /\ IF Len(hist) + 1 = Depth + Len(Start) THEN PrintT("GEN " \o ToString(hist')) ELSE TRUE
SpecSim == Init /\ [][NextSim]_<<s, hist>>
=============================================================================
