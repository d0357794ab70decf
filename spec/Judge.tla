------------------------------ MODULE Judge ------------------------------
(* Compares one recorded event with the semantics of DeckardCore: the set *)
(* of discrepancies, each labelled with the properties it contradicts.    *)
EXTENDS Steps

D(props, why) == {<<p, why>> : p \in props}
When(c, props, why) == IF c THEN D(props, why) ELSE {}

ViaLabel(v) == CASE v = "add" -> {"C08"}
                 [] v \in {"ack", "nack"} -> {"C06"}
                 [] v = "tmo" -> {"C04"} [] v = "tmox" -> {"C04", "C22"} [] v = "pullx" -> {"C22"}
                 [] v = "unl" -> {"C05"}
                 [] v = "rec" -> {"C15"}
                 [] OTHER -> {}
ViaL(s, k) == ViaLabel(s.pool[k].via) \cup (IF k \in s.gone THEN {"C11"} ELSE {})
SvLabel(m) == (CASE m.sv \in {"ack", "nack"} -> {"C06"} [] m.sv = "free" -> {"C05"} [] OTHER -> {"C08"})
              \cup (IF m.re THEN {"C10"} ELSE {})
OpLabel(op) == CASE op = "add" -> {"C10"} [] op = "pull" -> {"C02"} [] op \in {"ack", "nack"} -> {"C06", "C07"}
                 [] op = "remove" -> {"C11"} [] op = "ttl" -> {"C12"} [] op = "max" -> {"C13"}
                 [] op = "flush" -> {"C18"} [] op = "cacheflush" -> {"C18"} [] op = "recover" -> {"C15"} [] op = "timeout" -> {"C04"}
                 [] op = "unlock" -> {"C05"} [] op = "count" -> {"C32"} [] op = "lists" -> {"C32"}
                 [] op = "get" -> {"C21"} [] op \in {"editq", "getq"} -> {"C14"}
                 [] op = "metrics" -> {"C28"} [] op = "refused" -> {"C30", "C33"} [] OTHER -> {"C09"}

OpQueues(e) == IF e.op = "add" THEN {e.msgs[i].q : i \in DOMAIN e.msgs}
               ELSE IF e.op \in {"pull", "wdrain", "ack", "nack", "remove", "storedrop", "cachedrop", "get", "editq", "count"} THEN {e.q} ELSE {}
\* queue names the cache does not accept
Refused(h, e) == h.refuse # <<>> /\ (e.op \in {"add", "pull", "ack", "nack", "remove"}) /\ OpQueues(e) \cap Range(h.refuse) # {}
                 /\ ~(e.op = "add" /\ ~ValidAdd(e)) /\ ~(e.op = "remove" /\ e.ids = <<>>)
                 /\ ~((e.op \in {"ack", "nack"}) /\ e.id = "")
\* Did the operation concern a given set of queues only, and is q another one?
Foreign(e, q) == OpQueues(e) # {} /\ q \notin OpQueues(e)
ForeignLabel(e, q) == IF Foreign(e, q) THEN {"C17"} ELSE {}

\* ------------------------------------------------------- delivered messages
FieldOf(s, k, m, lookup, v) ==        \* discrepancies against one version v of the stored message
  LET cc == IF lookup THEN v.c ELSE <<0, v.c[2], v.c[3], v.c[4]>>
      re == (IF v.re THEN {"C10"} ELSE {}) \cup (IF k \in s.gone THEN {"C11"} ELSE {})
  IN When(m.c # cc, {"C21"} \cup re, "content")
     \cup When(m.bp # v.bp, {"C21"} \cup re, "breakpoint")
     \cup When(~lookup /\ m.diag # v.diag, {"C20"} \cup re, "diagnostics")
     \cup When(m.score # v.score, SvLabel(v) \cup (IF k \in s.gone THEN {"C11"} ELSE {}), "reported score")
     \cup When(~InRange(m.score), {"C08"}, "reported score out of range")
CheckMsg(s, k, m, lookup) ==
  LET a == FieldOf(s, k, m, lookup, s.store[k]) IN
  IF a = {} THEN {}
  ELSE IF s.view # <<>> /\ k \in DOMAIN s.view[1] /\ FieldOf(s, k, m, lookup, s.view[1][k]) = {} THEN {}
  ELSE a

\* --------------------------------------------------------------------- pull
RespKeys(e) == [i \in DOMAIN e.r.msgs |-> <<e.r.msgs[i].q, e.r.msgs[i].id>>]
BadKey(s, e, k) ==
  IF k \in Avail(s, e.q) THEN (IF k \in DOMAIN s.store THEN {} ELSE D({"C22", "C11"}, "a removed message was delivered"))
  ELSE IF k[1] # e.q THEN D({"C17", "C21"}, "a message of another queue was delivered")
  ELSE IF k \in DOMAIN s.pool THEN
         (IF s.pool[k].st = "P" THEN D({"C01", "C04", "C07"}, "a leased message was delivered again")
          ELSE D({"C05"}, "a locked message was delivered"))
  ELSE IF k \in DOMAIN s.store THEN D({"C09", "C15"}, "a message without queue entry was delivered")
  ELSE D({"C11", "C09", "C12", "C13"}, "a message that does not exist was delivered")

PullSets(s, e) ==
  LET R == Range(RespKeys(e))
      lo == MinBound(e.min)  hi == MaxBound(s.now, e)
      stale == {k \in Avail(s, e.q) : k \notin DOMAIN s.store /\ MayMatch(s, k, lo, hi)}
  IN {x \in {R \cup S : S \in SUBSET stale} : LegalPull(s, e.q, Amount(e.n), lo, hi, x)}

PullWhy(s, e) ==
  LET ks == RespKeys(e)  R == Range(ks)
      lo == MinBound(e.min)  hi == MaxBound(s.now, e)
      A == Avail(s, e.q)
      M == {k \in A : DefMatch(s, k, lo, hi) /\ k \in DOMAIN s.store}
      bounded == IF lo # NoBound \/ hi # NoBound THEN {"C03"} ELSE {}
      left == M \ R
      hasStale == \E k \in A : k \notin DOMAIN s.store
      st == IF hasStale THEN {"C22"} ELSE {}
      vl(K) == UNION {ViaL(s, k) : k \in K}
      outs == {k \in R \cap A : ~MayMatch(s, k, lo, hi)}
      pairs == {p \in left \X (R \cap A) : Better(s, p[1], p[2])}
  IN UNION {BadKey(s, e, k) : k \in R}
     \cup When(outs # {}, {"C03"} \cup vl(outs), "a message outside the requested window was delivered")
     \cup When(Len(ks) > Amount(e.n), {"C02"}, "more messages than asked for")
     \cup When(outs = {} /\ Cardinality(R) < Amount(e.n) /\ left # {}, {"C02", "C09"} \cup bounded \cup st \cup vl(left),
               "fewer messages than available and asked for")
     \cup When(pairs # {}, {"C02", "C09"} \cup st \cup UNION {vl({p[1], p[2]}) : p \in pairs}, "a better message was left behind")

CheckPull(s, e) ==
  LET ks == RespKeys(e) IN
  IF e.r.err # "" THEN D({"C02", "C33"}, "pull failed: " \o e.r.err)
  ELSE When(Cardinality(Range(ks)) # Len(ks), {"C01", "C09"}, "a message twice in one pull")
       \cup When(PullSets(s, e) = {}, {"C02"}, "not a legal choice")
       \cup (IF PullSets(s, e) = {} THEN PullWhy(s, e) ELSE {})
       \cup UNION {CheckMsg(s, ks[i], e.r.msgs[i], FALSE) : i \in {j \in DOMAIN ks : ks[j] \in DOMAIN s.store}}
       \cup When(\E i, j \in DOMAIN ks : i < j /\ e.r.msgs[i].score > e.r.msgs[j].score,
                {"C02"} \cup (IF s.view # <<>> \/ (\E k \in DOMAIN s.pool : k \notin DOMAIN s.store) THEN {"C22"} ELSE {}), "messages out of order")

\* ------------------------------------------------------------------- wdrain
\* [win, id] pairs of a window drain; window UNK is the final unbounded one
DrainPairs(e) == UNION {{<<e.r.wins[i].v, id>> : id \in Range(e.r.wins[i].ids)} : i \in DOMAIN e.r.wins} \cup {<<UNK, id>> : id \in Range(e.r.rest)}
DrainLen(e) == FoldFunction(LAMBDA w, acc : acc + Len(w.ids), Len(e.r.rest), e.r.wins)
CheckDrain(s, e) ==
  LET P == DrainPairs(e)
      G == Range(e.grid)
      ok(k, w) == IF w = UNK THEN \E x \in s.pool[k].score : x \notin G ELSE w \in s.pool[k].score
      got == {<<e.q, p[2]>> : p \in P}
      A == Avail(s, e.q)
  IN IF e.r.err # "" THEN D({"C02"}, "drain failed: " \o e.r.err)
     ELSE When(DrainLen(e) # Cardinality(got), {"C01", "C09"}, "a message delivered twice")
          \cup UNION {BadKey(s, e, k) : k \in got}
          \cup UNION {When(<<e.q, p[2]>> \in A /\ ~ok(<<e.q, p[2]>>, p[1]), ViaL(s, <<e.q, p[2]>>) \cup {"C03"}, "wrong priority") : p \in P}
          \cup UNION {When(k \in DOMAIN s.store /\ k \notin got, {"C09", "C02"} \cup ViaL(s, k), "an available message was not delivered") : k \in A}
DrainPost(h, s, e) == LET A == Avail(s, e.q) s1 == Lease(h, s, A, e.dl) IN [s1 EXCEPT !.pool = Drop(@, A \ DOMAIN s.store)]

\* ------------------------------------------------------------ other responses
CheckAck(s, e) ==
  LET k == <<e.q, e.id>>
      fl == Inflight(s, k)
      nst == IF k \in DOMAIN s.store THEN 1 ELSE 0
      nca == IF k \in DOMAIN s.pool THEN 1 ELSE 0
  IN IF e.q = "" \/ e.id = "" THEN When(e.r.err = "" /\ e.r.ok, {"C33"}, "invalid request accepted")
     ELSE IF e.r.err # "" THEN D({"C06", "C07", "C33"} \cup (IF e.lock > 0 THEN {"C05"} ELSE {}), e.op \o " failed: " \o e.r.err)
     ELSE IF e.rm THEN When(~e.r.ok, {"C11"}, "removal failed")
                       \cup When(e.r.sr # nst, {"C11"}, "stored count") \cup When(e.r.cr # nca, {"C11"}, "dropped entry count")
     ELSE When(e.r.ok /\ ~fl, {"C07"}, "success for a message not in flight")
          \cup When(~e.r.ok /\ fl, {"C06", "C09", "C07"} \cup (IF e.lock > 0 THEN {"C05"} ELSE {}) \cup (IF fl THEN ViaL(s, k) ELSE {}), "failure for a message in flight")

CheckAdd(s, e) ==
  LET K == AddKeys(e)
      new == Cardinality(K \ DOMAIN s.store)
  IN IF ~ValidAdd(e) THEN When(e.r.err = "", {"C33"}, "invalid add accepted")
     ELSE IF e.r.err # "" THEN D({"C10", "C33", "C08"}, "add failed: " \o e.r.err)
     ELSE When(e.r.created # new, {"C10"}, "created count")
          \cup When(e.r.created + e.r.updated # Len(e.msgs), {"C10"}, "created plus updated")

CheckRemove(s, e) ==
  LET K == {<<e.q, i>> : i \in Range(e.ids)} IN
  IF e.r.err # "" THEN D({"C11", "C33"}, "remove failed: " \o e.r.err)
  ELSE When(e.r.sr # Cardinality(K \cap DOMAIN s.store), {"C11"}, "stored count")
       \cup When(e.r.cr # Cardinality(K \cap DOMAIN s.pool), {"C11"}, "dropped entry count")

CheckGet(s, e) ==
  LET k == <<e.q, e.id>> IN
  IF e.q = "" \/ e.id = "" THEN When(e.r.err = "", {"C33", "C21"}, "invalid lookup accepted")
  ELSE IF e.r.err # "" THEN D({"C21"}, "lookup failed: " \o e.r.err)
  ELSE IF s.view # <<>> /\ e.r.found # (k \in DOMAIN s.store) THEN When(e.r.found # (k \in DOMAIN s.view[1]), {"C21"}, "lookup")
  ELSE IF k \notin DOMAIN s.store THEN When(e.r.found \/ e.r.m # <<>>, {"C21", "C11"}, "unknown id found")
  ELSE When(~e.r.found \/ Len(e.r.m) # 1, {"C21", "C09"}, "stored message not found")
       \cup (IF e.r.found /\ Len(e.r.m) = 1
             THEN When(e.r.m[1].q # e.q \/ e.r.m[1].id # e.id, {"C21", "C17"}, "another message returned") \cup CheckMsg(s, k, e.r.m[1], TRUE) ELSE {})

CheckLists(h, s, e) ==
  LET st(x) == {k[1] : k \in {y \in DOMAIN s.pool : s.pool[y].st = x}}
      same(seq, set) == Range(seq) = set /\ Len(seq) = Cardinality(set)
      kinds == <<"A", "P", "KA", "KN">>
  IN When(e.r.err # "", {"C32"}, "listing failed")
     \cup When(s.view = <<>> /\ ~same(e.r.names, {k[1] : k \in DOMAIN s.store}), {"C32"}, "queue names")
     \cup When(s.view = <<>> /\ ~same(e.r.prefixes, PfxSet(h, s)), {"C32", "C29"}, "queue prefixes")
     \cup UNION {When(~same(e.r.pools[i], st(kinds[i])), {"C32", "C30", "C17"}, "pool listing " \o kinds[i]) : i \in 1..4}

CheckMetrics(h, s, e) ==
  LET want == {<<p, TotalOf(h, s, p)>> : p \in PfxSet(h, s)} \cup {<<p, 0>> : p \in s.pfx \ PfxSet(h, s)}
      got == {<<x[1], x[2]>> : x \in Range(e.r.tot)}
      wold == {<<p, OldestOf(h, s, p)>> : p \in PfxSet(h, s)} \cup {<<p, -1>> : p \in s.pfx \ PfxSet(h, s)}
      gold == {<<x[1], x[2]>> : x \in Range(e.r.old)}
  IN When(got # want, {"C28"} \cup (IF {x[1] : x \in got} # {x[1] : x \in want} THEN {"C29"} ELSE {}), "exported totals: " \o ToString(got) \o " expected " \o ToString(want))
     \cup When(gold # wold, {"C28"}, "exported ages")

CheckResp(h, s, e) ==
  IF e.r.err = "panic" THEN D({"C33"} \cup OpLabel(e.op), "panic")
  ELSE CASE e.op = "pull" -> CheckPull(s, e)
    [] e.op = "wdrain" -> CheckDrain(s, e)
    [] e.op \in {"ack", "nack"} -> CheckAck(s, e)
    [] e.op = "add" -> CheckAdd(s, e)
    [] e.op = "remove" -> CheckRemove(s, e)
    [] e.op = "get" -> CheckGet(s, e)
    [] e.op = "count" -> IF s.view # <<>> THEN {} ELSE When(e.r.err # "" \/ e.r.count # CountOf(s, e.q), {"C32", "C09"}, "count")
    [] e.op = "editq" -> When(e.r.err # "" \/ (~e.nil /\ ~e.r.ok), {"C14"}, "edit failed") \cup When(e.nil /\ e.r.ok, {"C33", "C14"}, "edit without configuration accepted")
    [] e.op = "getq" -> When(e.r.err # "" \/ e.r.max # MaxOf(s, e.q) \/ e.r.q # e.q, {"C14"} \cup (IF s.fl THEN {"C18"} ELSE {}), "configuration read back")
    [] e.op = "flush" -> When(e.r.ok # h.mem \/ e.r.err # "", {"C18"}, "flush response")
    [] e.op \in {"ttl", "max"} -> When(e.r.err # "", OpLabel(e.op) \cup {"C16"}, "run failed")
    [] e.op = "timeout" -> When(e.r.err # "", {"C04"}, "run failed")
    [] e.op = "recover" -> When(e.r.m # ~s.rec.done, {"C15"}, "completion report")
    [] e.op = "lists" -> CheckLists(h, s, e)
    [] e.op = "metrics" -> CheckMetrics(h, s, e)
    [] OTHER -> {}

\* ------------------------------------------------------------------ snapshots
SnapKey(x) == <<x.q, x.id>>
SnapKeys(e) == {SnapKey(e.snap[i]) : i \in DOMAIN e.snap}
GoneLabel(e, k) == {"C09"} \cup OpLabel(e.op) \cup ForeignLabel(e, k[1]) \cup (IF e.op \in {"ttl", "max"} THEN {"C16"} ELSE {})
ExtraLabel(e, k) == (CASE e.op \in {"remove", "ack", "nack"} -> {"C11"}
                       [] e.op = "ttl" -> {"C12", "C16"} [] e.op = "max" -> {"C13", "C16", "C14"} [] e.op = "flush" -> {"C18"}
                       [] e.op = "add" -> {"C33", "C17"} [] OTHER -> {"C09"}) \cup ForeignLabel(e, k[1])
Touches(e, k) == CASE e.op = "add" -> k \in AddKeys(e) [] e.op \in {"ack", "nack"} -> k = <<e.q, e.id>> [] OTHER -> FALSE

\* s: before, t: expected after (scores left free are adopted from the snapshot beforehand)
CheckSnapOne(h, s, t, e, x) ==
  LET k == SnapKey(x) IN
  IF k \notin DOMAIN t.store THEN D(ExtraLabel(e, k), "still (or unexpectedly) stored: " \o ToString(k))
  ELSE LET v == t.store[k]
           other == IF Touches(e, k) THEN {} ELSE {"C17"}
           isnew == k \notin DOMAIN s.store
           re == IF e.op = "add" /\ ~isnew THEN {"C10"} ELSE IF isnew /\ k \in s.gone THEN {"C11"} ELSE {}
       IN When(x.c # v.c, {"C21"} \cup re \cup other, "stored content of " \o ToString(k))
          \cup When(x.bp # v.bp, {"C21"} \cup re \cup other, "stored breakpoint of " \o ToString(k))
          \cup When(x.diag # v.diag, {"C20"} \cup re \cup other, "stored diagnostics of " \o ToString(k))
          \cup When(x.score # v.score, (IF re # {} THEN re ELSE IF isnew THEN {"C08"} ELSE {"C06"} \cup (IF e.op \in {"ack", "nack"} /\ e.lock > 0 THEN {"C05"} ELSE {})) \cup other,
                    "stored score of " \o ToString(k))
          \cup When(~InRange(x.score), {"C08"}, "stored score out of range: " \o ToString(k))
          \cup When(x.tl # v.tl \/ (x.exp # v.exp /\ ~(x.tl /\ x.exp = FAR /\ v.exp = FAR)), {"C12"} \cup re \cup other, "expiry of " \o ToString(k))
          \cup When(x.pre # PrefixOf(h, k[1]) \/ x.suf # Suffix(h.toks[k[1]]), {"C29"}, "prefix and suffix of " \o ToString(k))
CheckSnap(h, s, t, e) ==
  When(e.snaperr # "", {"C09"}, "storage unreadable")
  \cup When(Cardinality(SnapKeys(e)) # Len(e.snap), {"C09", "C10"}, "stored twice")
  \cup UNION {D(GoneLabel(e, k), "lost from storage: " \o ToString(k)) : k \in DOMAIN t.store \ SnapKeys(e)}
  \cup UNION {CheckSnapOne(h, s, t, e, e.snap[i]) : i \in DOMAIN e.snap}

\* A lock without score leaves the stored score open (within the range): take over what is there.
Adopt(s, e) ==
  LET F == {i \in DOMAIN e.snap : SnapKey(e.snap[i]) \in DOMAIN s.store /\ s.store[SnapKey(e.snap[i])].sv = "free" /\ InRange(e.snap[i].score)}
  IN IF F = {} THEN s
     ELSE [s EXCEPT !.store = [k \in {SnapKey(e.snap[i]) : i \in F} |->
                                  [s.store[k] EXCEPT !.score = (CHOOSE y \in {e.snap[i].score : i \in {j \in F : SnapKey(e.snap[j]) = k}} : TRUE)]] @@ @]

ProcLabel(s, t, e, k) ==
  {"C09"} \cup ForeignLabel(e, k[1]) \cup
  (CASE e.op \in {"ack", "nack"} -> (IF Inflight(s, k) THEN {"C06"} \cup (IF e.lock > 0 THEN {"C05"} ELSE {}) ELSE {"C07"})
     [] e.op = "pull" -> {"C01"} \cup (IF k \in DOMAIN t.pool THEN ViaL(t, k) ELSE {}) [] e.op = "timeout" -> {"C04"} [] OTHER -> OpLabel(e.op))
CheckProc(h, s, t, e) ==
  LET got == {<<e.proc[i][1], e.proc[i][2]>> : i \in DOMAIN e.proc}
      K == {<<h.keys[i][1], h.keys[i][2]>> : i \in DOMAIN h.keys}
  IN UNION {When((k \in got) # Inflight(t, k), ProcLabel(s, t, e, k), "in-flight state of " \o ToString(k)) : k \in K}

\* --------------------------------------------------------------------- audit
CountIn(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
AE(k, sig, reason) == [id |-> k[2], q |-> k[1], sig |-> sig, reason |-> reason, bp |-> 0, lock |-> 0, sub |-> 0]
\* pair: entries that must be there once, entries that may be there once
AuditExp(s, t, e, chosen) ==
  LET k == <<e.q, e.id>> IN
  CASE e.op = "add" /\ ValidAdd(e) -> <<{AE(x, "INSERT_CACHE", "") : x \in AddKeys(e) \ DOMAIN s.pool}, {}>>
    [] e.op \in {"ack", "nack"} /\ e.q # "" /\ e.id # "" ->
         LET a == {[AE(k, IF e.op = "ack" THEN "ACK" ELSE "NACK", e.reason) EXCEPT !.bp = e.bp, !.sub = e.sub, !.lock = Max({e.lock, 0})]}
             r == IF e.rm THEN {AE(k, "REMOVE", "REQUEST")} ELSE {}
             here == k \in DOMAIN s.store \/ k \in DOMAIN s.pool
         IN <<(IF Inflight(s, k) THEN a ELSE {}) \cup (IF here THEN r ELSE {}),
              (IF Inflight(s, k) THEN {} ELSE a) \cup (IF here THEN {} ELSE r)>>
    [] e.op = "remove" -> LET K == {<<e.q, i>> : i \in Range(e.ids)}
                              here == {x \in K : x \in DOMAIN s.store \/ x \in DOMAIN s.pool}
                          IN <<{AE(x, "REMOVE", "REQUEST") : x \in here}, {AE(x, "REMOVE", "REQUEST") : x \in K \ here}>>
    [] e.op = "pull" -> <<{AE(x, "MISSING_STORAGE", "") : x \in chosen \ DOMAIN s.store}, {}>>
    [] e.op = "timeout" -> <<{AE(x, "TIMEOUT", "") : x \in DueTimeout(s)}, {}>>
    [] e.op = "unlock" -> <<{AE(x, "UNLOCK", IF s.pool[x].st = "KA" THEN "lock_ack" ELSE "lock_nack") : x \in DueUnlock(s)}, {}>>
    [] e.op = "ttl" -> <<{AE(x, "REMOVE", "TTL") : x \in TtlVictims(s)}, {}>>
    [] e.op = "max" -> <<{AE(x, "REMOVE", "MAX_ELEMENTS") : x \in MaxVictims(s)}, {}>>
    [] e.op = "recover" -> <<{AE(x, "INSERT_CACHE", "recovery") : x \in DOMAIN t.pool \ DOMAIN s.pool}, {}>>
    [] OTHER -> <<{}, {}>>
\* a request may name an id more than once
Times(e, a) == IF e.op = "remove" THEN Cardinality({i \in DOMAIN e.ids : e.ids[i] = a.id})
               ELSE IF e.op = "add" THEN Cardinality({i \in DOMAIN e.msgs : e.msgs[i].id = a.id /\ e.msgs[i].q = a.q}) ELSE 1
CheckAudit(s, t, e, chosen) ==
  LET x == AuditExp(s, t, e, chosen)
      obs == e.aud
  IN IF e.op \in {"wdrain", "storedrop", "cachedrop", "flush", "par", "flt"} THEN {}
     ELSE UNION {When(e.op = "add" /\ obs[i].sig = "INSERT_CACHE" /\ <<obs[i].q, obs[i].id>> \in DOMAIN s.pool, {"C10", "C09"}, "an existing queue entry was inserted again: " \o ToString(obs[i])) : i \in DOMAIN obs}
          \cup UNION {When(CountIn(obs, a) = 0 \/ CountIn(obs, a) > Times(e, a), {"C24"}, "audited " \o ToString(CountIn(obs, a)) \o " times: " \o ToString(a)) : a \in x[1]}
          \cup UNION {When(CountIn(obs, a) > Times(e, a), {"C24"}, "audited more than once: " \o ToString(a)) : a \in x[2]}
          \cup UNION {When(obs[i] \notin (x[1] \cup x[2]), {"C24"}, "unexpected audit entry: " \o ToString(obs[i])) : i \in DOMAIN obs}
          \cup When(\E i, j \in DOMAIN obs : i < j /\ obs[i].sig = "REMOVE" /\ obs[j].sig \in {"ACK", "NACK"}, {"C24"}, "audit order")

\* ------------------------------------------------------------------ counters
ByPrefix(h, name, pre, K) ==
  {<<name, pre \o "queue=" \o p, Cardinality({k \in K : PrefixOf(h, k[1]) = p})>> : p \in {PrefixOf(h, k[1]) : k \in K}}
CtrExp(h, s, t, e, chosen) ==
  CASE e.op \in {"ack", "nack"} /\ e.q # "" /\ e.id # "" ->
         {<<IF e.op = "ack" THEN "deckard_ack" ELSE "deckard_nack", "queue=" \o PrefixOf(h, e.q) \o ",reason=" \o e.reason, 1>>}
    [] e.op = "timeout" -> ByPrefix(h, "deckard_message_timeout", "", DueTimeout(s))
    [] e.op = "unlock" -> ByPrefix(h, "deckard_message_unlock", "lock_type=lock_ack,", {k \in DueUnlock(s) : s.pool[k].st = "KA"})
                          \cup ByPrefix(h, "deckard_message_unlock", "lock_type=lock_nack,", {k \in DueUnlock(s) : s.pool[k].st = "KN"})
    [] e.op = "ttl" -> ByPrefix(h, "deckard_ttl_messages_removed", "", TtlVictims(s))
                       \cup ByPrefix(h, "deckard_ttl_messages_cache_removed", "", TtlVictims(s) \cap DOMAIN s.pool)
    [] e.op = "max" -> ByPrefix(h, "deckard_exceeding_messages_removed", "", MaxVictims(s))
                       \cup ByPrefix(h, "deckard_exceeding_messages_cache_removed", "", MaxVictims(s) \cap DOMAIN s.pool)
    [] e.op = "pull" ->
         (IF chosen = {} THEN {<<"deckard_messages_empty_queue", "queue=" \o PrefixOf(h, e.q), 1>>} ELSE {})
         \cup (IF chosen # {} /\ chosen \cap DOMAIN s.store = {} THEN {<<"deckard_messages_empty_queue_not_found_storage", "queue=" \o PrefixOf(h, e.q), 1>>} ELSE {})
         \cup ByPrefix(h, "deckard_messages_not_found_in_storage", "", chosen \ DOMAIN s.store)
    [] OTHER -> {}
CheckCtr(h, s, t, e, chosen) ==
  LET got == {<<x[1], x[2], x[3]>> : x \in Range(e.ctr)} IN
  IF e.op \in {"wdrain", "storedrop", "cachedrop"} \/ e.r.err # "" THEN {}
  ELSE When(got # CtrExp(h, s, t, e, chosen), {"C28"}, "counters: " \o ToString(got) \o " expected " \o ToString(CtrExp(h, s, t, e, chosen)))

\* ------------------------------------------- concurrent and failing operations
SameSeen(m, v) == /\ <<m.q, m.id>> = v.k /\ m.c = v.c /\ m.bp = v.bp /\ m.diag = v.diag
                  /\ (m.score = v.score \/ (v.sv = "free" /\ InRange(m.score)))
\* r recorded for e, o the answer of the specification's process
RespMatch(e, r, o) ==
  IF r.err = "panic" THEN FALSE
  ELSE IF e.op \in {"timeout", "unlock", "ttl", "max", "recover", "metrics", "get"} THEN TRUE
  ELSE IF r.err # "" \/ o.err # "" THEN r.err # "" /\ o.err # ""
  ELSE CASE e.op = "pull" -> /\ Len(r.msgs) = Cardinality(o.msgs)
                             /\ \A i \in DOMAIN r.msgs : \E v \in o.msgs : SameSeen(r.msgs[i], v)
                             /\ \A v \in o.msgs : \E i \in DOMAIN r.msgs : SameSeen(r.msgs[i], v)
         [] e.op = "add" -> r.created = o.created /\ r.updated = o.updated
         [] e.op \in {"ack", "nack"} -> r.ok = o.ok /\ (e.rm => r.sr = o.sr /\ r.cr = o.cr)
         [] e.op = "remove" -> r.sr = o.sr /\ r.cr = o.cr
         [] e.op = "count" -> r.count = o.count
         [] e.op = "getq" -> r.max = o.max
         [] OTHER -> TRUE
ParPulled(e) == {i \in DOMAIN e.ps : e.ps[i].op = "pull" /\ e.rs[i].err = ""}
ParWhy(h, s, e) ==
  LET keys(i) == {<<m.q, m.id>> : m \in Range(e.rs[i].msgs)}
      twice == \E i, j \in ParPulled(e) : i < j /\ keys(i) \cap keys(j) # {}
      again == \E i \in DOMAIN e.ps : e.ps[i].op \in {"ack", "nack", "timeout", "unlock", "add"}
      oks(k) == {i \in DOMAIN e.ps : e.ps[i].op \in {"ack", "nack"} /\ <<e.ps[i].q, e.ps[i].id>> = k /\ e.rs[i].ok /\ ~e.ps[i].rm}
      ackd == {<<e.ps[i].q, e.ps[i].id>> : i \in {j \in DOMAIN e.ps : e.ps[j].op \in {"ack", "nack"}}}
  IN When(twice /\ ~again, {"C01", "C09"}, "one message delivered to two consumers")
     \cup When(ParPulled(e) = {} /\ \E k \in ackd : Cardinality(oks(k)) > 1, {"C07"}, "two acknowledgements of one delivery succeeded")
     \cup When(\E i \in DOMAIN e.rs : e.rs[i].err = "panic", {"C33", "C09"}, "panic")
     \cup D(Range(h.lab), "no order of the backend calls explains the answers")
JudgePar(h, s, e) ==
  LET O == ParOutcomes(h, s, e.ps)
      M == {o \in O : \A i \in DOMAIN e.ps : RespMatch(e.ps[i], e.rs[i], o[2][i].r)}
  IN IF M # {} THEN [bad |-> {}, ts |-> {o[1] : o \in M}]
     ELSE [bad |-> ParWhy(h, s, e), ts |-> {o[1] : o \in O}]
JudgeFlt(h, s, e) ==
  IF e.mode = "crash" THEN [bad |-> {}, ts |-> CrashOutcomes(h, s, e.e)]
  ELSE LET O == FaultOutcomes(h, s, e.e, e.call)
           M == {o \in O : RespMatch(e.e, e.r, o[2].r)}
       IN IF M # {} THEN [bad |-> {}, ts |-> {o[1] : o \in M}]
          ELSE [bad |-> D({"C23"} \cup Range(h.lab), IF e.r.err = "" THEN "a failed operation was answered with success" ELSE "the answer of a failing operation"),
                ts |-> {o[1] : o \in O}]

\* ------------------------------------------------------------------ one event
\* Possible continuations of one event from state s: a set of             
\* [t: next state, bad: discrepancies, per: discrepancies that will be    
\* seen again after the following events].  A state goes on as the        
\* specification says even if the event disagrees.
Cont(h, s, e, t0, bad0, chosen, full) ==
  LET t == IF h.snap = 0 THEN Adopt(t0, e) ELSE t0
      bad == bad0 \cup When(("foreign" \in DOMAIN e) /\ e.foreign # 0, {"C18", "C30"}, "keys of other applications changed")
  IN
  [t |-> t,
   bad |-> bad \cup (IF full THEN CheckAudit(s, t, e, chosen) ELSE {})
               \cup (IF full /\ h.snap = 0 THEN CheckCtr(h, s, t, e, chosen) ELSE {}),
   per |-> IF h.snap # 0 THEN {} ELSE CheckSnap(h, s, t, e) \cup CheckProc(h, s, t, e)]
Step(h, s, e) ==
  IF e.op = "par" THEN LET j == JudgePar(h, s, e) IN {Cont(h, s, e, t, j.bad, {}, FALSE) : t \in j.ts}
  ELSE IF e.op = "flt" THEN LET j == JudgeFlt(h, s, e) IN {Cont(h, s, e, t, j.bad, {}, FALSE) : t \in j.ts}
  ELSE IF Refused(h, e) THEN
    LET b == IF e.r.err = "panic" THEN D({"C33", "C30"}, "panic") ELSE When(e.r.err = "", {"C30", "C33"}, "a queue name with braces accepted")
    IN {Cont(h, s, [e EXCEPT !.op = "refused"], s, b, {}, TRUE)}
  ELSE
  LET resp == CheckResp(h, s, e)
      answered == e.op = "pull" /\ e.r.err = ""
      told == {<<x.q, x.id>> : x \in {y \in Range(e.aud) : y.sig = "MISSING_STORAGE"}}    \* stale entries met
      P == IF answered THEN PullSets(s, e) ELSE {{}}
      P1 == IF ~answered THEN P ELSE {x \in P : x \ DOMAIN s.store = told}
      P2 == IF P1 # {} THEN P1 ELSE P
      legal == P2 # {}
      C == IF legal THEN P2 ELSE {(Range(RespKeys(e)) \cup told) \cap Avail(s, e.q)}
      post(c) == CASE e.op = "pull" -> PullPost(h, s, e, c)
                   [] e.op = "wdrain" -> DrainPost(h, s, e)
                   [] OTHER -> Post(h, s, e)
  IN {Cont(h, s, e, post(c), resp, c, legal) : c \in C}
=============================================================================
