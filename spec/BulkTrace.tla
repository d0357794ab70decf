----------------------------- MODULE BulkTrace -----------------------------
(* Monitor of recorded executions with many messages.  An event carries    *)
(* the answer r, the audited entries by batch, signal and reason (aud),    *)
(* adup: ids audited twice, and k: the name of the step.                   *)
EXTENDS Bulk, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, bad
D(b, ps, what) == IF b THEN {<<p, what>> : p \in ps} ELSE {}
\* list of [g, n] -> batch -> number
Counts(L) == [b \in {L[i].g : i \in DOMAIN L} |-> FoldSeq(LAMBDA r, n : n + (IF r.g = b THEN r.n ELSE 0), 0, L)]
Obs(e, sig, reason) == Counts(SelectSeq(e.aud, LAMBDA a : a.sig = sig /\ a.reason = reason))
Only(x, B) == [b \in DOMAIN x \cap B |-> x[b]]
Strange(e, sigs) == \E i \in DOMAIN e.aud : e.aud[i].sig \notin sigs

R(s2, b) == [s |-> s2, bad |-> b]
\* a run over the batches B of one queue, observed x, which has to handle at least n of them
RunBad(B, x, n, ps) ==
  D(Beyond(s, B, x), ps, "messages that should not have been handled") \cup D(~Beyond(s, B, x) /\ SumObs(x) < n, ps, "fewer messages handled than there were")
EachQueue(st, x, ps) ==
  UNION {LET B == DueIn(s, q, st) IN RunBad(B, Only(x, InQueue(s, q)), AtLeast(q, Sum(s, B)), ps) : q \in Queues(s)} \cup D(Some(x) \ DOMAIN s.cells # {}, ps, "unknown messages handled")
Safe(x, B) == [b \in {c \in DOMAIN x : c \in B} |-> Min2(x[b], s.cells[b].n)]
Step(e) ==
  LET fail(ps) == D(e.r.err # "", ps, "failed: " \o e.r.err) IN
  CASE e.op = "add" ->
         R([s EXCEPT !.cells = ((e.g \o "." \o e.k) :> Batch(e.q, e.g, e.n, e.sc, s.now + e.ttl)) @@ @],
           fail({"C10", "C09"}) \cup D(e.r.created # e.n \/ e.r.updated # 0, {"C10"}, "created count")
           \cup D(Counts(e.aud) # ((e.g \o "." \o e.k) :> e.n) \/ Strange(e, {"INSERT_CACHE"}), {"C24", "C10"}, "insertions audited"))
    [] e.op = "pull" ->
         LET B == Avail(s, e.q) n == IF e.q = Many THEN Sum(s, B) ELSE Min2(Amount(e.n), Sum(s, B)) x == Counts(e.r.got) y == Safe(x, B) IN
         R(Leased(s, y, e.k, e.dl),
           fail({"C02"}) \cup D(e.r.dup # 0, {"C01", "C09"}, "a message twice in one pull, or one that nobody added")
           \cup D(Beyond(s, B, x), {"C01", "C09"} \cup e.lab, "messages that are not available")
           \cup D(SumObs(x) > n, {"C02"}, "more messages than asked for") \cup D(SumObs(x) < n, {"C02", "C09"} \cup e.lab, "fewer messages than available and asked for")
           \cup D(~InOrder(s, B, y, Score), {"C02"} \cup e.lab, "a better message was left behind")
           \cup D(e.q # Many /\ x = y /\ \E i \in 1..(Len(e.r.got) - 1) : s.cells[e.r.got[i].g].ssc > s.cells[e.r.got[i + 1].g].ssc, {"C02"}, "not by priority"))
    [] e.op \in {"ack", "nack"} ->
         LET B == InFlight(s, e.q, e.g) x == Counts(e.r.ids) y == Safe(x, B) IN
         R(Acked(s, y, e.k, e), fail({"C06", "C07"}) \cup D(e.r.ok # SumObs(y), {"C06", "C07", "C09"}, "acknowledgements")
              \cup D(Obs(e, IF e.op = "ack" THEN "ACK" ELSE "NACK", "r") # x, {"C24"}, "acknowledgements audited"))
    [] e.op = "timeout" -> LET x == Obs(e, "TIMEOUT", "") IN R(Returned(s, Safe(x, Where(s, LAMBDA c : c.st = "P")), e.k), fail({"C04"}) \cup EachQueue("P", x, {"C04", "C09"}) \cup D(Strange(e, {"TIMEOUT"}), {"C24"}, "audited"))
    [] e.op = "unlock" -> LET x == Obs(e, "UNLOCK", "lock_ack") z == Obs(e, "UNLOCK", "lock_nack") y == Safe(x @@ z, Where(s, LAMBDA c : c.st \in {"KA", "KN"}))
                          IN R(Unlocked(s, y, e.k), EachQueue("KA", x, {"C05", "C09"}) \cup EachQueue("KN", z, {"C05", "C09"}) \cup D(Strange(e, {"UNLOCK"}), {"C24"}, "audited"))
    [] e.op = "ttl" -> LET B == IF s.rec = "run" THEN {} ELSE Expired(s) x == Obs(e, "REMOVE", "TTL")
                       IN R(Take(s, Safe(x, B)), fail({"C12"}) \cup RunBad(B, x, Min2(TTLRUN, Sum(s, B)), {"C12", "C16", "C09"}) \cup D(Strange(e, {"REMOVE"}), {"C24"}, "audited"))
    [] e.op = "max" -> LET x == Obs(e, "REMOVE", "MAX_ELEMENTS")
                       IN R(Take(s, Safe(x, DOMAIN s.cells)),
                            fail({"C13"}) \cup UNION {LET B == InQueue(s, q) z == Only(x, B) IN
                                                        RunBad(B, z, Over(s, q), {"C13", "C16"}) \cup D(SumObs(z) > Over(s, q), {"C13", "C16", "C09"}, "more trimmed than the excess")
                                                        \cup D(~InOrder(s, B, Safe(z, B), Exp), {"C13"}, "others than the ones closest to expiry trimmed") : q \in Queues(s)}
                            \cup D(Some(x) \ DOMAIN s.cells # {}, {"C13"}, "unknown messages trimmed") \cup D(Strange(e, {"REMOVE"}), {"C24"}, "audited"))
    [] e.op = "remove" ->
         LET x == Counts(e.r.ids) y == Safe(x, InQueue(s, e.q)) k == SumObs(y) c == SumObs(Only(y, DOMAIN y \ Lost(s))) IN
         R(Take(s, y), fail({"C11"}) \cup D(e.r.sr # k, {"C11", "C09"}, "stored count") \cup D(e.r.cr # c, {"C11", "C09"}, "dropped entry count")
              \cup D(\E b \in DOMAIN y : LET z == Obs(e, "REMOVE", "REQUEST") IN b \notin DOMAIN z \/ z[b] < y[b], {"C24", "C11"}, "removals audited"))
    [] e.op = "count" -> R(s, fail({"C32"}) \cup D(e.r.count # Sum(s, IF e.q = "" THEN DOMAIN s.cells ELSE InQueue(s, e.q)), {"C32", "C09"} \cup e.lab, "count"))
    [] e.op = "lists" ->
         R(s, fail({"C32"}) \cup D(e.r.dup, {"C32"}, "a queue listed twice") \cup D(e.r.n # QueuesOf(s, {"A", "P", "KA", "KN", "N"}), {"C32"} \cup e.lab, "number of queues listed")
              \cup D(e.r.pools # <<QueuesOf(s, {"A"}), QueuesOf(s, {"P"}), QueuesOf(s, {"KA"}), QueuesOf(s, {"KN"})>>, {"C32"} \cup e.lab, "number of queues listed in a pool"))
    [] e.op \in {"lose", "cacheflush"} -> R(Forget(s), {})
    [] e.op = "recover" ->
         LET B == Lost(s) x == Obs(e, "INSERT_CACHE", "recovery") y == Safe(x, B)
         IN R(RecAfter(Recovered(s, y, e.k), SumObs(y)),
              (IF s.rec = "done" THEN D(Some(x) # {}, {"C15"}, "recovered although nothing was lost") ELSE RunBad(B, x, Min2(PAGE, Sum(s, B)), {"C15", "C09"})) \cup D(Strange(e, {"INSERT_CACHE"}), {"C24"}, "audited"))
    [] e.op = "adv" -> R([s EXCEPT !.now = @ + e.d], {})
    [] e.op = "editq" -> R([s EXCEPT !.max = (e.q :> e.n) @@ @], fail({"C14", "C13"}))
    [] e.op = "panic" -> R(s, D(TRUE, {"C09", "C33"} \cup e.lab, "panic"))
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = B0 /\ bad = {}
\* lab: the properties whose check gave this history
Next ==
  /\ bad = {} /\ l <= Len(Traces[t].ev)
  /\ \E e \in {[Traces[t].ev[l] EXCEPT !.lab = ToSet(Traces[t].lab)]} : \E r \in {Step(e)} :
     LET b == r.bad \cup D(e.adup # 0, {"C24"}, "audited twice") IN
        /\ s' = r.s /\ bad' = b /\ l' = l + 1 /\ t' = t
        /\ IF b # {} \/ l = Len(Traces[t].ev)
           THEN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> Traces[t].combo, at |-> l, bad |-> b, amb |-> FALSE, n |-> Len(Traces[t].ev), op |-> e.op]))
           ELSE TRUE
Spec == Init /\ [][Next]_<<t, l, s, bad>>
=============================================================================
