--------------------------- MODULE DeckardCore ---------------------------
(* The semantics of a Deckard server as seen by its users: what every     *)
(* request and housekeeper run answers and what it does to the abstract   *)
(* state.  Used by Deckard (design model), Gen (behaviour generator) and  *)
(* Trace (monitor of recorded executions).                                *)
(*                                                                        *)
(* State s:                                                               *)
(*   now    current instant                                               *)
(*   store  key -> message   (key = <<queue, id>>)                        *)
(*   pool   key -> queue entry: st in {"A","P","KA","KN"} (available,     *)
(*          being processed, locked by ack / by nack), score: the set of  *)
(*          priorities it may have (a singleton unless unspecified),      *)
(*          until: deadline or end of lock, rel: score after unlock       *)
(*   max    queue -> configured maximum                                   *)
(*   rec    cache recovery: done, run, lo, hi, known                      *)
(*   seq    insertion counter;  pfx: prefixes seen by the metrics run     *)
(*   view   what a lagging replica shows (<<>> when it is up to date)     *)
(*   gone   keys that were removed at some time (they may be added again) *)
(*   fl     has the server been flushed?                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

BASE    == 1000000
MAXS    == 2000000000
HUGE    == 2000000000
FAR     == 1500000000
UNK     == -999999
NOSC    == -7
DFLTDL  == 300000          \* milliseconds
PAGE    == 4000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > MAXS THEN MAXS ELSE x
Ts(t) == BASE + t
InRange(x) == x >= 0 /\ x <= MAXS

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Drop(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]

\* Names are sequences of tokens; everything before the first "::" is the prefix.
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN "" ELSE Head(ts) \o Join(Tail(ts))
SepAt(ts) == LET P == {i \in 1..(Len(ts) - 1) : ts[i] = ":" /\ ts[i+1] = ":"}
             IN IF P = {} THEN 0 ELSE Min(P)
Prefix(ts) == LET i == SepAt(ts) IN IF i = 0 THEN Join(ts) ELSE Join(SubSeq(ts, 1, i - 1))
Suffix(ts) == LET i == SepAt(ts) IN IF i = 0 THEN "" ELSE Join(SubSeq(ts, i + 2, Len(ts)))

Init0 == [now |-> 0, store |-> EmptyFn, pool |-> EmptyFn, max |-> EmptyFn,
          rec |-> [done |-> FALSE, run |-> FALSE, lo |-> 0, hi |-> 0],
          seq |-> 0, pfx |-> {}, view |-> <<>>, fl |-> FALSE, gone |-> {}]

KeysOf(f, q) == {k \in DOMAIN f : k[1] = q}

\* Symbolic durations saturate.
After(now, d) == IF d >= HUGE THEN FAR ELSE IF d <= -HUGE THEN -FAR ELSE now + d

\* ------------------------------------------------------------------ scores
AddScore(now, x) == IF x = 0 THEN Ts(now) ELSE Clamp(x)
\* NOSC when no score is to be set (locked without a score)
AckScore(now, e) ==
  IF e.score # 0 THEN Clamp(e.score)
  ELSE IF e.lock > 0 THEN NOSC
  ELSE IF e.sub >= HUGE THEN 0 ELSE IF e.sub <= -HUGE THEN MAXS ELSE Clamp(Ts(now) - e.sub)
NackScore(e) == IF e.score # 0 THEN Clamp(e.score) ELSE IF e.lock > 0 THEN NOSC ELSE 0

NoBound == -1
MinBound(x) == IF x = 0 THEN NoBound ELSE Clamp(x)
MaxBound(now, e) ==
  IF e.max # 0 THEN Clamp(e.max)
  ELSE IF e.filt > 0 THEN (IF e.filt >= HUGE THEN 0 ELSE Clamp(Ts(now) - e.filt))
  ELSE NoBound
Amount(n) == IF n <= 0 THEN 1 ELSE Min2(n, 1000)

\* -------------------------------------------------------------- operations
Entry(sc, via) == [st |-> "A", score |-> {sc}, until |-> 0, rel |-> NOSC, via |-> via]

ExpOf(h, now, m) == IF m.ttl >= HUGE THEN FAR ELSE now + m.ttl * h.ttlu
TlOf(m) == m.tl \/ m.ttl >= HUGE

ValidAdd(e) == \A i \in DOMAIN e.msgs : e.msgs[i].q # "" /\ e.msgs[i].id # ""

AddOne(h, s, m) ==
  LET k == <<m.q, m.id>>
      sc == AddScore(s.now, m.score)
      store == IF k \in DOMAIN s.store
               THEN [s.store EXCEPT ![k].c = m.c, ![k].exp = ExpOf(h, s.now, m), ![k].tl = TlOf(m), ![k].re = TRUE]
               ELSE Put(s.store, k, [c |-> m.c, exp |-> ExpOf(h, s.now, m), tl |-> TlOf(m), score |-> sc, bp |-> 0,
                                     diag |-> <<0, 0, 0, 0>>, seq |-> s.seq + 1, lu |-> s.now, sv |-> "add", re |-> FALSE])
      entry == IF k \in DOMAIN s.pool THEN s.pool
               ELSE IF k \in DOMAIN s.store      \* stored but not queued (cache lost): either score is fine
                    THEN Put(s.pool, k, [Entry(sc, "add") EXCEPT !.score = {sc, Clamp(s.store[k].score)}])
                    ELSE Put(s.pool, k, Entry(sc, "add"))
  IN [s EXCEPT !.store = store, !.pool = entry, !.seq = IF k \in DOMAIN s.store THEN @ ELSE @ + 1]

RECURSIVE AddAll(_, _, _)
AddAll(h, s, ms) == IF ms = <<>> THEN s ELSE AddAll(h, AddOne(h, s, Head(ms)), Tail(ms))

AddKeys(e) == {<<e.msgs[i].q, e.msgs[i].id>> : i \in DOMAIN e.msgs}

\* Which entries can a pull choose?
Avail(s, q) == {k \in DOMAIN s.pool : k[1] = q /\ s.pool[k].st = "A"}
DefMatch(s, k, lo, hi) == \A x \in s.pool[k].score : (lo = NoBound \/ x >= lo) /\ (hi = NoBound \/ x <= hi)
MayMatch(s, k, lo, hi) == \E x \in s.pool[k].score : (lo = NoBound \/ x >= lo) /\ (hi = NoBound \/ x <= hi)
Better(s, k1, k2) == Max(s.pool[k1].score) < Min(s.pool[k2].score)   \* surely better

\* D is a legal choice of a pull for n entries in window [lo, hi]
LegalPull(s, q, n, lo, hi, D) ==
  LET A == Avail(s, q) IN
  /\ D \subseteq {k \in A : MayMatch(s, k, lo, hi)}
  /\ Cardinality(D) >= Min2(n, Cardinality({k \in A : DefMatch(s, k, lo, hi)}))
  /\ Cardinality(D) <= n
  /\ \A k \in A \ D : DefMatch(s, k, lo, hi) => \A d \in D : ~Better(s, k, d)

\* via: "pullx" when the pull met entries without message or a lagging replica
Lease(h, s, D, dl) ==
  LET until == After(s.now, IF dl = 0 THEN h.dfl ELSE dl) IN
  [s EXCEPT !.pool = [k \in DOMAIN s.pool |->
      IF k \in D THEN [st |-> "P", score |-> {0}, until |-> until, rel |-> NOSC,
                      via |-> IF D \subseteq DOMAIN s.store /\ s.view = <<>> THEN "pull" ELSE "pullx"] ELSE s.pool[k]]]

\* D: entries chosen; those without a stored message are dropped
PullPost(h, s, e, D) ==
  LET s1 == Lease(h, s, D, e.dl)
  IN [s1 EXCEPT !.pool = Drop(@, D \ DOMAIN s.store)]

Inflight(s, k) == k \in DOMAIN s.pool /\ s.pool[k].st = "P"

RemoveKeys(s, K) == [s EXCEPT !.store = Drop(@, K), !.pool = Drop(@, K), !.gone = @ \cup (K \cap (DOMAIN s.store \cup DOMAIN s.pool))]

\* obs: the score the implementation stores when none was requested
AckStore(s, e, k, ack, sc) ==
  IF k \notin DOMAIN s.store THEN s.store
  ELSE LET m == s.store[k] d == m.diag IN
       [s.store EXCEPT ![k] = [m EXCEPT
          !.score = IF sc = NOSC THEN @ ELSE sc,
          !.sv = IF sc = NOSC THEN "free" ELSE (IF ack THEN "ack" ELSE "nack"),
          !.bp = IF ack THEN e.bp ELSE @,
          !.lu = IF ack THEN s.now ELSE @,
          !.diag = IF ack THEN <<d[1] + 1, d[2], d[3] + 1, 0>> ELSE <<d[1], d[2] + 1, 0, d[4] + 1>>]]

AckPost(s, e, ack) ==
  LET k == <<e.q, e.id>>
      sc == IF ack THEN AckScore(s.now, e) ELSE NackScore(e)
      s1 == [s EXCEPT !.store = AckStore(s, e, k, ack, sc),
                      !.pool = IF ~Inflight(s, k) THEN @
                               ELSE IF e.lock > 0
                               THEN [@ EXCEPT ![k] = [st |-> IF ack THEN "KA" ELSE "KN", score |-> {0}, until |-> After(s.now, e.lock),
                                                      rel |-> sc, via |-> "lock"]]
                               ELSE [@ EXCEPT ![k] = Entry(sc, IF ack THEN "ack" ELSE "nack")]]
  IN IF e.q = "" \/ e.id = "" THEN s
     ELSE IF e.rm THEN RemoveKeys(s1, {k}) ELSE s1

DueTimeout(s) == {k \in DOMAIN s.pool : s.pool[k].st = "P" /\ s.pool[k].until <= s.now}
TimeoutPost(s) == LET T == DueTimeout(s) IN
  [s EXCEPT !.pool = [k \in DOMAIN @ |-> IF k \in T THEN Entry(0, IF @[k].via = "pullx" THEN "tmox" ELSE "tmo") ELSE @[k]]]
DueUnlock(s) == {k \in DOMAIN s.pool : s.pool[k].st \in {"KA", "KN"} /\ s.pool[k].until <= s.now}
UnlockScore(s, k) == LET p == s.pool[k] IN
  IF p.rel # NOSC THEN p.rel ELSE IF p.st = "KA" THEN Ts(s.now) ELSE 0
UnlockPost(s) == LET T == DueUnlock(s) IN
  [s EXCEPT !.pool = [k \in DOMAIN @ |-> IF k \in T THEN Entry(UnlockScore(s, k), "unl") ELSE @[k]]]

Expired(s) == {k \in DOMAIN s.store : ~s.store[k].tl /\ s.store[k].exp <= s.now}
TtlVictims(s) == IF s.rec.run THEN {} ELSE Expired(s)

\* k1 is trimmed before k2
EarlierExp(s, k1, k2) == LET a == s.store[k1] b == s.store[k2] IN
  IF a.tl # b.tl THEN b.tl ELSE IF a.exp # b.exp THEN a.exp < b.exp ELSE a.seq < b.seq
MaxVictimsOf(s, q) ==
  LET K == KeysOf(s.store, q)
      n == Cardinality(K) - s.max[q]
  IN IF s.max[q] <= 0 \/ n <= 0 \/ q = "" THEN {}
     ELSE {k \in K : Cardinality({j \in K : EarlierExp(s, j, k)}) < n}
MaxVictims(s) == IF s.rec.run THEN {} ELSE UNION {MaxVictimsOf(s, q) : q \in DOMAIN s.max}

\* the PAGE-th insertion number among cand
NthSeq(s, cand) == SetToSortSeq({s.store[k].seq : k \in cand}, LAMBDA a, b : a < b)[PAGE]
LastSeq(s) == IF DOMAIN s.store = {} THEN 0 ELSE Max({s.store[k].seq : k \in DOMAIN s.store})
RecoverPost(s) ==
  IF s.rec.done THEN [s EXCEPT !.rec.run = FALSE]      \* another instance may have begun while this one was finishing
  ELSE LET starts == s.rec.lo = 0 /\ ~s.rec.run
           again == s.rec.lo = 0 /\ s.rec.run /\ s.rec.hi = 0      \* was interrupted while starting
           hi == IF starts /\ DOMAIN s.store # {} THEN LastSeq(s) ELSE s.rec.hi
           cand == {k \in DOMAIN s.store : s.store[k].seq > s.rec.lo /\ s.store[k].seq <= hi}
           page == IF Cardinality(cand) <= PAGE THEN cand
                   ELSE {k \in cand : s.store[k].seq <= NthSeq(s, cand)}
           add == page \ DOMAIN s.pool
           fin == Cardinality(page) < PAGE
       IN IF again /\ DOMAIN s.store # {} THEN [s EXCEPT !.rec.hi = LastSeq(s)]
          ELSE [s EXCEPT !.pool = [k \in add |-> Entry(Clamp(s.store[k].score), "rec")] @@ @,
                    !.rec = [done |-> fin, run |-> ~fin, hi |-> hi,
                             lo |-> IF page = {} THEN s.rec.lo ELSE Max({s.store[k].seq : k \in page})]]

CountOf(s, q) == IF q = "" THEN Cardinality(DOMAIN s.store) ELSE Cardinality(KeysOf(s.store, q))

EditMax(s, e) == IF e.nil \/ e.n = 0 \/ e.q = "" THEN s ELSE [s EXCEPT !.max = Put(@, e.q, Max2(e.n, 0))]
MaxOf(s, q) == IF q \in DOMAIN s.max THEN s.max[q] ELSE 0

FreshKeepingTime(s) == [Init0 EXCEPT !.now = s.now, !.fl = TRUE, !.seq = s.seq, !.pfx = s.pfx]

PrefixOf(h, q) == Prefix(h.toks[q])
PfxSet(h, s) == {PrefixOf(h, k[1]) : k \in DOMAIN s.store}
TotalOf(h, s, p) == Cardinality({k \in DOMAIN s.store : PrefixOf(h, k[1]) = p})
OldestOf(h, s, p) == Min({s.store[k].lu : k \in {x \in DOMAIN s.store : PrefixOf(h, x[1]) = p}})

\* Everything but a pull (whose choice is the response's)
Post(h, s, e) ==
  CASE e.op = "add" -> IF ValidAdd(e) THEN AddAll(h, s, e.msgs) ELSE s
    [] e.op = "ack" -> AckPost(s, e, TRUE)
    [] e.op = "nack" -> AckPost(s, e, FALSE)
    [] e.op = "remove" -> RemoveKeys(s, {<<e.q, i>> : i \in Range(e.ids)})
    [] e.op = "storedrop" -> [s EXCEPT !.store = Drop(@, {<<e.q, i>> : i \in Range(e.ids)})]
    [] e.op = "cachedrop" -> [s EXCEPT !.pool = Drop(@, {<<e.q, i>> : i \in Range(e.ids)})]
    [] e.op = "adv" -> [s EXCEPT !.now = @ + e.d]
    [] e.op = "timeout" -> TimeoutPost(s)
    [] e.op = "unlock" -> UnlockPost(s)
    [] e.op = "ttl" -> RemoveKeys(s, TtlVictims(s))
    [] e.op = "max" -> RemoveKeys(s, MaxVictims(s))
    [] e.op = "recover" -> RecoverPost(s)
    [] e.op = "editq" -> EditMax(s, e)
    [] e.op = "flush" -> IF h.mem THEN FreshKeepingTime(s) ELSE s
    [] e.op \in {"losecache", "cacheflush"} -> [s EXCEPT !.pool = EmptyFn, !.rec = Init0.rec]
    [] e.op = "recmark" -> [s EXCEPT !.rec.run = TRUE]
    [] e.op = "lag" -> [s EXCEPT !.view = IF e.on THEN <<s.store>> ELSE <<>>]
    [] e.op = "metrics" -> [s EXCEPT !.pfx = @ \cup PfxSet(h, s)]
    [] OTHER -> s        \* count, get, getq, lists, restart
=============================================================================
