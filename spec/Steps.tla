------------------------------- MODULE Steps -------------------------------
(* Requests and housekeeper tasks as sequences of backend calls.  Every   *)
(* call of a storage or cache operation is atomic; between two calls of   *)
(* one process anything may happen: calls of other processes, a failure,  *)
(* a crash.  Used by Deckard (design model: invariants over every         *)
(* interleaving, failure and crash) and by Trace (which outcomes of       *)
(* concurrent or failing operations are allowed).                         *)
(*                                                                        *)
(* A process p: e the operation, pc, x what it remembers between calls,   *)
(* r what it answers, flt: has one of its calls failed.                   *)
EXTENDS DeckardCore

X0 == [D |-> {}, got |-> {}, todo |-> {}, q |-> "", K |-> {}, diff |-> 0, bp |-> 0, hi |-> 0, msgs |-> <<>>]
R0 == [err |-> "", ok |-> FALSE, created |-> 0, updated |-> 0, sr |-> -1, cr |-> -1, msgs |-> {}, count |-> 0, max |-> 0]
First(e) == CASE e.op = "add" -> "a1" [] e.op \in {"ack", "nack"} -> "k1" [] e.op = "remove" -> "r1" [] e.op = "pull" -> "l1"
              [] e.op = "timeout" -> "t1" [] e.op = "unlock" -> "u1" [] e.op = "ttl" -> "x1" [] e.op = "max" -> "m1"
              [] e.op = "recover" -> "v1" [] OTHER -> "o1"
Proc(e) == [e |-> e, pc |-> First(e), x |-> X0, r |-> R0, flt |-> FALSE]
Done(p) == p.pc = "done"
Fin(p) == [p EXCEPT !.pc = "done"]
To(p, pc) == [p EXCEPT !.pc = pc]

\* what a reader of a message version sees
Seen(k, v) == [k |-> k, c |-> <<0, v.c[2], v.c[3], v.c[4]>>, bp |-> v.bp, diag |-> v.diag, score |-> v.score, sv |-> v.sv]

StoreAll(h, s, ms) == LET t == AddAll(h, s, ms) IN [t EXCEPT !.pool = s.pool]
Enqueue(s, q, ms) ==       \* the cache's part of an add, for one queue
  LET I == {i \in DOMAIN ms : ms[i].q = q}
      K == {<<q, ms[i].id>> : i \in I} \ DOMAIN s.pool
      sc(k) == AddScore(s.now, ms[Max({i \in I : ms[i].id = k[2]})].score)
      alt(k) == IF k \in DOMAIN s.store THEN {sc(k), Clamp(s.store[k].score)} ELSE {sc(k)}
  IN [s EXCEPT !.pool = [k \in K |-> [Entry(sc(k), "add") EXCEPT !.score = alt(k)]] @@ @]

TimeoutQ(s, q) == LET T == {k \in DueTimeout(s) : k[1] = q} IN [s EXCEPT !.pool = [k \in DOMAIN @ |-> IF k \in T THEN Entry(0, "tmo") ELSE @[k]]]
UnlockQ(s, q, st) == LET T == {k \in DueUnlock(s) : k[1] = q /\ s.pool[k].st = st} IN
  [s EXCEPT !.pool = [k \in DOMAIN @ |-> IF k \in T THEN Entry(UnlockScore(s, k), "unl") ELSE @[k]]]
QueuesIn(s, st) == {k[1] : k \in {x \in DOMAIN s.pool : s.pool[x].st = st}}
DropStore(s, K) == [s EXCEPT !.store = Drop(@, K), !.gone = @ \cup (K \cap DOMAIN s.store)]
DropPool(s, K) == [s EXCEPT !.pool = Drop(@, K), !.gone = @ \cup (K \cap DOMAIN s.pool)]

\* next queue of a loop, or the given end
Loop(p, body, end) == IF p.x.todo = {} THEN {To(p, end)} ELSE {[p EXCEPT !.pc = body, !.x.q = q, !.x.todo = @ \ {q}] : q \in p.x.todo}

View(s) == IF s.view = <<>> THEN s.store ELSE s.view[1]
LegalChoices(s, e) ==
  LET lo == MinBound(e.min)  hi == MaxBound(s.now, e)
      M == {k \in Avail(s, e.q) : MayMatch(s, k, lo, hi)}
  IN {D \in SUBSET M : LegalPull(s, e.q, Amount(e.n), lo, hi, D)}

MaxDoomed(s, q, n) == LET K == KeysOf(s.store, q) IN {k \in K : Cardinality({j \in K : EarlierExp(s, j, k)}) < n}
Page(s, lo, hi) ==
  LET cand == {k \in DOMAIN s.store : s.store[k].seq > lo /\ s.store[k].seq <= hi}
  IN IF Cardinality(cand) <= PAGE THEN cand ELSE {k \in cand : s.store[k].seq <= NthSeq(s, cand)}

\* All results of the next call of process p: a set of <<state, process>>
Call(h, s, p) ==
  LET e == p.e x == p.x IN
  CASE p.pc = "a1" ->
         IF ~ValidAdd(e) THEN {<<s, [Fin(p) EXCEPT !.r.err = "X"]>>}
         ELSE LET n == Cardinality(AddKeys(e) \ DOMAIN s.store)
                  p1 == [p EXCEPT !.r.created = n, !.r.updated = Len(e.msgs) - n, !.x.todo = {e.msgs[i].q : i \in DOMAIN e.msgs}]
              IN {<<StoreAll(h, s, e.msgs), p2>> : p2 \in Loop(p1, "a2", "done")}
    [] p.pc = "a2" -> {<<Enqueue(s, x.q, e.msgs), p2>> : p2 \in Loop(p, "a2", "done")}
    [] p.pc = "k1" -> LET k == <<e.q, e.id>> sc == IF e.op = "ack" THEN AckScore(s.now, e) ELSE NackScore(e)
                      IN {<<[s EXCEPT !.store = AckStore(s, e, k, e.op = "ack", sc)], To(p, "k2")>>}
    [] p.pc = "k2" -> LET k == <<e.q, e.id>> full == AckPost(s, [e EXCEPT !.rm = FALSE], e.op = "ack")
                      IN {<<[s EXCEPT !.pool = full.pool], [p EXCEPT !.pc = IF e.rm THEN "r1" ELSE "done", !.r.ok = e.rm \/ Inflight(s, k)]>>}
    [] p.pc = "r1" -> LET K == IF e.op = "remove" THEN {<<e.q, i>> : i \in Range(e.ids)} ELSE {<<e.q, e.id>>}
                      IN {<<DropStore(s, K), [p EXCEPT !.pc = "r2", !.x.K = K, !.r.sr = Cardinality(K \cap DOMAIN s.store)]>>}
    [] p.pc = "r2" -> {<<DropPool(s, x.K), [p EXCEPT !.pc = "done", !.r.cr = Cardinality(x.K \cap DOMAIN s.pool)]>>}
    [] p.pc = "l1" -> {<<Lease(h, s, D, e.dl), IF D = {} THEN Fin(p) ELSE [p EXCEPT !.pc = "l2", !.x.D = D]>> : D \in LegalChoices(s, e)}
    [] p.pc = "l2" -> LET v == View(s) F == x.D \cap DOMAIN v
                      IN {<<s, [p EXCEPT !.pc = IF F = x.D THEN "done" ELSE "l3", !.x.D = x.D \ F, !.r.msgs = {Seen(k, v[k]) : k \in F}]>>}
    [] p.pc = "l3" -> LET F == x.D \cap DOMAIN s.store
                      IN {<<s, [p EXCEPT !.pc = IF F = x.D THEN "done" ELSE "l4", !.x.D = x.D \ F, !.r.msgs = @ \cup {Seen(k, s.store[k]) : k \in F}]>>}
    [] p.pc = "l4" -> {<<[s EXCEPT !.pool = Drop(@, x.D)], Fin(p)>>}
    [] p.pc = "t1" -> {<<s, p2>> : p2 \in Loop([p EXCEPT !.x.todo = QueuesIn(s, "P")], "t2", "done")}
    [] p.pc = "t2" -> {<<TimeoutQ(s, x.q), p2>> : p2 \in Loop(p, "t2", "done")}
    [] p.pc = "u1" -> {<<s, p2>> : p2 \in Loop([p EXCEPT !.x.todo = QueuesIn(s, "KA")], "u2", "u3")}
    [] p.pc = "u2" -> {<<UnlockQ(s, x.q, "KA"), p2>> : p2 \in Loop(p, "u2", "u3")}
    [] p.pc = "u3" -> {<<s, p2>> : p2 \in Loop([p EXCEPT !.x.todo = QueuesIn(s, "KN")], "u4", "done")}
    [] p.pc = "u4" -> {<<UnlockQ(s, x.q, "KN"), p2>> : p2 \in Loop(p, "u4", "done")}
    [] p.pc = "x1" -> {<<s, IF s.rec.run THEN Fin(p) ELSE To(p, "x2")>>}
    [] p.pc = "x2" -> LET V == Expired(s) IN {<<s, p2>> : p2 \in Loop([p EXCEPT !.x.K = V, !.x.todo = {k[1] : k \in V}], "x3", "done")}
    [] p.pc = "x3" -> {<<DropStore(s, {k \in x.K : k[1] = x.q}), To(p, "x4")>>}
    [] p.pc = "x4" -> {<<DropPool(s, {k \in x.K : k[1] = x.q}), p2>> : p2 \in Loop(p, "x3", "done")}
    [] p.pc = "m1" -> {<<s, IF s.rec.run THEN Fin(p) ELSE To(p, "m2")>>}
    [] p.pc = "m2" -> {<<s, p2>> : p2 \in Loop([p EXCEPT !.x.todo = {q \in DOMAIN s.max : s.max[q] > 0 /\ q # ""}], "m3", "done")}
    [] p.pc = "m3" -> LET n == Cardinality(KeysOf(s.store, x.q)) - s.max[x.q]
                      IN IF n <= 0 THEN {<<s, p2>> : p2 \in Loop(p, "m3", "done")} ELSE {<<s, [p EXCEPT !.pc = "m4", !.x.diff = n]>>}
    [] p.pc = "m4" -> {<<s, [p EXCEPT !.pc = "m5", !.x.K = MaxDoomed(s, x.q, x.diff)]>>}
    [] p.pc = "m5" -> {<<DropStore(s, x.K), To(p, "m6")>>}
    [] p.pc = "m6" -> {<<DropPool(s, x.K), p2>> : p2 \in Loop(p, "m3", "done")}
    [] p.pc = "v1" -> {<<s, IF s.rec.done THEN To(p, "v7") ELSE [p EXCEPT !.pc = "v2", !.x.bp = s.rec.lo]>>}
    [] p.pc = "v2" -> {<<s, To(p, IF x.bp = 0 /\ ~s.rec.run THEN "w1" ELSE "v3")>>}
    [] p.pc = "w1" -> {<<[s EXCEPT !.rec.run = TRUE], To(p, "w2")>>}
    [] p.pc = "w2" -> LET z == LastSeq(s) IN {<<s, IF z = 0 THEN To(p, "f1") ELSE [p EXCEPT !.pc = "w3", !.x.hi = z]>>}
    [] p.pc = "w3" -> {<<[s EXCEPT !.rec.hi = x.hi], To(p, IF p.r.ok THEN "done" ELSE "v3")>>}
    [] p.pc = "v3" -> {<<s, IF x.bp = 0 /\ s.rec.hi = 0 THEN [p EXCEPT !.pc = "w1", !.r.ok = TRUE] ELSE [p EXCEPT !.pc = "v4", !.x.hi = s.rec.hi]>>}
    [] p.pc = "v4" -> LET G == Page(s, x.bp, x.hi)
                          ms == [k \in G |-> Clamp(s.store[k].score)]
                          p1 == [p EXCEPT !.x.msgs = <<ms>>, !.x.todo = {k[1] : k \in G},
                                          !.x.bp = IF G = {} THEN 0 ELSE Max({s.store[k].seq : k \in G})]
                      IN {<<s, p2>> : p2 \in Loop(p1, "v5", "f1")}
    [] p.pc = "v5" -> LET ms == x.msgs[1] K == {k \in DOMAIN ms : k[1] = x.q} \ DOMAIN s.pool
                      IN {<<[s EXCEPT !.pool = [k \in K |-> Entry(ms[k], "rec")] @@ @], p2>> : p2 \in Loop(p, "v5", "v6")}
    [] p.pc = "v6" -> {<<[s EXCEPT !.rec.lo = x.bp, !.rec.done = FALSE], To(p, IF Cardinality(DOMAIN x.msgs[1]) < PAGE THEN "f1" ELSE "done")>>}
    [] p.pc = "v7" -> {<<s, IF s.rec.run THEN To(p, "v8") ELSE Fin(p)>>}
    [] p.pc = "v8" -> {<<[s EXCEPT !.rec.run = FALSE], Fin(p)>>}
    [] p.pc = "f1" -> {<<[s EXCEPT !.rec.run = FALSE], To(p, "f2")>>}
    [] p.pc = "f2" -> {<<[s EXCEPT !.rec.done = TRUE], Fin(p)>>}
    [] p.pc = "o1" -> {<<Post(h, s, e), [Fin(p) EXCEPT !.r.count = IF e.op = "count" THEN CountOf(s, e.q) ELSE 0,
                                                     !.r.max = IF e.op = "getq" THEN MaxOf(s, e.q) ELSE 0]>>}
    [] OTHER -> {}

\* How a process goes on when its call failed (whether or not it took effect)
Tolerant(pc) == pc \in {"l4", "t2", "u2", "u4", "m3", "m4", "m5", "m6"}
AfterFail(p) ==
  LET f == [p EXCEPT !.flt = TRUE] IN
  CASE p.pc = "l4" -> {Fin(f)}
    [] p.pc = "t2" -> Loop(f, "t2", "done")
    [] p.pc = "u2" -> Loop(f, "u2", "u3")
    [] p.pc = "u4" -> Loop(f, "u4", "done")
    [] p.pc \in {"m3", "m4", "m5", "m6"} -> Loop(f, "m3", "done")
    [] OTHER -> {[Fin(f) EXCEPT !.r.err = "X"]}
\* the next call fails: not executed, or executed and the answer lost
CallFails(h, s, p) == {<<s, q>> : q \in AfterFail(p)} \cup {<<o[1], q>> : o \in Call(h, s, p), q \in AfterFail(p)}

\* ------------------------------------------------------------------ outcomes
\* of processes ps (a sequence) run concurrently: {<<state, processes>>}
RECURSIVE Close(_, _, _)
Close(h, front, acc) ==
  LET nxt(c) == UNION {{<<o[1], [c[2] EXCEPT ![i] = o[2]]>> : o \in Call(h, c[1], c[2][i])} : i \in {j \in DOMAIN c[2] : ~Done(c[2][j])}}
      fin(c) == \A i \in DOMAIN c[2] : Done(c[2][i])
      new == UNION {nxt(c) : c \in {y \in front : ~fin(y)}}
      acc2 == acc \cup {c \in front : fin(c)}
  IN IF new = {} THEN acc2 ELSE Close(h, new, acc2)
ParOutcomes(h, s, es) == Close(h, {<<s, [i \in DOMAIN es |-> Proc(es[i])]>>}, {})

\* Which call of a backend (as the replay names it: a method of an in-memory engine, a command on the wire) a step makes
Evals == {"cache:eval", "cache:evalsha"}
NamesOf ==
  LET F(S, N) == [pc \in S |-> N] IN
  F({"a1"}, {"storage:Insert", "storage:update"}) @@ F({"a2", "v5"}, {"cache:Insert"} \cup Evals)
  @@ F({"k1"}, {"storage:Ack", "storage:Nack", "storage:update"}) @@ F({"k2"}, {"cache:MakeAvailable", "cache:LockMessage"} \cup Evals)
  @@ F({"r1", "x3", "m5"}, {"storage:Remove", "storage:delete"}) @@ F({"r2", "l4", "x4", "m6"}, {"cache:Remove"} \cup Evals)
  @@ F({"l1"}, {"cache:PullMessages"} \cup Evals) @@ F({"l2", "l3", "x2", "m4", "v4", "w2"}, {"storage:Find", "storage:find"})
  @@ F({"t1", "u1", "u3"}, {"cache:ListQueues", "cache:scan"}) @@ F({"t2"}, {"cache:TimeoutMessages"} \cup Evals) @@ F({"u2", "u4"}, {"cache:UnlockMessages"} \cup Evals)
  @@ F({"x1", "m1", "v1", "v2", "v3", "v7"}, {"cache:Get", "cache:get"}) @@ F({"w1", "w3", "v6", "v8", "f1", "f2"}, {"cache:Set", "cache:set"})
  @@ F({"m2"}, {"storage:ListQueueConfigurations", "storage:find"}) @@ F({"m3"}, {"storage:Count", "storage:aggregate"})

\* of one process with exactly one failing call: {<<state, process>>}
RECURSIVE CloseF(_, _, _, _)
CloseF(h, what, front, acc) ==
  LET may(p) == ~p.flt /\ (what = "" \/ p.pc \notin DOMAIN NamesOf \/ what \in NamesOf[p.pc])
      nxt(c) == IF Done(c[2]) THEN {} ELSE Call(h, c[1], c[2]) \cup (IF may(c[2]) THEN CallFails(h, c[1], c[2]) ELSE {})
      new == (UNION {nxt(c) : c \in front})
      acc2 == acc \cup {c \in front : Done(c[2])}
  IN IF new = {} THEN acc2 ELSE CloseF(h, what, new, acc2)
\* a call that no step is known to make may have been an additional one
FaultOutcomes(h, s, e, what) ==
  LET O == {o \in CloseF(h, what, {<<s, Proc(e)>>}, {}) : o[2].flt}
  IN IF O # {} THEN O ELSE CloseF(h, "", {<<s, Proc(e)>>}, {})

\* of one process that stops at any point, its last call having taken effect or not: the states
RECURSIVE CloseC(_, _, _)
CloseC(h, front, acc) ==
  LET new == UNION {Call(h, c[1], c[2]) : c \in {y \in front : ~Done(y[2])}}
  IN IF new = {} THEN acc \cup front ELSE CloseC(h, new, acc \cup front)
CrashOutcomes(h, s, e) == {c[1] : c \in CloseC(h, {<<s, Proc(e)>>}, {})}
=============================================================================
