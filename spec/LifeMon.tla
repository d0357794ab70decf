------------------------------ MODULE LifeMon ------------------------------
(* What may be observed of one server process from outside: the backend commands of its            *)
(* housekeeper tasks, requests, the audit bulks, the flush of the trace data and the exit.         *)
(* Mon(m, e, c) is the next state of the monitor; m.why collects <<property, reason>> pairs.       *)
(* c describes the scenario: delay (ms per task), full (size of a full audit batch), plain (no     *)
(* injected failures), qv (messages to recover).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tasks == {"unlock", "timeout", "metrics", "recovery", "max", "ttl"}
Excl == {"recovery", "max", "ttl"}
RedisKinds == {"scan", "scan2", "script", "get", "getbp", "set", "run"}

MonInit ==
  [ph |-> "new",                                   \* new, up, sig, refuse, trace, cancel, exit
   held |-> {},                                    \* <<task, kind>> of the commands kept waiting
   holder |-> "none",                              \* the exclusive task that ran last
   runs |-> [t \in Tasks |-> 0],
   inq |-> [t \in Tasks |-> "-"],
   starts |-> [t \in Tasks |-> 1000000],           \* runs that may still begin
   late |-> [t \in Tasks |-> 1000000],             \* queues that may still be begun
   seen |-> {},                                    \* queues of the requests seen in progress
   recheld |-> FALSE,                              \* a recovery was held when the shutdown began
   sent |-> <<>>, reqs |-> <<>>, skip |-> FALSE,
   why |-> {}]

Bad(m, p, w) == [m EXCEPT !.why = @ \cup {<<p, w>>}]
BadIf(m, b, p, w) == IF b THEN Bad(m, p, w) ELSE m
HeldTasks(m) == {h[1] : h \in m.held}
Refusing(m) == m.ph \in {"refuse", "trace", "cancel"}
Flushed(m) == m.ph \in {"trace", "cancel"}

CmdTask(m, e, c) ==
  LET t == e.t
      m1 == BadIf(m, /\ t \in Excl /\ ~Flushed(m)
                     /\ IF e.first THEN \E u \in Excl : u \in HeldTasks(m)
                        ELSE m.holder # t \/ \E u \in Excl \ {t} : u \in HeldTasks(m),
                  "C27", "two of the recovery, TTL and max-elements tasks ran at the same time: " \o t)
      m2 == BadIf(m1, e.first /\ e.ms < (m.runs[t] + 1) * c.delay[t],
                  "C27", "task executed more often than its interval: " \o t)
      m3 == BadIf(m2, e.first /\ Refusing(m) /\ m.starts[t] <= 0,
                  "C26", "task started after the shutdown: " \o t)
      newq == e.q # "" /\ (e.first \/ e.q # m.inq[t])
      m4 == BadIf(m3, newq /\ t # "recovery" /\ Refusing(m) /\ m.late[t] <= 0,
                  "C26", "task went on to another queue after the shutdown had started: " \o t)
      m5 == BadIf(m4, t = "recovery" /\ Flushed(m),
                  "C26", "recovery was still running when the trace data was flushed")
  IN [m5 EXCEPT !.holder = IF t \in Excl THEN t ELSE @,
                !.runs[t] = IF e.first THEN @ + 1 ELSE @,
                !.starts[t] = IF e.first /\ Refusing(m) THEN @ - 1 ELSE @,
                !.late[t] = IF ~Refusing(m) THEN @ ELSE IF e.first THEN 0 ELSE IF newq THEN @ - 1 ELSE @,
                !.inq[t] = IF e.first THEN (IF e.q = "" THEN "-" ELSE e.q) ELSE IF e.q # "" THEN e.q ELSE @,
                !.held = IF e.held THEN @ \cup {<<t, e.kind>>} ELSE @]

CmdReq(m, e) ==
  LET m1 == BadIf(m, Flushed(m), "C26", "a request was still in progress when the trace data was flushed")
  IN [m1 EXCEPT !.seen = @ \cup {e.q}, !.held = IF e.held THEN @ \cup {<<"req", e.kind>>} ELSE @]

\* the refusal of a request shows that the shutdown has started
Refuse(m) ==
  IF m.ph # "sig" THEN m
  ELSE [m EXCEPT !.ph = "refuse",
                 !.starts = [t \in Tasks |-> IF t \in HeldTasks(m) THEN 0 ELSE 1],
                 !.late = [t \in Tasks |-> IF t \in HeldTasks(m) THEN 0 ELSE 1],
                 !.recheld = "recovery" \in HeldTasks(m)]

Trace(m, e) ==
  LET m1 == BadIf(m, m.ph \notin {"sig", "refuse"}, "C26", "trace data flushed outside of a shutdown")
      m2 == BadIf(m1, "recovery" \in HeldTasks(m), "C26", "trace data flushed while a recovery was running")
      m3 == BadIf(m2, "req" \in HeldTasks(m), "C26", "trace data flushed while a request was in progress")
      m4 == IF m3.ph = "sig" THEN Refuse(m3) ELSE m3
  IN [m4 EXCEPT !.ph = "trace", !.held = IF e.held THEN @ \cup {<<"trace", "trace">>} ELSE @]

\* fewer entries than a full batch are sent only because the remaining work was cancelled
Bulk(m, e, c) ==
  LET m1 == BadIf(m, e.n > c.full, "C24", "more events in one batch than allowed")
      m2 == BadIf(m1, e.bad > 0, "C24", "malformed event in a batch")
      m3 == BadIf(m2, e.n < c.full /\ m.ph \in {"sig", "refuse"}, "C26", "remaining work cancelled before the trace data was flushed")
      m4 == BadIf(m3, e.n < c.full /\ "trace" \in HeldTasks(m), "C26", "remaining work cancelled while the trace data was being flushed")
  IN [m4 EXCEPT !.ph = IF m.ph = "trace" /\ e.n < c.full THEN "cancel" ELSE @,
                !.sent = @ \o e.es,
                !.held = IF e.held THEN @ \cup {<<"audit", "audit">>} ELSE @]

Exit(m, e) ==
  LET m1 == BadIf(m, m.ph \in {"new", "up"}, "C26", "the server stopped without a signal")
      m2 == BadIf(m1, m.ph \in {"sig", "refuse"}, "C26", "the server stopped without flushing trace data")
      m3 == BadIf(m2, e.code # 0, "C26", "the server stopped with an error")
      wait == {h \in m.held : h[1] \in {"recovery", "req", "audit", "trace"} \/ h[2] \in RedisKinds}
      m4 == BadIf(m3, wait # {}, "C26", "the server stopped while work was in progress: " \o ToString({h[1] : h \in wait}))
  IN [m4 EXCEPT !.ph = "exit"]

ReqEnd(m, e) ==
  LET m1 == BadIf(m, ~e.ok /\ e.q \in m.seen /\ m.ph # "new", "C26", "a request in progress was not finished")
  IN [m1 EXCEPT !.reqs = Append(@, [i |-> e.i, ok |-> e.ok, ids |-> e.ids, op |-> e.op, q |-> e.q])]

Mon(m, e, c) ==
  IF m.ph = "exit" /\ e.k # "reqe" THEN m
  ELSE CASE e.k = "cmd" -> IF e.t \in Tasks THEN CmdTask(m, e, c) ELSE CmdReq(m, e)
         [] e.k = "rel" -> [m EXCEPT !.held = {h \in @ : h[1] # e.t}]
         [] e.k = "ready" -> [m EXCEPT !.ph = "up"]
         [] e.k = "sig" -> IF m.ph \in {"new", "up"} THEN [m EXCEPT !.ph = "sig"] ELSE m
         [] e.k = "refuse" -> Refuse(m)
         [] e.k = "accept" -> BadIf(m, Refusing(m), "C26", "a new request was accepted during the shutdown")
         [] e.k = "accepts" -> Bad(m, "C26", "new requests are still accepted after the signal")
         [] e.k = "trace" -> Trace(m, e)
         [] e.k = "bulk" -> Bulk(m, e, c)
         [] e.k = "exit" -> Exit(m, e)
         [] e.k = "reqe" -> ReqEnd(m, e)
         [] e.k = "stalled" -> Bad(m, "C27", "task is not executed any more: " \o e.t)
         [] e.k = "noexit" -> Bad(m, "C26", "the server did not stop")
         [] e.k = "missing" -> [m EXCEPT !.skip = TRUE]
         [] OTHER -> m

---------------------------------------------------------------------------
(* At the end of a process that was shut down: everything was audited exactly once, in order.      *)
Keys(m) == {<<m.sent[i].queue, m.sent[i].sig, m.sent[i].id>> : i \in 1..Len(m.sent)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* the events of the requests to one queue, which were made one after the other
QueueEnd(m, q) ==
  LET adds == SelectSeq(m.reqs, LAMBDA r : r.ok /\ r.op = "add" /\ r.q = q)
      want == Cat([i \in 1..Len(adds) |-> adds[i].ids])
      ids == {want[i] : i \in 1..Len(want)}
      got == SelectSeq(m.sent, LAMBDA x : x.queue = q /\ x.sig = "INSERT_CACHE" /\ x.id \in ids)
      gids == {got[i].id : i \in 1..Len(got)}
      m1 == BadIf(m, ids \ gids # {}, "C24", "events recorded before or during the shutdown were not sent")
      m2 == BadIf(m1, Len(got) > Cardinality(gids), "C24", "an event was sent twice")
  IN BadIf(m2, gids = ids /\ Len(got) = Len(want) /\ [i \in 1..Len(got) |-> got[i].id] # want, "C24", "events were not sent in order")

RECURSIVE QueuesEnd(_, _)
QueuesEnd(m, Q) == IF Q = {} THEN m ELSE LET q == CHOOSE q \in Q : TRUE IN QueuesEnd(QueueEnd(m, q), Q \ {q})
AuditEnd(m) == QueuesEnd(m, {m.reqs[i].q : i \in 1..Len(m.reqs)})

RecEvents(m, c) ==
  LET got == SelectSeq(m.sent, LAMBDA x : x.queue = "qv0" /\ x.sig = "INSERT_CACHE" /\ x.reason = "recovery")
  IN BadIf(m, Len(got) # c.qv \/ Cardinality({got[i].id : i \in 1..Len(got)}) # c.qv,
           "C24", "the events of the recovery were not all sent once")

MonEnd(m, fin, c) ==
  IF m.skip THEN m
  ELSE LET m1 == IF m.ph = "exit" THEN AuditEnd(m) ELSE m
           m2 == BadIf(m1, m.ph = "exit" /\ m.recheld /\ c.plain /\ fin.bp # "recovery_finished",
                       "C26", "the recovery in progress was not finished by the shutdown")
       IN IF m.ph = "exit" /\ c.plain /\ c.qv > 0 /\ fin.bp = "recovery_finished" THEN RecEvents(m2, c) ELSE m2
=============================================================================
