----------------------------- MODULE AuditMon -----------------------------
(* What may be observed of the audit buffer: bursts of events recorded one after the other by each *)
(* client, the bulks that reach the audit store, quiet moments, cancellation and the end of the    *)
(* sender.  The events of client c are numbered in the order it records them.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IDLE == 300000                                     \* ms without events after which all is sent
ABatch == 200

AMonInit(C) ==
  [begun |-> [c \in C |-> 0], ended |-> [c \in C |-> 0], sent |-> [c \in C |-> 0],
   req |-> [c \in C |-> <<>>],                     \* <<first event of a burst, what had been recorded before it>>
   last |-> 0, busy |-> 0, full |-> FALSE, why |-> {}]

ABad(m, b, w) == IF b THEN [m EXCEPT !.why = @ \cup {<<"C24", w>>}] ELSE m
Pending(m) == LET RECURSIVE S(_)
                  S(C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN m.ended[c] - m.sent[c] + S(C \ {c})
              IN S(DOMAIN m.ended)

\* one run of consecutive events of a client within a bulk
ARun(m, r) ==
  LET c == r[1] f == r[2] t == r[3]
      m1 == ABad(m, f <= m.sent[c], "an event was sent twice")
      m2 == ABad(m1, f > m.sent[c] + 1, "events were lost or not sent in order")
      m3 == ABad(m2, t > m.begun[c], "an event was sent that was never recorded")
      due == SelectSeq(m.req[c], LAMBDA q : q[1] <= t)
      m4 == ABad(m3, \E i \in 1..Len(due) : \E d \in DOMAIN due[i][2] : d # c /\ m3.sent[d] < due[i][2][d],
                 "an event was sent before one recorded earlier")
  IN [m4 EXCEPT !.sent[c] = IF t > @ THEN t ELSE @, !.req[c] = SelectSeq(@, LAMBDA q : q[1] > t)]
RECURSIVE ARuns(_, _)
ARuns(m, rs) == IF rs = <<>> THEN m ELSE ARuns(ARun(m, Head(rs)), Tail(rs))

AMon(m, e) ==
  CASE e.k = "b" -> [m EXCEPT !.begun[e.c] = @ + e.n, !.req[e.c] = Append(@, <<m.begun[e.c] + 1, m.ended>>)]
    [] e.k = "e" -> [m EXCEPT !.ended[e.c] = @ + e.n, !.last = e.ms]
    [] e.k = "bulk" -> LET m1 == ABad(m, e.n > ABatch, "more events in one batch than allowed")
                           m2 == ABad(m1, e.bad > 0, "an event does not say what was recorded")
                       IN [ARuns(m2, e.runs) EXCEPT !.busy = @ + 1]
    [] e.k = "bulkend" -> [m EXCEPT !.busy = @ - 1, !.last = e.ms]
    [] e.k = "quiet" -> LET p == Pending(m)
                            m1 == ABad(m, m.busy = 0 /\ p >= ABatch, "a full batch was not sent")
                        IN ABad(m1, m.busy = 0 /\ p > 0 /\ e.ms > m.last + IDLE, "events were still not sent after the maximum idle time")
    [] e.k = "done" -> ABad(m, \E c \in DOMAIN m.sent : m.sent[c] < m.ended[c], "recorded events were not sent at the shutdown")
    [] e.k = "end" -> ABad(m, \E c \in DOMAIN m.sent : m.sent[c] < m.begun[c], "recorded events were never sent")
    [] e.k = "panic" -> ABad(m, TRUE, "recording an event crashed the server")
    [] e.k = "stuck" -> ABad(m, TRUE, "recording or sending is stuck")
    [] OTHER -> m
=============================================================================
