------------------------------- MODULE Audit -------------------------------
(* The audit buffer: clients recording events into a bounded channel, the sender, and its stop.    *)
(* Observable steps are fed to the monitor of AuditMon; the environment's steps are the plans of   *)
(* the tests (PLAN lines of the eager variant).                                                    *)
EXTENDS AuditMon, Json

CONSTANTS Clients, CAP, BATCH, PER, EAGER, BUG, SLOW

VARIABLES n, pc, ch, pend, sp, cur, cancelled, closing, closed, direct, slow, m, hist
vars == <<n, pc, ch, pend, sp, cur, cancelled, closing, closed, direct, slow, m, hist>>
\* n: events left, pc: state of a client, sp: state of the sender, cur: what is being sent,
\* direct: the client whose event is being sent without the buffer, slow: the store keeps a bulk waiting

Init == /\ n = [c \in Clients |-> PER] /\ pc = [c \in Clients |-> "idle"] /\ ch = <<>> /\ pend = <<>> /\ sp = "recv"
        /\ cur = <<>> /\ cancelled = FALSE /\ closing = FALSE /\ closed = FALSE /\ direct = "none"
        /\ slow \in 0..SLOW /\ m = AMonInit(Clients) /\ hist = <<>>

Ev(c) == <<c, PER - n[c]>>
Runs(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], s[i][2]>>]
Bulk(s) == [k |-> "bulk", n |-> Len(s), bad |-> 0, runs |-> Runs(s)]
Feed(e) == m' = AMon(m, e)
Quiet == UNCHANGED m

\* ---- clients
Begin(c) == /\ pc[c] = "idle" /\ n[c] > 0
            /\ n' = [n EXCEPT ![c] = @ - 1] /\ pc' = [pc EXCEPT ![c] = "call"]
            /\ Feed([k |-> "b", c |-> c, n |-> 1])
            /\ UNCHANGED <<ch, pend, sp, cur, cancelled, closing, closed, direct, slow>>
\* takes the read lock: not while the stop is waiting for the write lock
Enter(c) == /\ pc[c] = "call" /\ ~closing
            /\ pc' = [pc EXCEPT ![c] = IF closed THEN (IF BUG = "nodirect" THEN "end" ELSE "direct") ELSE "put"]
            /\ UNCHANGED <<n, ch, pend, sp, cur, cancelled, closing, closed, direct, slow, m, hist>>
Put(c) == /\ pc[c] = "put" /\ (Len(ch) < CAP \/ closed)
          /\ IF closed THEN Feed([k |-> "panic"]) /\ UNCHANGED ch ELSE Quiet /\ ch' = Append(ch, Ev(c))
          /\ pc' = [pc EXCEPT ![c] = "end"]
          /\ UNCHANGED <<n, pend, sp, cur, cancelled, closing, closed, direct, slow, hist>>
\* waits for the sender and for other direct sends
Direct(c) == /\ pc[c] = "direct" /\ (BUG = "overtake" \/ (sp = "done" /\ direct = "none"))
             /\ pc' = [pc EXCEPT ![c] = "sending"] /\ direct' = c
             /\ Feed([k |-> "bulk", n |-> 1, bad |-> 0, runs |-> <<<<c, Ev(c)[2], Ev(c)[2]>>>>])
             /\ UNCHANGED <<n, ch, pend, sp, cur, cancelled, closing, closed, slow, hist>>
DirectEnds(c) == /\ pc[c] = "sending"
                 /\ pc' = [pc EXCEPT ![c] = "end"] /\ direct' = "none" /\ Feed([k |-> "bulkend", ms |-> 0])
                 /\ UNCHANGED <<n, ch, pend, sp, cur, cancelled, closing, closed, slow, hist>>
Return(c) == /\ pc[c] = "end" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ Feed([k |-> "e", c |-> c, n |-> 1, ms |-> 0])
             /\ UNCHANGED <<n, ch, pend, sp, cur, cancelled, closing, closed, direct, slow, hist>>

\* ---- sender
Send(next) == /\ cur' = pend' /\ sp' = next /\ Feed(Bulk(pend'))
Recv == /\ sp \in {"recv", "drain"} /\ ch # <<>>
        /\ ch' = Tail(ch) /\ pend' = Append(pend, Head(ch))
        /\ IF Len(pend') = BATCH THEN Send(IF sp = "recv" THEN "send" ELSE "dsend") ELSE UNCHANGED <<sp, cur, m>>
        /\ UNCHANGED <<n, pc, cancelled, closing, closed, direct, slow, hist>>
Sent == /\ sp \in {"send", "dsend", "last"} /\ slow # 1
        /\ sp' = CASE sp = "send" -> "recv" [] sp = "dsend" -> "drain" [] OTHER -> "done"
        /\ pend' = <<>> /\ cur' = <<>> /\ Feed([k |-> "bulkend", ms |-> 0])
        /\ UNCHANGED <<n, pc, ch, cancelled, closing, closed, direct, slow, hist>>
Stop == /\ sp = "recv" /\ cancelled
        /\ sp' = IF BUG = "nodrain" THEN "flush" ELSE "drain"
        /\ closing' = TRUE
        /\ UNCHANGED <<n, pc, ch, pend, cur, cancelled, closed, direct, slow, m, hist>>
\* the write lock: no client is between its check and its write
Close == /\ closing /\ (BUG = "closeearly" \/ \A c \in Clients : pc[c] # "put")
         /\ closing' = FALSE /\ closed' = TRUE
         /\ UNCHANGED <<n, pc, ch, pend, sp, cur, cancelled, direct, slow, m, hist>>
Flush == /\ (sp = "drain" /\ closed /\ ch = <<>>) \/ (sp = "flush" /\ closed)
         /\ IF pend = <<>> THEN sp' = "done" /\ UNCHANGED <<cur, m>>
            ELSE cur' = pend /\ sp' = "last" /\ Feed(Bulk(pend))
         /\ UNCHANGED <<n, pc, ch, pend, cancelled, closing, closed, direct, slow, hist>>
Done == /\ sp = "done" /\ cancelled /\ m.full = FALSE
        /\ m' = [AMon(m, [k |-> "done"]) EXCEPT !.full = TRUE]
        /\ UNCHANGED <<n, pc, ch, pend, sp, cur, cancelled, closing, closed, direct, slow, hist>>

Internal == (\E c \in Clients : Enter(c) \/ Put(c) \/ Direct(c) \/ DirectEnds(c) \/ Return(c)) \/ Recv \/ Sent \/ Stop \/ Close \/ Flush \/ Done

\* ---- environment
Log(x) == hist' = IF EAGER THEN Append(hist, x) ELSE hist
Idle == /\ sp = "recv" /\ ch = <<>> /\ pend # <<>> /\ ~cancelled
        /\ cur' = pend /\ sp' = "send" /\ Feed(Bulk(pend)) /\ Log(<<"idle", "">>)
        /\ UNCHANGED <<n, pc, ch, pend, cancelled, closing, closed, direct, slow>>
Cancel == /\ ~cancelled /\ cancelled' = TRUE /\ Log(<<"cancel", "">>)
          /\ UNCHANGED <<n, pc, ch, pend, sp, cur, closing, closed, direct, slow, m>>
Hold == /\ slow > 1 /\ slow' = 1 /\ Log(<<"hold", "">>)
        /\ UNCHANGED <<n, pc, ch, pend, sp, cur, cancelled, closing, closed, direct, m>>
Release == /\ slow = 1 /\ slow' = 0 /\ Log(<<"rel", "">>)
           /\ UNCHANGED <<n, pc, ch, pend, sp, cur, cancelled, closing, closed, direct, m>>
EnvStep == (\E c \in Clients : Begin(c) /\ Log(<<"store", c>>)) \/ Idle \/ Cancel \/ Hold \/ Release

Next == IF EAGER THEN (IF ENABLED Internal THEN Internal ELSE EnvStep) ELSE Internal \/ EnvStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Cancel) /\ WF_vars(Release) /\ \A c \in Clients : WF_vars(Begin(c) /\ Log(<<"store", c>>))

NoAlarm == m.why = {}
Stored == \A c \in Clients : m.sent[c] <= m.begun[c]
AllSent == sp = "done" /\ (\A c \in Clients : pc[c] = "idle") => \A c \in Clients : m.sent[c] = m.ended[c]
Ends == <>(sp = "done" /\ \A c \in Clients : n[c] = 0 /\ pc[c] = "idle")
\* a plan is complete when nothing is left to do
Plan == EAGER /\ sp = "done" /\ (\A c \in Clients : n[c] = 0 /\ pc[c] = "idle") /\ slow # 1 => PrintT("PLAN " \o ToJson(hist))
=============================================================================
