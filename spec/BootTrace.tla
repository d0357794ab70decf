----------------------------- MODULE BootTrace -----------------------------
(* Monitor of recorded starts.  Events: ping (b: the backend, ok: the      *)
(* answer it got, gap: ms since the previous one), end (up: does it serve, *)
(* code: exit status or -1, mongo, redis: where an added message is found, *)
(* asked: was it asked to add one).                                        *)
EXTENDS Boot
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, bad
D(b, what) == IF b THEN {<<"C35", what>>} ELSE {}
PingBad(x, e) ==
  D(Asking(s) # e.b, "an attempt to connect to " \o e.b \o " that is not due")
  \cup D(s.wait /\ e.gap < Delay(x, e.b), "tried again before the delay was over")
  \cup D(s.wait /\ e.gap > Delay(x, e.b) + 5000, "tried again long after the delay")
EndBad(x, e) ==
  D(e.up /\ s.pc # "up", "serving although it had to end or to wait")
  \cup D(~e.up /\ s.pc = "up", "not started although everything is available")
  \cup D(s.pc \in {"store", "cache"}, "ended before the attempts were used up")
  \cup D(~e.up /\ s.pc = "refused" /\ e.code \in {-1, 0}, "a failed start not reported by the exit status")
  \cup D(e.up /\ e.asked /\ (e.mongo # (x.st = "MONGODB") \/ e.redis # (x.ca = "REDIS")), "messages kept in another engine than configured")
  \cup D(e.up /\ e.asked /\ x.st = "MONGODB" /\ e.cols # Columns(x), "messages or settings kept in other collections than configured")
  \cup D(e.up /\ e.asked /\ x.ca = "REDIS" /\ e.pfx # Prefix(x), "keys with another prefix than configured")
TInit == t \in 1..Len(Traces) /\ l = 1 /\ s = Quiet(Traces[t].v, Start(Traces[t].v)) /\ bad = {} /\ v = <<>> /\ pc = "" /\ left = 0 /\ k = 0 /\ wait = FALSE /\ hist = <<>>
TNext ==
  /\ bad = {} /\ l <= Len(Traces[t].ev) /\ UNCHANGED vars
  /\ LET x == Traces[t].v e == Traces[t].ev[l]
         b == IF e.k = "ping" THEN PingBad(x, e) ELSE EndBad(x, e)
     IN /\ s' = (IF e.k = "ping" /\ b = {} THEN Quiet(x, Try(x, s, e.ok)) ELSE s)
        /\ bad' = b /\ l' = l + 1 /\ t' = t
        /\ IF b # {} \/ l = Len(Traces[t].ev)
           THEN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> "-", at |-> l, bad |-> b, amb |-> FALSE, n |-> Len(Traces[t].ev), op |-> e.k]))
           ELSE TRUE
TSpec == TInit /\ [][TNext]_<<t, l, s, bad, v, pc, left, k, wait, hist>>
=============================================================================
