----------------------------- MODULE ConnTrace -----------------------------
(* Monitor of recorded histories of Conn: a server is started and clients  *)
(* talk to it.  Events: serve, call (an Add of one message; count: the     *)
(* messages stored afterwards), send and fetch (a request or answer of k   *)
(* bytes), watch (a connection of a client of that kind), health.          *)
EXTENDS Conn
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, bad
S0 == [up |-> FALSE, v |-> <<>>, n |-> 0]
Grown(e) == CASE e.op = "call" -> Admits(e.sv, e.c) [] e.op = "send" -> Takes(e.sv, e.k) [] OTHER -> FALSE
Ok(e, up, k) ==
  CASE e.op = "serve" -> e.r.ok = (Starts(e.v) /\ ~e.busy)
    [] ~up -> TRUE
    [] e.op = "call" -> e.r.ok = Admits(e.sv, e.c) /\ e.r.shown = (IF Tls(e.sv) /\ e.c.tls THEN Shown(e.sv, e.c.sni) ELSE "")
    [] e.op = "send" -> e.r.ok = Takes(e.sv, e.k) /\ (e.r.ok \/ e.r.code = "ResourceExhausted")
    [] e.op = "fetch" -> e.r.ok = Gives(e.sv, e.k) /\ (e.r.ok \/ e.r.code = "ResourceExhausted")
    [] e.op = "watch" -> e.r.closed = Closes(e.sv, e.kind)
    [] e.op = "health" -> e.r.code = (IF e.name \in Services THEN "SERVING" ELSE "NotFound")
    [] OTHER -> TRUE
TInit == t \in 1..Len(Traces) /\ l = 1 /\ s = S0 /\ bad = {} /\ run = "down" /\ v = <<>> /\ n = 0 /\ who = {}
TNext ==
  /\ bad = {} /\ l <= Len(Traces[t].ev) /\ UNCHANGED <<run, v, n, who>>
  /\ LET e0 == Traces[t].ev[l]
         e == e0 @@ [sv |-> s.v, busy |-> FALSE]
         up == IF e.op = "serve" THEN e.r.ok ELSE s.up
         m == IF e.op = "serve" THEN 0 ELSE IF s.up /\ Grown(e) THEN s.n + 1 ELSE s.n
         b == (IF Ok(e, s.up, 0) THEN {} ELSE {<<"C34", e.op \o " " \o ToString(e0) \o " on a server with " \o ToString(s.v)>>})
              \cup (IF e.r.count = m THEN {} ELSE {<<"C34", e.op \o ": messages stored by a refused request, or an accepted one not stored " \o ToString(e0)>>})
     IN
     /\ s' = [up |-> up, v |-> IF e.op = "serve" THEN e.v ELSE s.v, n |-> m] /\ bad' = b /\ l' = l + 1 /\ t' = t
     /\ IF b # {} \/ l = Len(Traces[t].ev)
        THEN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> "-", at |-> l, bad |-> b, amb |-> FALSE, n |-> Len(Traces[t].ev), op |-> e.op]))
        ELSE TRUE
TSpec == TInit /\ [][TNext]_<<t, l, s, bad, run, v, n, who>>
=============================================================================
