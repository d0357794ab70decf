------------------------------- MODULE Boot -------------------------------
(* How a server process starts: it connects to its storage (two clients in *)
(* the case of MongoDB, one after the other) and then to its cache, tries  *)
(* again after a delay while they do not answer, and serves requests only  *)
(* when both have answered; otherwise it ends with an error.               *)
(* Settings v: st, ca the engines, stu, cau their addresses ("ok", "none", *)
(* "bad" malformed), cluster, sen, cen retries enabled, san, can attempts, *)
(* grpc and tls ("off", "ok", "broken"), sdel, cdel the delays in ms,      *)
(* names: are database and collections named, pfx the prefix of keys.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT BUG

V0 == [st |-> "MEMORY", stu |-> "none", ca |-> "MEMORY", cau |-> "none", cluster |-> FALSE, sen |-> TRUE, san |-> 2, cen |-> TRUE, can |-> 2, grpc |-> TRUE, tls |-> "off",
       sdel |-> 150, cdel |-> 200, names |-> FALSE, pfx |-> ""]
Mongo == [V0 EXCEPT !.st = "MONGODB", !.stu = "ok"]
Redis == [V0 EXCEPT !.ca = "REDIS", !.cau = "ok"]
Both == [Mongo EXCEPT !.ca = "REDIS", !.cau = "ok"]
Servers ==
  {V0} \cup {[V0 EXCEPT !.st = x] : x \in {"bogus", "mongodb", "REDIS"}} \cup {[V0 EXCEPT !.ca = x] : x \in {"bogus", "redis", "MONGODB"}}
  \cup {[Mongo EXCEPT !.sen = a, !.san = n] : a \in BOOLEAN, n \in {-1, 0, 1, 2, 3}}
  \cup {[Redis EXCEPT !.cen = a, !.can = n, !.cluster = c] : a \in BOOLEAN, n \in {-1, 0, 1, 2, 3}, c \in BOOLEAN}
  \cup {[Mongo EXCEPT !.stu = u, !.sen = a] : u \in {"none", "bad"}, a \in BOOLEAN}
  \cup {[Redis EXCEPT !.cau = u, !.cluster = c] : u \in {"none", "bad"}, c \in BOOLEAN}
  \cup {[Both EXCEPT !.san = n, !.can = m, !.cluster = c] : n \in {1, 2}, m \in {1, 2}, c \in BOOLEAN} \cup {[Both EXCEPT !.cau = "none"], [Both EXCEPT !.ca = "bogus"]}
  \cup {[V0 EXCEPT !.grpc = FALSE], [Both EXCEPT !.grpc = FALSE], [Mongo EXCEPT !.grpc = FALSE]}
  \cup {[Mongo EXCEPT !.san = 7, !.sdel = 40]} \cup {[Redis EXCEPT !.can = 7, !.cdel = 40, !.cluster = c] : c \in BOOLEAN}
  \cup {[Both EXCEPT !.sdel = 900, !.cdel = 100, !.cluster = c] : c \in BOOLEAN} \cup {[Both EXCEPT !.sdel = 100, !.cdel = 900, !.cluster = c] : c \in BOOLEAN}
  \cup {[Both EXCEPT !.san = 1, !.can = 1, !.names = n, !.pfx = x, !.cluster = c] : n, c \in BOOLEAN, x \in {"", "own", ":own:", " own ", "a:b"}}
  \cup {[x EXCEPT !.tls = u] : x \in {V0, Both}, u \in {"ok", "broken"}} \cup {[Both EXCEPT !.tls = "broken", !.grpc = FALSE]}

Allowed(en, n, b) == IF n < 1 THEN (IF b = "mongo" THEN 1 ELSE 0) ELSE IF en THEN n ELSE 1
Delay(x, b) == IF b = "mongo" THEN x.sdel ELSE x.cdel
Columns(x) == IF x.names THEN <<"db2.messages2", "db2.settings2">> ELSE <<"deckard.queue", "deckard.queue_configuration">>
Prefix(x) == CASE x.pfx = "" -> "deckard_v1" [] x.pfx = "a:b" -> "a:b" [] OTHER -> "own"

\* ---------------------------------------------------------------- behaviour
\* pc: "store", "cache", "listen", "up" or "refused"; left: clients of the storage still to connect; k: attempts of this client;
\* wait: is a delay due before the next attempt; hist: the attempts
VARIABLES v, pc, left, k, wait, hist
vars == <<v, pc, left, k, wait, hist>>
Start(x) == [pc |-> "store", left |-> 2, k |-> 0, wait |-> FALSE]
StoreStep(x, s) ==     \* what needs no answer
  CASE s.pc = "store" /\ x.st = "MEMORY" -> [s EXCEPT !.pc = "cache"]
    [] s.pc = "store" /\ (x.st # "MONGODB" \/ x.stu # "ok") -> [s EXCEPT !.pc = "refused"]
    [] s.pc = "store" /\ s.left = 0 -> [s EXCEPT !.pc = "cache", !.k = 0]
    [] s.pc = "cache" /\ x.ca = "MEMORY" -> [s EXCEPT !.pc = "listen"]
    [] s.pc = "cache" /\ (x.ca # "REDIS" \/ x.cau # "ok") -> [s EXCEPT !.pc = "refused"]
    [] s.pc = "cache" /\ Allowed(x.cen, x.can, "redis") = 0 -> [s EXCEPT !.pc = "refused"]
    [] s.pc = "listen" -> [s EXCEPT !.pc = IF x.grpc /\ x.tls = "broken" THEN "refused" ELSE "up"]
    [] OTHER -> s
RECURSIVE Quiet(_, _)
Quiet(x, s) == LET t == StoreStep(x, s) IN IF t = s THEN s ELSE Quiet(x, t)
Asking(s) == IF s.pc = "store" THEN "mongo" ELSE IF s.pc = "cache" THEN "redis" ELSE "-"
Try(x, s, ok) ==      \* an attempt is answered
  LET b == Asking(s)
      max == IF b = "mongo" THEN Allowed(x.sen, x.san, b) ELSE Allowed(x.cen, x.can, b)
  IN IF ok THEN (IF b = "mongo" THEN [s EXCEPT !.left = @ - 1, !.k = 0, !.wait = FALSE] ELSE [s EXCEPT !.pc = "listen", !.wait = FALSE])
     ELSE IF s.k + 1 >= (IF BUG = "more" THEN max + 1 ELSE max) THEN [s EXCEPT !.pc = "refused", !.k = @ + 1]
     ELSE [s EXCEPT !.k = @ + 1, !.wait = TRUE]

Cur == [pc |-> pc, left |-> left, k |-> k, wait |-> wait]
Become(s) == pc' = s.pc /\ left' = s.left /\ k' = s.k /\ wait' = s.wait /\ v' = v
Init == v \in Servers /\ LET s == Quiet(v, Start(v)) IN pc = s.pc /\ left = s.left /\ k = s.k /\ wait = s.wait /\ hist = <<>>
Next == Asking(Cur) # "-" /\ \E ok \in BOOLEAN : Become(Quiet(v, Try(v, Cur, ok))) /\ hist' = Append(hist, <<Asking(Cur), ok>>)
Spec == Init /\ [][Next]_vars

Fails(b) == Cardinality({i \in DOMAIN hist : hist[i] = <<b, FALSE>>})
Answered(b) == Cardinality({i \in DOMAIN hist : hist[i] = <<b, TRUE>>})
Bounded == /\ Fails("mongo") <= 2 * Allowed(v.sen, v.san, "mongo") /\ Fails("redis") <= Allowed(v.cen, v.can, "redis")
           /\ (~v.sen => Fails("mongo") <= 1) /\ (~v.cen => Fails("redis") <= 1)
Ready == pc = "up" => (v.st = "MONGODB" => Answered("mongo") = 2) /\ (v.ca = "REDIS" => Answered("redis") = 1) /\ v.st \in {"MEMORY", "MONGODB"} /\ v.ca \in {"MEMORY", "REDIS"}
InOrder == \A i, j \in DOMAIN hist : hist[i][1] = "redis" /\ hist[j][1] = "mongo" => j < i
Patient == pc = "refused" /\ v.st = "MONGODB" /\ v.stu = "ok" /\ v.ca = "MEMORY" /\ v.tls # "broken" => hist # <<>> /\ hist[Len(hist)] = <<"mongo", FALSE>>
Plan == pc \in {"up", "refused"} => PrintT("PLAN " \o ToJson([v |-> v, script |-> hist]))
=============================================================================
