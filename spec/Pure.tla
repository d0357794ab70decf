------------------------------- MODULE Pure -------------------------------
(* The parts of Deckard that need no deployment: settings, the            *)
(* controllable clock, time conversions and queue names.                  *)
(*                                                                        *)
(* Settings: a name's value comes from its environment variable; an empty *)
(* or missing variable means unset.  p.env: name -> raw value;            *)
(* p.ov: setting -> raw value of a programmatic override.                 *)
(* Clock: p.mode "real", "fn" (p.vals = <<t>>) or "vals".                 *)
(* An instant is <<day, millisecond of the day, nanosecond of that ms>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

S(type, dflt, alias) == [type |-> type, dflt |-> dflt, alias |-> alias]
\* Documented defaults (README); durations in milliseconds.
Settings ==
  ("audit.enabled" :> S("bool", "false", <<>>)) @@ ("elastic.address" :> S("str", "http://localhost:9200/", <<>>)) @@
  ("elastic.password" :> S("str", "", <<>>)) @@ ("elastic.user" :> S("str", "", <<>>)) @@
  ("cache.type" :> S("str", "MEMORY", <<>>)) @@ ("cache.uri" :> S("str", "", <<"redis.uri">>)) @@
  ("cache.connection.retry.enabled" :> S("bool", "true", <<>>)) @@ ("cache.connection.retry.attempts" :> S("int", "10", <<>>)) @@
  ("cache.connection.retry.delay" :> S("dur", "5000", <<>>)) @@ ("cache.prefix" :> S("str", "deckard_v1", <<>>)) @@
  ("redis.cluster.mode" :> S("bool", "false", <<>>)) @@ ("housekeeper.enabled" :> S("bool", "true", <<>>)) @@
  ("housekeeper.task.timeout.delay" :> S("dur", "1000", <<>>)) @@ ("housekeeper.task.unlock.delay" :> S("dur", "1000", <<>>)) @@
  ("housekeeper.task.update.delay" :> S("dur", "1000", <<>>)) @@ ("housekeeper.task.ttl.delay" :> S("dur", "1000", <<>>)) @@
  ("housekeeper.task.max_elements.delay" :> S("dur", "1000", <<>>)) @@ ("housekeeper.task.metrics.delay" :> S("dur", "60000", <<>>)) @@
  ("debug" :> S("bool", "false", <<>>)) @@ ("log_type" :> S("str", "json", <<>>)) @@
  ("metrics.enabled" :> S("bool", "true", <<>>)) @@ ("metrics.port" :> S("int", "22022", <<>>)) @@ ("metrics.path" :> S("str", "/metrics", <<>>)) @@
  ("metrics.histogram.buckets" :> S("str", "0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000", <<>>)) @@
  ("metrics.openmetrics.enabled" :> S("bool", "true", <<>>)) @@ ("grpc.enabled" :> S("bool", "true", <<>>)) @@ ("grpc.port" :> S("int", "8081", <<>>)) @@
  ("grpc.server.keepalive_time" :> S("dur", "0", <<>>)) @@ ("grpc.server.keepalive_timeout" :> S("dur", "0", <<>>)) @@
  ("grpc.server.max_connection_idle" :> S("dur", "0", <<>>)) @@ ("grpc.server.max_connection_age" :> S("dur", "0", <<>>)) @@
  ("grpc.server.max_connection_age_grace" :> S("dur", "0", <<>>)) @@
  ("grpc.server.max_recv_msg_size" :> S("int", "4194304", <<>>)) @@ ("grpc.server.max_send_msg_size" :> S("int", "4194304", <<>>)) @@
  ("tls.server.cert_file_paths" :> S("str", "", <<>>)) @@ ("tls.server.key_file_paths" :> S("str", "", <<>>)) @@
  ("tls.client.cert_file_paths" :> S("str", "", <<>>)) @@ ("tls.client.auth_type" :> S("str", "NoClientCert", <<>>)) @@
  ("storage.type" :> S("str", "MEMORY", <<>>)) @@ ("storage.uri" :> S("str", "", <<"mongo.uri", "mongodb.uri">>)) @@
  ("storage.connection.retry.enabled" :> S("bool", "true", <<>>)) @@ ("storage.connection.retry.attempts" :> S("int", "10", <<>>)) @@
  ("storage.connection.retry.delay" :> S("dur", "5000", <<>>)) @@ ("mongo.database" :> S("str", "deckard", <<"mongodb.database">>)) @@
  ("mongo.collection" :> S("str", "queue", <<"mongodb.collection">>)) @@
  ("mongo.queue_configuration_collection" :> S("str", "queue_configuration", <<"mongodb.queue_configuration_collection">>))

\* What raw values mean, per type.  BAD: an unparsable duration sets nothing.
BAD == "BAD"
BoolOf == ("true" :> "true") @@ ("1" :> "true") @@ ("T" :> "true") @@ ("TRUE" :> "true") @@ ("true " :> "false") @@
          ("false" :> "false") @@ ("0" :> "false") @@ ("F" :> "false") @@ ("False" :> "false")
DurOf == ("3s" :> "3000") @@ ("1s" :> "1000") @@ ("5s" :> "5000") @@ ("60s" :> "60000") @@ ("1m" :> "60000") @@ ("250ms" :> "250") @@
         ("1h30m" :> "5400000") @@ ("0s" :> "0") @@ ("1.5s" :> "1500")
IntOf == ("7" :> "7") @@ ("0" :> "0") @@ ("-3" :> "-3") @@ ("10" :> "10") @@ ("22022" :> "22022") @@ ("8081" :> "8081") @@ ("4194304" :> "4194304") @@ ("65535" :> "65535")
Parse(type, raw) ==
  CASE type = "bool" -> IF raw \in DOMAIN BoolOf THEN BoolOf[raw] ELSE "false"
    [] type = "int" -> IF raw \in DOMAIN IntOf THEN IntOf[raw] ELSE "0"
    [] type = "dur" -> IF raw \in DOMAIN DurOf THEN DurOf[raw] ELSE BAD
    [] OTHER -> raw

RECURSIVE FirstOf(_, _, _)
FirstOf(p, st, names) ==
  IF names = <<>> THEN st.dflt
  ELSE LET n == Head(names) IN
       IF n \notin DOMAIN p.env THEN FirstOf(p, st, Tail(names))
       ELSE LET v == Parse(st.type, p.env[n]) IN IF v = BAD \/ v = st.dflt THEN FirstOf(p, st, Tail(names)) ELSE v
Resolve(p, key) ==
  LET st == Settings[key] IN
  IF key \in DOMAIN p.ov
  THEN LET v == Parse(st.type, p.ov[key]) IN IF v = BAD THEN st.dflt ELSE v
  ELSE FirstOf(p, st, <<key>> \o st.alias)

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* -------------------------------------------------------------------- names
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN "" ELSE Head(ts) \o Join(Tail(ts))
SepAt(ts) == LET P == {i \in 1..(Len(ts) - 1) : ts[i] = ":" /\ ts[i+1] = ":"} IN IF P = {} THEN 0 ELSE Min(P)
Parts(ts) == LET i == SepAt(ts) IN IF i = 0 THEN <<Join(ts), "">> ELSE <<Join(SubSeq(ts, 1, i - 1)), Join(SubSeq(ts, i + 2, Len(ts)))>>

\* ------------------------------------------------------------------- states
P0 == [env |-> <<>>, ov |-> <<>>, mode |-> "real", vals |-> <<>>]

Trunc(t) == <<t[1], t[2]>>
PPost(p, e) ==
  CASE e.op = "env" -> [p EXCEPT !.env = IF e.raw = "" THEN Without(@, e.name) ELSE (e.name :> e.raw) @@ @]
    [] e.op = "set" -> [p EXCEPT !.ov = (e.name :> e.raw) @@ @]
    [] e.op = "reset" -> [p EXCEPT !.ov = <<>>]
    [] e.op = "clockvals" -> [p EXCEPT !.mode = "vals", !.vals = e.ts]
    [] e.op = "clockfn" -> [p EXCEPT !.mode = "fn", !.vals = <<e.t>>]
    [] e.op = "clockreset" -> [p EXCEPT !.mode = "real", !.vals = <<>>]
    [] e.op \in {"now", "nowms"} -> [p EXCEPT !.vals = IF p.mode = "vals" /\ Len(@) > 1 THEN Tail(@) ELSE @]
    [] OTHER -> p

Label(op) == CASE op \in {"get", "set", "env", "reset", "configure"} -> "C25" [] op = "split" -> "C29" [] OTHER -> "C31"
Expect(p, e) ==
  CASE e.op = "get" -> e.r.v = Resolve(p, e.name)
    [] e.op = "split" -> e.r.parts = Parts(e.toks) /\ e.r.mparts = Parts(e.toks) /\ e.r.prefix = Parts(e.toks)[1]
    [] e.op = "conv" -> /\ e.r.ms = Trunc(e.t) /\ e.r.again = Trunc(e.t)
                        /\ e.r.back = <<e.t[1], e.t[2], 0>> /\ e.r.prec = <<e.t[1], e.t[2], 0>>
    [] e.op = "now" -> IF p.mode = "real" THEN e.r.real ELSE e.r.t = Head(p.vals)
    [] e.op = "nowms" -> IF p.mode = "real" THEN e.r.real ELSE e.r.ms = Trunc(Head(p.vals))
    [] OTHER -> TRUE
Want(p, e) ==
  CASE e.op = "get" -> Resolve(p, e.name)
    [] e.op = "split" -> ToString(Parts(e.toks))
    [] e.op = "now" \/ e.op = "nowms" -> IF p.mode = "real" THEN "real time" ELSE ToString(Head(p.vals))
    [] OTHER -> "-"
PBad(p, e) == IF e.r.err # "" THEN {<<Label(e.op), e.op \o ": " \o e.r.err>>}
              ELSE IF Expect(p, e) THEN {} ELSE {<<Label(e.op), e.op \o " answered " \o ToString(e.r) \o ", expected " \o Want(p, e)>>}
=============================================================================
