------------------------------- MODULE Conn -------------------------------
(* Which clients a server admits: transport security, message size limits, *)
(* connection limits and health.                                           *)
(* Settings v: server certificate and key files, client CA files (lists),  *)
(* client authentication, size limits, connection limits.                  *)
(* Files: "s1", "s2" a certificate or key for that host name, "ca1", "ca2" *)
(* certificate authorities of clients, "gone" no such file, "junk" no PEM. *)
(* Client c: does it use TLS, the host it asks for, the certificate it     *)
(* presents (one issued by ca1 or ca2, self-signed, expired, not meant for *)
(* clients, or none).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT BUG

Auths == {"", "NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"}
Pairs == {<<<<>>, <<>>>>, <<<<"s1">>, <<>>>>, <<<<>>, <<"s1">>>>, <<<<"s1">>, <<"s1">>>>, <<<<"s2">>, <<"s2">>>>, <<<<"s1", "s2">>, <<"s1", "s2">>>>,
          <<<<"s2", "s1">>, <<"s2", "s1">>>>, <<<<"s1">>, <<"s2">>>>, <<<<"s1", "s2">>, <<"s2", "s1">>>>, <<<<"s1", "s2">>, <<"s1">>>>, <<<<"s1">>, <<"s1", "s2">>>>,
          <<<<"gone">>, <<"s1">>>>, <<<<"s1">>, <<"gone">>>>, <<<<"s1", "gone">>, <<"s1", "s1">>>>, <<<<"junk">>, <<"s1">>>>, <<<<"s1", "s2">>, <<"s1", "junk">>>>}
CAs == {<<>>, <<"ca1">>, <<"ca2">>, <<"ca1", "ca2">>, <<"ca2", "ca1">>, <<"gone">>, <<"junk">>, <<"ca1", "junk">>, <<"ca1", "gone">>}
Certs == {"none", "c1", "c2", "self", "old", "srv"}
Servers == {[cert |-> p[1], key |-> p[2], ca |-> a, auth |-> u] : p \in Pairs, a \in CAs, u \in Auths \cup {"Bogus", "noclientcert"}}
Clients == {[tls |-> FALSE, sni |-> "s1", cert |-> "none"]} \cup [tls : {TRUE}, sni : {"s1", "s2", "other"}, cert : Certs]

Tls(v) == v.cert # <<>> /\ v.key # <<>>
IsCert(f) == f \in {"s1", "s2"}
Starts(v) ==
  ~Tls(v) \/ /\ Len(v.cert) = Len(v.key)
             /\ \A i \in DOMAIN v.cert : IsCert(v.cert[i]) /\ v.key[i] = v.cert[i]
             /\ v.auth \in Auths
             /\ \A i \in DOMAIN v.ca : v.ca[i] \in {"ca1", "ca2"}
Shown(v, sni) == LET P == {i \in DOMAIN v.cert : v.cert[i] = sni} IN IF P = {} THEN v.cert[1] ELSE sni
Trusted(v, c) == \E i \in DOMAIN v.ca : c = (IF v.ca[i] = "ca1" THEN "c1" ELSE "c2")
Auth(v, c) ==
  CASE v.auth \in {"", "NoClientCert", "RequestClientCert"} -> TRUE
    [] v.auth = "RequireAnyClientCert" -> c # "none"
    [] v.auth = "VerifyClientCertIfGiven" -> IF BUG = "given" THEN TRUE ELSE c = "none" \/ Trusted(v, c)
    [] v.auth = "RequireAndVerifyClientCert" -> Trusted(v, c)
    [] OTHER -> FALSE
Admits(v, c) ==
  IF ~Tls(v) THEN ~c.tls
  ELSE c.tls /\ Shown(v, c.sni) = c.sni /\ Auth(v, c.cert)

MB == 4194304
\* what a request or answer of k bytes may do
Takes(v, k) == k <= (IF "recv" \in DOMAIN v THEN v.recv ELSE MB)
Gives(v, k) == k <= (IF "send" \in DOMAIN v THEN v.send ELSE MB)
Soon(v, k) == k \in DOMAIN v /\ v[k] <= 1000      \* is a limit due within the seconds a connection is watched
Closes(v, kind) ==      \* does the server end the connection of a client
  CASE kind = "idle" -> Soon(v, "idle") \/ Soon(v, "age")      \* without requests
    [] kind = "mute" -> Soon(v, "ka") /\ Soon(v, "kt")          \* that answers no pings
    [] kind = "hold" -> Soon(v, "age") /\ Soon(v, "grace")      \* with an unfinished request
    [] kind = "busy" -> Soon(v, "age")                          \* that keeps asking
    [] OTHER -> FALSE
Services == {"", "blipai.deckard.Deckard", "grpc.health.v1.Health"}

\* ---------------------------------------------------------------- behaviour
\* run: "down", "up" or "refused"; n: messages stored; who: admitted clients
VARIABLES run, v, n, who
Init == run = "down" /\ v \in Servers /\ n = 0 /\ who = {}
Serve == run = "down" /\ run' = (IF Starts(v) THEN "up" ELSE "refused") /\ UNCHANGED <<v, n, who>>
Ask(c) == run = "up" /\ c \notin who /\ Admits(v, c) /\ n' = n + 1 /\ who' = who \cup {c} /\ UNCHANGED <<run, v>>
Next == Serve \/ (Cardinality(who) < 2 /\ \E c \in Clients : Ask(c))
Spec == Init /\ [][Next]_<<run, v, n, who>>

NoPlaintext == \A c \in who : c.tls = Tls(v)
Authenticated ==
  \A c \in who : Tls(v) => /\ v.auth = "RequireAndVerifyClientCert" => Trusted(v, c.cert)
                           /\ v.auth = "VerifyClientCertIfGiven" => c.cert = "none" \/ Trusted(v, c.cert)
                           /\ v.auth = "RequireAnyClientCert" => c.cert # "none"
                           /\ c.sni \in Range(v.cert)
NothingFromOthers == run # "up" => n = 0
OnlyComplete == run = "up" /\ Tls(v) => Len(v.cert) = Len(v.key) /\ \A f \in Range(v.cert \o v.key \o v.ca) : f \notin {"gone", "junk"}
\* every server with every client, as behaviours to replay
Plan == run = "down" => PrintT("PLAN " \o ToJson(v))
=============================================================================
