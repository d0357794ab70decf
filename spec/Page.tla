------------------------------- MODULE Page -------------------------------
(* The metrics page of a server process.                                  *)
(* Settings v: enabled, path ("" the default), om (OpenMetrics offered),   *)
(* attrs the resource attributes (parts of the name, then the value; one   *)
(* element: an item which is no attribute), name the service name, set and *)
(* buckets the boundaries of histograms as given, busy: is the port taken. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT BUG

Attrs == {<<>>, <<<<"team", "a">>>>, <<<<"service", "version", "9.1">>>>, <<<<"deployment", "environment", "prod">>, <<"team", "b">>>>, <<<<"team", "a">>, <<"junk">>, <<"zone", "1">>>>,
          <<<<"service", "name", "n1">>>>, <<<<"service", "version", "2">>, <<"service", "name", "n2">>>>, <<<<"junk">>>>, <<<<"a", "b", "c", "x.y">>>>}
Names == {"", "shop"}
Default == <<"0", "1", "2", "5", "10", "15", "20", "30", "35", "50", "100", "200", "400", "600", "800", "1000", "1500", "2000", "5000", "10000">>
\* a boundary as it is written, and the number it means ("-": none)
Number == [x \in {"1", " 2.5", "2e1", "50 ", "1000", "x", "", "7a"} |->
             CASE x = "1" -> "1" [] x = " 2.5" -> "2.5" [] x = "2e1" -> "20" [] x = "50 " -> "50" [] x = "1000" -> "1000" [] OTHER -> "-"]
Lists == {<<"1">>, <<"1", " 2.5", "2e1">>, <<"50 ", "1000">>, <<"1", "x">>, <<"x">>, <<"1", "">>, <<"">>, <<"1", "7a", "1000">>}
V0 == [enabled |-> TRUE, path |-> "", om |-> TRUE, attrs |-> <<>>, name |-> "", set |-> FALSE, buckets |-> <<>>, busy |-> FALSE]
Servers ==
  {[V0 EXCEPT !.attrs = a, !.name = n] : a \in Attrs, n \in Names}
  \cup {[V0 EXCEPT !.set = TRUE, !.buckets = b] : b \in Lists}
  \cup {[V0 EXCEPT !.enabled = e, !.path = p, !.om = o, !.busy = y] : e, o, y \in BOOLEAN, p \in {"", "/m", "/a/b"}}

Given(v, parts) == {i \in DOMAIN v.attrs : Len(v.attrs[i]) > 1 /\ SubSeq(v.attrs[i], 1, Len(v.attrs[i]) - 1) = parts}
RECURSIVE Under(_)
Under(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "_" \o Under(Tail(p))
\* what every series carries: the resource attributes, version and name of the service, each once
Labels(v, ver) ==
  {<<Under(SubSeq(v.attrs[i], 1, Len(v.attrs[i]) - 1)), Last(v.attrs[i])>> : i \in {j \in DOMAIN v.attrs : Len(v.attrs[j]) > 1 /\ j \notin Given(v, <<"service", "name">>)}}
  \cup (IF Given(v, <<"service", "version">>) = {} THEN {<<"service_version", ver>>} ELSE {})
  \cup {<<"service_name", IF v.name # "" THEN v.name
                          ELSE IF Given(v, <<"service", "name">>) # {} THEN Last(v.attrs[CHOOSE i \in Given(v, <<"service", "name">>) : TRUE])
                          ELSE "deckard">>}
Buckets(v) == IF ~v.set \/ v.buckets = <<"">> \/ \E i \in DOMAIN v.buckets : Number[v.buckets[i]] = "-" THEN Default
              ELSE [i \in DOMAIN v.buckets |-> Number[v.buckets[i]]]
Shown(v) == v.enabled /\ ~v.busy

\* ---------------------------------------------------------------- what the page counts
Queues == {"q1", "q2"}
Reasons == {"r1", "r2"}
S0 == [total |-> [q \in Queues |-> 0], avail |-> [q \in Queues |-> 0], ack |-> [x \in Queues \X Reasons |-> 0], nack |-> [x \in Queues \X Reasons |-> 0], empty |-> [q \in Queues |-> 0]]
Apply(s, o) ==
  LET q == o.q IN
  CASE o.k = "add" -> [s EXCEPT !.total[q] = @ + o.n, !.avail[q] = @ + o.n]
    [] o.k \in {"pull", "ack", "nack"} /\ s.avail[q] = 0 -> [s EXCEPT !.empty[q] = @ + 1]
    [] o.k = "pull" -> [s EXCEPT !.avail[q] = @ - 1]
    [] o.k = "ack" -> [s EXCEPT !.ack[<<q, o.reason>>] = @ + 1]
    [] o.k = "nack" -> [s EXCEPT !.nack[<<q, o.reason>>] = @ + 1]
    [] OTHER -> s
Ops == [k : {"add"}, q : Queues, n : {1, 3}] \cup [k : {"pull"}, q : Queues] \cup [k : {"ack", "nack"}, q : Queues, reason : Reasons]
VARIABLES v, s, hist
Init == v \in Servers /\ s = S0 /\ hist = <<>>
Next == v = V0 /\ Len(hist) < 3 /\ \E o \in Ops : s' = Apply(s, o) /\ hist' = Append(hist, o) /\ v' = v
Spec == Init /\ [][Next]_<<v, s, hist>>
Within == \A q \in Queues : s.avail[q] <= s.total[q] /\ s.avail[q] >= 0
Once == \A x, y \in Labels(v, "1") : x[1] = y[1] => x = y          \* no label twice
Rising == Len(Buckets(v)) > 0
Plan == IF hist = <<>> THEN PrintT("PLAN " \o ToJson([v |-> v])) ELSE Len(hist) = 3 => PrintT("PLAN " \o ToJson([hist |-> hist]))
=============================================================================
