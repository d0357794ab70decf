----------------------------- MODULE PageTrace -----------------------------
(* Monitor of recorded processes with a metrics page: start, the requests, *)
(* and page (want: "text", "om" an OpenMetrics answer, "other" a path which *)
(* is not the configured one).                                             *)
EXTENDS Page
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, w, bad
D(b, what) == IF b THEN {<<"C36", what>>} ELSE {}
Val(r, name, q, reason) == LET M == {i \in DOMAIN r.vals : r.vals[i].name = name /\ r.vals[i].queue = q /\ r.vals[i].reason = reason} IN IF M = {} THEN 0 ELSE r.vals[CHOOSE i \in M : TRUE].n
PageBad(x, ver, e, st) ==
  LET r == e.r IN
  IF ~Shown(x) THEN D(r.served, "a page although there must be none")
  ELSE IF ~r.served THEN D(TRUE, "no page")
  ELSE IF e.want = "other" THEN D(r.code # 404, "a page at a path that is not the configured one")
  ELSE IF r.code # 200 THEN D(TRUE, "no page at the configured path")
  ELSE IF e.want = "om" THEN D((r.type = "application/openmetrics-text") # x.om, "OpenMetrics offered against the settings")
  ELSE IF ~r.parsed THEN D(TRUE, "a page that cannot be parsed")
  ELSE D(\E i \in DOMAIN r.labels : Range(r.labels[i]) # Labels(x, ver) \/ Len(r.labels[i]) # Cardinality(Labels(x, ver)), "labels of the series: " \o ToString(r.labels))
       \cup D(Len(r.target) # 1, "labels added to the description of the target")
       \cup D(r.rpc, "durations of calls shown")
       \cup D(Range(r.buckets) \notin SUBSET {Buckets(x), Buckets(x) \o <<"+Inf">>}, "boundaries of histograms: " \o ToString(r.buckets))
       \cup UNION {D(Val(r, "deckard_total_messages", q, "") # st.total[q], "messages shown for a queue") \cup D(Val(r, "deckard_messages_empty_queue_total", q, "") # st.empty[q], "empty pulls shown for a queue") : q \in Queues}
       \cup UNION {D(Val(r, "deckard_ack_total", y[1], y[2]) # st.ack[y], "acks shown for a queue") \cup D(Val(r, "deckard_nack_total", y[1], y[2]) # st.nack[y], "nacks shown for a queue") : y \in Queues \X Reasons}
TInit == t \in 1..Len(Traces) /\ l = 1 /\ w = S0 /\ bad = {} /\ v = <<>> /\ s = <<>> /\ hist = <<>>
TNext ==
  /\ bad = {} /\ l <= Len(Traces[t].ev) /\ UNCHANGED <<v, s, hist>>
  /\ LET x == Traces[t].v e == Traces[t].ev[l]
         b == CASE e.k = "start" -> D(~e.up, "the server does not start")
                [] e.k = "page" -> PageBad(x, Traces[t].ver, e, w)
                [] OTHER -> D("failed" \in DOMAIN e, "a request fails")
     IN /\ w' = (IF e.k \in {"start", "page", "settle"} THEN w ELSE Apply(w, e))
        /\ bad' = b /\ l' = l + 1 /\ t' = t
        /\ IF b # {} \/ l = Len(Traces[t].ev)
           THEN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> "-", at |-> l, bad |-> b, amb |-> FALSE, n |-> Len(Traces[t].ev), op |-> e.k]))
           ELSE TRUE
TSpec == TInit /\ [][TNext]_<<t, l, w, bad, v, s, hist>>
=============================================================================
