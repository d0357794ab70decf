------------------------------- MODULE Agree -------------------------------
(* Compares recordings of one behaviour on several engine combinations,   *)
(* step by step, up to what the specification leaves open: the order of   *)
(* equal scores and, from a pull whose choice among equal priorities is   *)
(* open, everything that follows.                                         *)
EXTENDS Judge, Json, IOUtils

Groups == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, bad
N(i) == Len(Groups[i].evs[1])
Init == t \in 1..Len(Groups) /\ l = 1 /\ s = Init0 /\ bad = {}

\* messages of a pull: the same sets of messages for each score
ByScore(ms) == {<<x, {ms[i] : i \in {j \in DOMAIN ms : ms[j].score = x}}>> : x \in {ms[i].score : i \in DOMAIN ms}}
Canon(e) ==
  CASE e.op = "pull" -> <<e.r.err, Len(e.r.msgs), ByScore(e.r.msgs)>>
    [] e.op = "metrics" -> <<Range(e.r.tot), Range(e.r.old)>>
    [] e.op = "wdrain" -> <<e.r.err, DrainPairs(e), DrainLen(e)>>
    [] e.op = "lists" -> <<e.r.err, Range(e.r.names), Range(e.r.prefixes), e.r.pools>>
    [] e.op = "flush" -> <<>>
    [] OTHER -> <<e.r>>
After2(h, e) == IF h.snap # 0 THEN <<>> ELSE <<Range(e.snap), Len(e.snap), Range(e.proc)>>

\* would another choice have been legal?
Tie(e, st) ==
  /\ e.op = "pull" /\ e.r.err = ""
  /\ LET R == Range(RespKeys(e)) lo == MinBound(e.min) hi == MaxBound(st.now, e)
     IN \/ \E k \in {x \in Avail(st, e.q) : MayMatch(st, x, lo, hi)} \ R : \E d \in R \cap DOMAIN st.pool : ~Better(st, d, k)
        \/ \E k \in Avail(st, e.q) : k \notin DOMAIN st.store
Open(st) == \E k \in DOMAIN st.pool : Cardinality(st.pool[k].score) > 1

Next ==
  /\ bad = {} /\ l <= N(t)
  /\ LET G == Groups[t]
         e == G.evs[1][l]
         st == Step(G.hdr, s, e)
         one == CHOOSE x \in st : TRUE
         odd == {j \in 2..Len(G.evs) : Canon(G.evs[j][l]) # Canon(e) \/ After2(G.hdr, G.evs[j][l]) # After2(G.hdr, e)}
         b == IF Tie(e, s) THEN {} ELSE {<<"C19", e.op \o ": " \o G.combos[j] \o " differs from " \o G.combos[1] \o ": " \o
                 (IF Canon(G.evs[j][l]) # Canon(e) THEN "response " \o ToString(G.evs[j][l].r) \o " / " \o ToString(e.r) ELSE "contents")>> : j \in odd}
         stop == one.bad \cup one.per # {} \/ Cardinality(st) > 1 \/ Tie(e, s) \/ Open(one.t)
     IN /\ s' = one.t /\ bad' = b /\ t' = t
        /\ l' = IF stop THEN N(t) + 1 ELSE l + 1
        /\ IF b # {} \/ stop \/ l = N(t)
           THEN PrintT("VERDICT " \o ToJson([id |-> G.id, combo |-> "all", at |-> l, bad |-> b, amb |-> stop, n |-> N(t), op |-> e.op]))
           ELSE TRUE
Spec == Init /\ [][Next]_<<t, l, s, bad>>
=============================================================================
