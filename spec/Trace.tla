------------------------------ MODULE Trace ------------------------------
(* Monitor: validates recorded executions.  Every initial state is one    *)
(* execution; each step consumes one event, the last one reports.         *)
(* S holds the states the specification may be in (more than one after an *)
(* open choice, concurrent operations, a failure or a crash); an event is *)
(* accepted if it agrees with one of them.                                *)
(* With a property given, an execution is followed until an event         *)
(* contradicts that property; discrepancies of other properties are       *)
(* noted.  Without one, the first discrepancy ends it.                    *)
EXTENDS Judge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
MAXCAND == 60

VARIABLES t, l, S, bad, seen, oth

Hdr(i) == Traces[i].hdr
N(i) == Len(Traces[i].ev)

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ S = {Init0}
        /\ bad = {}
        /\ seen = {}
        /\ oth = <<>>

Mine(b) == IF Prop = "" THEN b ELSE {x \in b : x[1] = Prop}

\* Redis Cluster: an operation on one queue names keys of one slot, always the same for that queue
SlotsOf(e) == IF "slots" \in DOMAIN e THEN Range(e.slots) ELSE {}
SlotBad(i, pos) ==
  LET e == Traces[i].ev[pos] qs == OpQueues(e)
      earlier == {j \in 1..(pos - 1) : OpQueues(Traces[i].ev[j]) = qs /\ SlotsOf(Traces[i].ev[j]) # {}}
      before == IF earlier = {} THEN {} ELSE SlotsOf(Traces[i].ev[Max(earlier)])
  IN IF Cardinality(qs) # 1 THEN {} ELSE When(Cardinality(SlotsOf(e) \cup before) > 1, {"C30"}, "keys of one queue in several hash slots")

Report(i, pos, b, amb, o) ==
  PrintT("VERDICT " \o ToJson([id |-> Traces[i].id, combo |-> Traces[i].combo, at |-> pos, bad |-> b,
                               amb |-> amb, n |-> N(i), op |-> IF pos <= N(i) THEN Traces[i].ev[pos].op ELSE "-", oth |-> o]))

Next ==
  /\ bad = {} /\ l <= N(t)
  /\ LET e == Traces[t].ev[l]
         h == Hdr(t)
         R == UNION {Step(h, c, e) : c \in S}
         sl == SlotBad(t, l)
         of(r) == sl \cup r.bad \cup {x \in r.per : x[2] \notin seen}
         good == {r \in R : of(r) = {}}
         fewest == Min({Cardinality(of(r)) : r \in R})
         best == IF good # {} THEN good ELSE {CHOOSE r \in R : Cardinality(of(r)) = fewest}
         some == IF good # {} THEN {} ELSE UNION {of(r) : r \in {y \in R : Cardinality(of(y)) <= fewest + 1}}
         conc == h.any \/ \E i \in 1..l : Traces[t].ev[i].op \in {"par", "flt"}
         all == IF conc THEN some \cup (Range(h.lab) \X {x[2] : x \in some}) ELSE some
         b == IF Mine(all) = {} THEN {} ELSE all
         o == IF oth = <<>> /\ all # {} THEN <<[at |-> l, op |-> e.op, bad |-> all]>> ELSE oth
         S2 == {r.t : r \in best}
         amb == Cardinality(S2) > MAXCAND
     IN /\ S' = S2
        /\ bad' = b
        /\ l' = IF amb THEN N(t) + 1 ELSE l + 1
        /\ t' = t
        /\ seen' = IF good # {} THEN seen ELSE seen \cup UNION {{x[2] : x \in r.per} : r \in best}
        /\ oth' = o
        /\ IF b # {} \/ amb \/ l = N(t) THEN Report(t, l, b, amb, o) ELSE TRUE

Spec == Init /\ [][Next]_<<t, l, S, bad, seen, oth>>
=============================================================================
