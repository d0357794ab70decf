----------------------------- MODULE PureTrace -----------------------------
(* Monitor of recorded histories of Pure. *)
EXTENDS Pure
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, p, bad
Init == t \in 1..Len(Traces) /\ l = 1 /\ p = P0 /\ bad = {}
Next ==
  /\ bad = {} /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l] b == PBad(p, e) IN
     /\ p' = PPost(p, e) /\ bad' = b /\ l' = l + 1 /\ t' = t
     /\ IF b # {} \/ l = Len(Traces[t].ev)
        THEN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> "-", at |-> l, bad |-> b, amb |-> FALSE, n |-> Len(Traces[t].ev), op |-> e.op]))
        ELSE TRUE
Spec == Init /\ [][Next]_<<t, l, p, bad>>
=============================================================================
