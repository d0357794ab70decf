----------------------------- MODULE LifeTrace -----------------------------
(* Checks recorded lives of server processes. *)
EXTENDS LifeMon, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Judge(x) == MonEnd(FoldLeft(LAMBDA m, e : Mon(m, e, x.c), MonInit, x.ev), x.fin, x.c)
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ t' = t
        /\ LET m == Judge(Traces[t]) IN
           PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, combo |-> "-", at |-> Len(Traces[t].ev), bad |-> m.why, amb |-> m.skip, n |-> Len(Traces[t].ev), op |-> m.ph]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
