----------------------------- MODULE AuditTrace -----------------------------
(* Checks recorded executions of the audit buffer. *)
EXTENDS AuditMon, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ t' = t
        /\ LET x == Traces[t]
               m == FoldLeft(LAMBDA a, e : AMon(a, e), AMonInit({x.c[i] : i \in 1..Len(x.c)}), x.ev)
           IN PrintT("VERDICT " \o ToJson([id |-> x.id, combo |-> "-", at |-> Len(x.ev), bad |-> m.why, amb |-> FALSE, n |-> Len(x.ev), op |-> "audit"]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
