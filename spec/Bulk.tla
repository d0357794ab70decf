------------------------------- MODULE Bulk -------------------------------
(* Many messages: the same server as DeckardCore, abstracted to numbers.  *)
(* A batch is a number of messages of one queue with the same history:    *)
(* they are interchangeable.  Whatever happens to some messages of a      *)
(* batch makes them a batch of their own.  Which batches are affected is  *)
(* observed, how many and which may be is specified.  Reaches the sizes   *)
(* at which engines and tasks split their work.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Amount(n) == IF n <= 0 THEN 1 ELSE Min2(n, 1000)
\* queue "c" stands for many queues with a message each
Many == "c"
RUN == 1000          \* a timeout or unlock run handles at least so many per queue (and lock)
TTLRUN == 10000      \* a run of the expiration at least so many
PAGE == 4000         \* of the recovery

\* g: the group it was added as; csc, ssc: priority in the queue, stored score
Batch(q, g, n, sc, exp) == [q |-> q, g |-> g, st |-> "A", csc |-> sc, ssc |-> sc, due |-> 0, exp |-> exp, n |-> n]
B0 == [now |-> 0, cells |-> <<>>, max |-> <<>>, rec |-> "done"]

\* x: batch -> number affected; e: name of the step
Some(x) == {b \in DOMAIN x : x[b] > 0}
Take(s, x) == [s EXCEPT !.cells = [b \in {c \in DOMAIN @ : c \notin Some(x) \/ x[c] < @[c].n} |-> IF b \in Some(x) THEN [@[b] EXCEPT !.n = @ - x[b]] ELSE @[b]]]
Part(b, e) == b \o "." \o e
Shift(s, x, e, D(_)) ==
  LET new == [y \in {Part(b, e) : b \in Some(x)} |-> LET b == CHOOSE c \in Some(x) : Part(c, e) = y IN [D(s.cells[b]) EXCEPT !.n = x[b]]]
  IN [s EXCEPT !.cells = new @@ Take(s, x).cells]
Sum(s, B) == FoldSet(LAMBDA b, n : n + s.cells[b].n, 0, B)
All(s, B) == [b \in B |-> s.cells[b].n]
Where(s, P(_)) == {b \in DOMAIN s.cells : P(s.cells[b])}
SumObs(x) == FoldSet(LAMBDA b, n : n + x[b], 0, DOMAIN x)

\* n of the batches B, those with the lowest key first
Spread(s, B, K(_), n) ==
  FoldLeft(LAMBDA a, b : [left |-> a.left - Min2(a.left, s.cells[b].n), x |-> (b :> Min2(a.left, s.cells[b].n)) @@ a.x],
           [left |-> n, x |-> <<>>], SetToSortSeq(B, LAMBDA x, y : K(s.cells[x]) < K(s.cells[y]))).x
\* something else, or more than there was
Beyond(s, B, x) == \E b \in Some(x) : b \notin B \/ x[b] > s.cells[b].n
InOrder(s, B, x, K(_)) == \A b \in Some(x), d \in B : (IF d \in DOMAIN x THEN x[d] ELSE 0) < s.cells[d].n => K(s.cells[b]) <= K(s.cells[d])

Avail(s, q) == Where(s, LAMBDA c : c.q = q /\ c.st = "A")
Score(c) == c.csc
Due(c) == c.due
Exp(c) == c.exp
InFlight(s, q, g) == Where(s, LAMBDA c : c.q = q /\ c.g = g /\ c.st = "P")
DueIn(s, q, st) == Where(s, LAMBDA c : c.q = q /\ c.st = st /\ c.due <= s.now)
Expired(s) == Where(s, LAMBDA c : c.exp <= s.now)
InQueue(s, q) == Where(s, LAMBDA c : c.q = q)
OfGroup(s, q, g) == Where(s, LAMBDA c : c.q = q /\ c.g = g)
Lost(s) == Where(s, LAMBDA c : c.st = "N")
AtLeast(q, n) == IF q = Many THEN n ELSE Min2(RUN, n)
QueuesOf(s, st) == LET B == {b \in DOMAIN s.cells : s.cells[b].st \in st} IN
  Cardinality({s.cells[b].q : b \in B} \ {Many}) + Sum(s, {b \in B : s.cells[b].q = Many})
Queues(s) == {s.cells[b].q : b \in DOMAIN s.cells}
Over(s, q) == IF s.rec = "run" \/ q \notin DOMAIN s.max THEN 0 ELSE IF s.max[q] <= 0 THEN 0 ELSE Max2(0, Sum(s, InQueue(s, q)) - s.max[q])

Leased(s, x, e, dl) == Shift(s, x, e, LAMBDA c : [c EXCEPT !.st = "P", !.due = s.now + dl, !.csc = 0])
Acked(s, x, e, o) == Shift(s, x, e, LAMBDA c : IF o.lock > 0 THEN [c EXCEPT !.st = IF o.op = "ack" THEN "KA" ELSE "KN", !.csc = o.sc, !.ssc = o.sc, !.due = s.now + o.lock]
                                               ELSE [c EXCEPT !.st = "A", !.csc = o.sc, !.ssc = o.sc, !.due = 0])
Returned(s, x, e) == Shift(s, x, e, LAMBDA c : [c EXCEPT !.st = "A", !.csc = 0, !.due = 0])
Unlocked(s, x, e) == Shift(s, x, e, LAMBDA c : [c EXCEPT !.st = "A", !.due = 0])
Recovered(s, x, e) == Shift(s, x, e, LAMBDA c : [c EXCEPT !.st = "A", !.csc = c.ssc, !.due = 0])
Forget(s) == [s EXCEPT !.cells = [b \in DOMAIN @ |-> [@[b] EXCEPT !.st = "N", !.csc = 0, !.due = 0]], !.rec = "lost"]
RecAfter(s, n) == IF s.rec = "done" THEN s ELSE [s EXCEPT !.rec = IF n < PAGE THEN "done" ELSE "run"]
=============================================================================
