------------------------------ MODULE Deckard ------------------------------
(* Design model: clients and housekeeper tasks of any number of server    *)
(* instances working on the same backends, interleaved at every backend   *)
(* call, with failing calls, crashes of requests and loss of the cache.   *)
(* TLC checks on it that the steps (Steps) add up to the guarantees:      *)
(*   Solo       a request running alone does what DeckardCore says        *)
(*   Kept       no message that must be there is missing, none that must  *)
(*              be gone is there                                          *)
(*   OneLease   no message is delivered while its delivery is outstanding *)
(*   Heals      from every state the system can be in, once requests have *)
(*              ended, recovery, unlock and timeout runs make every       *)
(*              stored message available, end the recovery, and pulls     *)
(*              drop every stale entry                                    *)
(*   Paused     nothing is deleted by a run begun during recovery         *)
(*   Ranged     every score is in range                                   *)
EXTENDS Steps, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.DCFG)
H == Cfg.hdr
Ops == Cfg.ops                 \* what clients and tasks may start
Starts == Cfg.starts           \* sequences of operations done first
N == Cfg.procs
SmallPage == 2                 \* replaces PAGE

VARIABLES s, P, left, fb, g
vars == <<s, P, left, fb, g>>

Idle == <<>>
Active == {i \in 1..N : P[i] # Idle}
Quiet == Active = {}

RECURSIVE Walk(_, _)
Walk(st, es) == IF es = <<>> THEN st
                ELSE Walk(IF Head(es).op = "pull" THEN PullPost(H, st, Head(es), CHOOSE D \in LegalChoices(st, Head(es)) : TRUE) ELSE Post(H, st, Head(es)), Tail(es))

\* ghosts: present (must be stored), absent (must not), held: outstanding deliveries,
\* clean: no failure or cache loss so far; twice, early: a guarantee was broken
Init == /\ \E i \in DOMAIN Starts : s = Walk(Init0, Starts[i])
        /\ P = [i \in 1..N |-> Idle]
        /\ left = Cfg.depth
        /\ fb = Cfg.faults
        /\ g = [present |-> DOMAIN s.store, absent |-> {}, held |-> {k \in DOMAIN s.pool : s.pool[k].st = "P"},
                clean |-> TRUE, queued |-> DOMAIN s.store \cap DOMAIN s.pool, twice |-> FALSE, early |-> FALSE]

AddsOf(e) == IF e.op = "add" /\ ValidAdd(e) THEN AddKeys(e) ELSE {}
AllKeys == UNION {AddKeys(Ops[i]) : i \in {j \in DOMAIN Ops : Ops[j].op = "add"}} \cup DOMAIN s.store \cup DOMAIN s.pool
TakesOf(e) == CASE e.op = "remove" -> {<<e.q, i>> : i \in Range(e.ids)}
                [] e.op \in {"ack", "nack"} -> IF e.rm THEN {<<e.q, e.id>>} ELSE {}
                [] e.op \in {"ttl", "max"} -> AllKeys
                [] e.op = "pull" -> {k \in DOMAIN s.pool : k[1] = e.q} \ DOMAIN s.store
                [] OTHER -> {}
\* keys for which an add and a removal overlap: nothing is promised
Takes(p) == TakesOf(p.e) \cup (IF p.e.op = "pull" THEN p.x.D ELSE {})
Clash(e) == UNION {(AddsOf(e) \cap Takes(P[j])) \cup (TakesOf(e) \cap AddsOf(P[j].e)) : j \in Active}

Begin(i) ==
  /\ P[i] = Idle /\ left > 0
  /\ \A j \in 1..(i - 1) : P[j] # Idle                        \* processes are interchangeable
  /\ \E n \in DOMAIN Ops :
       LET e == Ops[n] c == Clash(e) IN
       /\ P' = [j \in 1..N |-> IF j = i THEN Proc(e) @@ [free |-> c, rec |-> s.rec.run]
                                ELSE IF P[j] = Idle THEN Idle ELSE [P[j] EXCEPT !.free = @ \cup c]]
       /\ left' = left - 1
       /\ g' = [g EXCEPT !.present = @ \ (c \cup TakesOf(e)), !.absent = @ \ AddsOf(e), !.queued = @ \ (c \cup TakesOf(e))]
       /\ UNCHANGED <<s, fb>>

\* what the end of a request promises
Ended(gg, t, p) ==
  LET e == p.e
      others == {j \in Active : P[j].e # e}
      busy == UNION {Takes(P[j]) : j \in others}
      adding == UNION {AddsOf(P[j].e) : j \in others}
  IN IF p.flt THEN gg
     ELSE CASE e.op = "add" /\ p.r.err = "" -> [gg EXCEPT !.present = @ \cup (AddsOf(e) \ (p.free \cup busy)), !.queued = @ \cup (AddsOf(e) \ (p.free \cup busy))]
            [] e.op = "remove" \/ (e.op \in {"ack", "nack"} /\ e.rm) -> [gg EXCEPT !.absent = @ \cup (TakesOf(e) \ (p.free \cup adding))]
            [] OTHER -> gg

Advance(gg, t, p, q) ==
  LET took == IF p.pc = "l1" THEN {k \in DOMAIN t.pool : t.pool[k].st = "P" /\ (k \notin DOMAIN s.pool \/ s.pool[k].st # "P")} ELSE {}
      dropped == IF p.pc \in {"x3", "m5"} THEN DOMAIN s.store \ DOMAIN t.store ELSE {}
      back == {k \in gg.held : k \notin DOMAIN t.pool \/ t.pool[k].st # "P"}
      g1 == [gg EXCEPT !.twice = @ \/ (took \cap gg.held) # {}, !.held = (@ \ back) \cup took, !.early = @ \/ (dropped # {} /\ p.rec)]
  IN IF Done(q) THEN Ended(g1, t, q) ELSE g1

Strip(p) == IF Done(p) THEN Idle ELSE p
CallOf(i) == {<<o[1], [P[i] EXCEPT !.pc = o[2].pc, !.x = o[2].x, !.r = o[2].r]>> : o \in Call(H, s, P[i])}
Work(i) == /\ P[i] # Idle
           /\ \E o \in CallOf(i) : /\ s' = o[1]
                                   /\ P' = [P EXCEPT ![i] = Strip([o[2] EXCEPT !.rec = @ /\ s.rec.run])]
                                   /\ g' = Advance(g, o[1], P[i], o[2])
           /\ UNCHANGED <<left, fb>>
Fail(i) == /\ P[i] # Idle /\ fb > 0 /\ fb' = fb - 1
           /\ \E o \in CallFails(H, s, P[i]) :
                LET q == [P[i] EXCEPT !.pc = o[2].pc, !.x = o[2].x, !.r = o[2].r, !.flt = TRUE]
                    h == Advance(g, o[1], P[i], q)
                IN /\ s' = o[1]
                   /\ P' = [P EXCEPT ![i] = Strip([q EXCEPT !.rec = @ /\ s.rec.run])]
                   /\ g' = [h EXCEPT !.clean = FALSE]
           /\ UNCHANGED left
Crash(i) == /\ P[i] # Idle /\ fb > 0 /\ fb' = fb - 1
            /\ P' = [P EXCEPT ![i] = Idle]
            /\ g' = [g EXCEPT !.clean = FALSE]
            /\ UNCHANGED <<s, left>>
Lose == /\ Cfg.lose /\ fb > 0 /\ fb' = fb - 1
        /\ s' = [s EXCEPT !.pool = EmptyFn, !.rec = Init0.rec]
        /\ \A i \in Active : P[i].e.op # "recover"               \* a loss during recovery's last calls goes unnoticed
        /\ g' = [g EXCEPT !.clean = FALSE, !.held = {}, !.queued = {}]
        /\ P' = [i \in 1..N |-> IF P[i] = Idle THEN Idle ELSE [P[i] EXCEPT !.free = @ \cup AddsOf(P[i].e)]]
        /\ UNCHANGED left
Tick == /\ s.now < Cfg.maxnow
        /\ s' = [s EXCEPT !.now = @ + 1]
        /\ UNCHANGED <<P, left, fb, g>>

Next == (\E i \in 1..N : Begin(i) \/ Work(i) \/ Fail(i) \/ Crash(i)) \/ Lose \/ Tick
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- guarantees
Sees(t) == {k \in DOMAIN t.pool : t.pool[k].st = "A"} \cap DOMAIN t.store
SoloOf(e) == {c[1] : c \in ParOutcomes(H, s, <<e>>)}
PostsOf(e) == IF e.op = "pull" THEN {PullPost(H, s, e, D) : D \in LegalChoices(s, e)} ELSE {Post(H, s, e)}
Solo == Quiet => \A i \in DOMAIN Ops : SoloOf(Ops[i]) = PostsOf(Ops[i])

Kept == /\ g.present \subseteq DOMAIN s.store
        /\ (g.clean /\ s.rec = Init0.rec) => g.queued \subseteq DOMAIN s.pool
        /\ Quiet => g.absent \cap DOMAIN s.store = {}
        /\ (Quiet /\ g.clean /\ s.rec = Init0.rec) => g.absent \cap DOMAIN s.pool = {}
OneLease == ~g.twice
Paused == ~g.early
Ranged == /\ \A k \in DOMAIN s.pool : \A x \in s.pool[k].score : InRange(x)
          /\ \A k \in DOMAIN s.store : InRange(s.store[k].score)

RECURSIVE Recover(_, _)
Recover(t, n) == IF n = 0 THEN t ELSE Recover(RecoverPost(t), n - 1)
RECURSIVE Sweep(_, _)
Sweep(t, qs) == IF qs = {} THEN t
                ELSE LET q == CHOOSE x \in qs : TRUE IN Sweep(PullPost(H, t, [q |-> q, dl |-> 1], Avail(t, q)), qs \ {q})
Heals == Quiet =>
  LET r == Recover(s, 3 + Cardinality(DOMAIN s.store))
      late == [r EXCEPT !.now = @ + 1000]
      free == TimeoutPost(UnlockPost(late))
      swept == Sweep(free, {k[1] : k \in DOMAIN free.pool})
  IN /\ r.rec.done /\ ~r.rec.run
     /\ DOMAIN r.store = DOMAIN s.store
     /\ \A k \in DOMAIN free.pool : free.pool[k].st = "A"
     /\ (~s.rec.done /\ s.rec.lo = 0 /\ s.rec.hi = 0) => DOMAIN s.store \subseteq DOMAIN free.pool      \* a recovery from the start reaches everything
     /\ g.queued \subseteq DOMAIN free.pool
     /\ g.absent \cap Sees(free) = {}
     /\ DOMAIN swept.pool \subseteq DOMAIN swept.store
=============================================================================
