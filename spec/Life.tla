------------------------------- MODULE Life -------------------------------
(* One server process: its periodic tasks, requests, audit sender and graceful shutdown, against   *)
(* an environment that keeps backend calls waiting, makes them fail and signals the process.       *)
(* The observable part of every step is fed to the monitor of LifeMon.                             *)
EXTENDS LifeMon, Json, IOUtils

CONSTANTS EAGER, BUG
Cfg == JsonDeserialize(IOEnv.LCFG)            \* [sets: sets of holds, fails, nosig, delay]
Rng(x) == {x[i] : i \in DOMAIN x}

VARIABLES s, m, hist
vars == <<s, m, hist>>

\* the backend commands of one run, as <<kind, queue>>
Points(t) ==
  CASE t = "unlock"   -> <<<<"scan", "">>, <<"script", "u0">>, <<"scan2", "">>, <<"script", "u1">>, <<"script", "u2">>>>
    [] t = "timeout"  -> <<<<"scan", "">>, <<"script", "o0">>, <<"script", "o1">>>>
    [] t = "metrics"  -> <<<<"distinct", "">>, <<"oldest", "m0">>, <<"count", "m0">>, <<"oldest", "m1">>, <<"count", "m1">>>>
    [] t = "recovery" -> <<<<"get", "">>, <<"run", "">>, <<"last", "">>, <<"set", "">>, <<"getbp", "">>, <<"page", "">>, <<"script", "v0">>, <<"set", "">>>>
    [] t = "ttl"      -> <<<<"find", "">>, <<"delete", "t0">>, <<"delete", "t1">>>>
    [] t = "max"      -> <<<<"find", "">>, <<"count", "x0">>, <<"ids", "x0">>, <<"delete", "x0">>, <<"count", "x1">>>>
ReqPoints == <<<<"storage", "r">>, <<"cache", "r">>>>
Crit == {"recovery"}
Locked == IF BUG = "nolock" THEN {"recovery", "max"} ELSE Excl
C0 == [delay |-> [t \in Tasks |-> 0], full |-> 3, plain |-> TRUE, qv |-> 0]
CONSTANT TASKS

Cmd(t, p, first, held) == [k |-> "cmd", t |-> t, kind |-> p[1], q |-> p[2], first |-> first, held |-> held, ms |-> 0, fail |-> FALSE]
Matches(h, t, kind) == h = <<t, kind>>
Armed(st, t, kind) == \E h \in st.armed : Matches(h, t, kind)

Init ==
  \E H \in Rng(Cfg.sets) :
    LET hs == Rng(H)
    IN /\ s = [armed |-> {h \in hs : TRUE}, want |-> hs, held |-> {},
               t |-> [x \in TASKS |-> "wait"], pos |-> [x \in TASKS |-> 0], wg |-> {},
               lock |-> "none", sig |-> FALSE, started |-> FALSE, ph |-> "serve",
               req |-> IF \E h \in hs : h[1] = "req" THEN "new" ELSE "none", rpos |-> 0, buf |-> 0, n |-> [x \in TASKS |-> 0], aw |-> {}]
       /\ m = [MonInit EXCEPT !.ph = "up"]
       /\ hist = <<>>

Feed(e) == m' = Mon(m, e, C0)
Quiet == UNCHANGED m
Env == UNCHANGED hist

Gate == IF BUG = "nogate" THEN TRUE ELSE ~s.started
Wake(t) == /\ s.t[t] = "wait" /\ Gate /\ s.n[t] < Cfg.runs
           /\ s' = [s EXCEPT !.t[t] = "add", !.wg = @ \cup {t}, !.n[t] = @ + 1] /\ Quiet /\ Env
Acquire(t) == /\ s.t[t] = "add" /\ (t \in Locked => s.lock = "none")
              /\ s' = [s EXCEPT !.t[t] = "run", !.pos[t] = 1, !.lock = IF t \in Locked THEN t ELSE @] /\ Quiet /\ Env
\* the next command of a run; a loop over queues ends once the shutdown has started
Stops(t, p) == /\ s.started /\ BUG # "noloop" /\ t # "recovery" /\ p[2] # ""
               /\ \A i \in 1..(s.pos[t] - 1) : Points(t)[i][2] # p[2]
Step(t) ==
  /\ s.t[t] = "run" /\ s.pos[t] <= Len(Points(t)) /\ ~\E h \in s.held : h[1] = t
  /\ LET p == Points(t)[s.pos[t]]
         hd == Armed(s, t, p[1])
     IN IF Stops(t, p) THEN s' = [s EXCEPT !.pos[t] = Len(Points(t)) + 1] /\ Quiet
        ELSE /\ s' = [s EXCEPT !.pos[t] = @ + 1, !.held = IF hd THEN @ \cup {<<t, p[1]>>} ELSE @,
                               !.armed = @ \ {<<t, p[1]>>},
                               !.buf = IF p[1] = "delete" THEN (@ + 1) % 3 ELSE @]
             /\ Feed(Cmd(t, p, s.pos[t] = 1, hd))
  /\ Env
Finish(t) == /\ s.t[t] = "run" /\ s.pos[t] > Len(Points(t)) /\ ~\E h \in s.held : h[1] = t
             /\ s' = [s EXCEPT !.t[t] = "wait", !.wg = @ \ {t}, !.lock = IF @ = t THEN "none" ELSE @] /\ Quiet /\ Env

ReqStep ==
  /\ s.req = "run" /\ s.rpos <= Len(ReqPoints) /\ ~\E h \in s.held : h[1] = "req"
  /\ LET p == ReqPoints[s.rpos]
         hd == Armed(s, "req", p[1])
     IN /\ s' = [s EXCEPT !.rpos = @ + 1, !.held = IF hd THEN @ \cup {<<"req", p[1]>>} ELSE @, !.armed = @ \ {<<"req", p[1]>>}]
        /\ Feed(Cmd("req", p, FALSE, hd))
  /\ Env
ReqEnds == /\ s.req = "run" /\ s.rpos > Len(ReqPoints) /\ ~\E h \in s.held : h[1] = "req"
           /\ s' = [s EXCEPT !.req = "done", !.buf = (@ + 1) % 3]
           /\ Feed([k |-> "reqe", i |-> 1, ok |-> TRUE, ids |-> <<>>, op |-> "add", q |-> "r"]) /\ Env

Start == /\ s.sig /\ ~s.started
         /\ s' = [s EXCEPT !.started = TRUE, !.ph = "drain"] /\ Quiet /\ Env
Drained == /\ s.ph = "drain" /\ (s.req # "run" \/ BUG = "nodrain")
           /\ s' = [s EXCEPT !.ph = "crit"] /\ Quiet /\ Env
Critical == /\ s.ph = "crit" /\ (s.wg \cap Crit = {} \/ BUG = "nocrit")
            /\ IF BUG = "cancelfirst"
               THEN s' = [s EXCEPT !.ph = "cancelled"] /\ Feed([k |-> "bulk", n |-> 1, bad |-> 0, es |-> <<>>, held |-> FALSE])
               ELSE LET hd == Armed(s, "trace", "trace")
                    IN /\ s' = [s EXCEPT !.ph = "traced", !.held = IF hd THEN @ \cup {<<"trace", "trace">>} ELSE @, !.armed = @ \ {<<"trace", "trace">>}]
                       /\ Feed([k |-> "trace", held |-> hd])
            /\ Env
Cancel == /\ s.ph = "traced" /\ <<"trace", "trace">> \notin s.held
          /\ LET hd == Armed(s, "audit", "audit")
             IN IF s.buf > 0
                THEN /\ s' = [s EXCEPT !.ph = "cancelled", !.buf = 0, !.held = IF hd THEN @ \cup {<<"audit", "audit">>} ELSE @, !.armed = @ \ {<<"audit", "audit">>}]
                     /\ Feed([k |-> "bulk", n |-> s.buf, bad |-> 0, es |-> <<>>, held |-> hd])
                ELSE s' = [s EXCEPT !.ph = "cancelled"] /\ Quiet
          /\ Env
\* cancelled work: a call of a context-aware client returns at once
Abort(t) == /\ s.ph = "cancelled" /\ \E h \in s.held : h[1] = t /\ t \in TASKS /\ h[2] \notin RedisKinds
            /\ s.t[t] = "run"
            /\ s' = [s EXCEPT !.pos[t] = Len(Points(t)) + 1, !.held = {h \in @ : h[1] # t}] /\ Quiet /\ Env
Exits == /\ s.ph = "cancelled" /\ (s.wg = {} \/ BUG = "nowait") /\ <<"audit", "audit">> \notin s.held
         /\ (BUG = "cancelfirst" => FALSE)
         /\ s' = [s EXCEPT !.ph = "exit"] /\ Feed([k |-> "exit", code |-> 0]) /\ Env

Internal ==
  \/ \E t \in TASKS : Wake(t) \/ Acquire(t) \/ Step(t) \/ Finish(t) \/ Abort(t)
  \/ ReqStep \/ ReqEnds \/ Start \/ Drained \/ Critical \/ Cancel \/ Exits

\* the environment; the plan of a test is the sequence of its steps, each taken when nothing else can happen
Holds == s.held \ s.aw
RECURSIVE Waits(_)
Waits(H) == IF H = {} THEN <<>> ELSE LET h == CHOOSE h \in H : TRUE IN <<<<"await", h[1], h[2]>>>> \o Waits(H \ {h})
Log(x) == hist' = IF EAGER THEN hist \o Waits(Holds) \o <<x>> ELSE hist
Aw(st) == IF EAGER THEN [st EXCEPT !.aw = @ \cup s.held] ELSE st
EReq == /\ s.req = "new" /\ s.ph = "serve" /\ ~s.sig
        /\ s' = Aw([s EXCEPT !.req = "run", !.rpos = 1]) /\ Quiet /\ Log(<<"req", "", "">>)
ESig == /\ ~s.sig /\ s.req # "new"
        /\ s' = Aw([s EXCEPT !.sig = TRUE]) /\ Feed([k |-> "sig"]) /\ Log(<<"sig", "", "">>)
ERefused == /\ s.started /\ m.ph = "sig" /\ s.ph # "exit"
            /\ s' = Aw(s) /\ Feed([k |-> "refuse"]) /\ Log(<<"refused", "", "">>)
ERel(h) == /\ h \in s.held
           /\ EAGER => m.ph # "sig" \/ s.ph = "exit"
           /\ s' = Aw([s EXCEPT !.held = @ \ {h}]) /\ Feed([k |-> "rel", t |-> h[1]]) /\ Log(<<"rel", h[1], h[2]>>)
EnvStep == EReq \/ ESig \/ ERefused \/ \E h \in s.held : ERel(h)

Server == Start \/ Drained \/ Critical \/ Cancel \/ Exits \/ ReqStep \/ ReqEnds
TaskAct(t) == Wake(t) \/ Acquire(t) \/ Step(t) \/ Finish(t) \/ Abort(t)
EagerNext ==
  IF ENABLED Server THEN Server
  ELSE LET en == {t \in TASKS : ENABLED TaskAct(t)}
       IN IF en # {} THEN TaskAct(CHOOSE t \in en : TRUE) ELSE EnvStep
Next == IF EAGER THEN EagerNext ELSE Internal \/ EnvStep
\* the plans, printed when the process has ended
Plan == EAGER /\ s.ph = "exit" /\ s.held = {} => PrintT("PLAN " \o ToJson([want |-> s.want, plan |-> hist]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(EnvStep)

NoAlarm == m.why = {}
OneExcl == Cardinality({t \in Excl \cap TASKS : s.t[t] = "run"}) <= 1
AllDone == s.ph = "exit" => s.wg = {} /\ s.req \in {"none", "done"}
Order == (s.ph \in {"traced", "cancelled", "exit"} => s.wg \cap Crit = {} /\ s.req # "run")
Ends == s.sig ~> s.ph = "exit"
=============================================================================
