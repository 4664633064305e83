-------------------------------- MODULE C07 --------------------------------
(* Every message carries true identity, causality, origin and time.        *)
EXTENDS Common

(* env   message -> its envelope, as first reported
   ids   IDs in use
   op    the current operation's event, now its engine time ("" <<>> if unknown)
   m, i  message and instance of the handling in progress
   last  envelope of the message produced last (id = "" if none) *)
NoEnv == [id |-> "", m |-> ""]
Init == [app |-> EmptyApp, env |-> NoFun, ids |-> {}, opm |-> "", opk |-> "", optime |-> <<0, 0>>, wall |-> FALSE,
         now |-> <<0, 0>>, m |-> "", i |-> "", last |-> NoEnv]

Known(s, e) == {}
Prod(e) == e.e = "f" /\ e.f \in {"arec", "irec", "pexec", "psched"}
Cycle(e) == e.e = "f" /\ e.f \in {"dcb", "tcb"}
Nested(e) == e.e = "f" /\ e.v.id # ""

TimeRules(s, e) ==
    Rule(IF s.wall THEN Le(s.optime, e.now) ELSE e.now = s.optime, "engine time is not that of the operation")

RootRules(s, v, now) ==
    Rule(v.id \notin s.ids, "message ID is not unique")
    \cup Rule(v.ca = v.id /\ v.co = v.id, "a dispatched message is not its own cause and correlation")
    \cup Rule(v.oh = "" /\ v.ot = "" /\ v.oi = "" /\ v.sc = <<>>, "a dispatched message has an origin or schedule")
    \cup Rule(v.cr = now, "a dispatched message is not stamped with the engine time")
    \cup Rule(v.m = s.opm, "a dispatched message is not the one given")

ProdRules(s, e) ==
  LET v == e.v  p == e.pv IN
    Rule(p.id # "" /\ p.id \notin s.ids, "message ID is not unique")
    \cup Rule(v.m = s.m, "message is attributed to another message than the one being handled")
    \cup Rule(p.ca = v.id, "cause is not the message being handled")
    \cup Rule(p.co = v.co, "correlation is not inherited")
    \cup Rule(p.cr = s.now, "produced message is not stamped with the engine time")
    \cup Rule(p.oh = e.h /\ p.ot = TypeOf(s.app, e.h) /\ p.oi = s.i, "origin is not the handler and instance that produced it")
    \cup Rule(e.f = "psched" \/ p.sc = <<>>, "only timeouts are scheduled")

SameRules(s, e) ==
  LET v == e.v IN
    Rule(v.m \in DOMAIN s.env /\ v = s.env[v.m], "a later report of a message differs from the first")

Viol(s, e) ==
  CASE IsFact(e, "dcb") -> TimeRules(s, e) \cup RootRules(s, e.v, e.now)
    [] IsFact(e, "tcb") -> TimeRules(s, e)
    [] Prod(e) -> ProdRules(s, e) \cup SameRules(s, e)
    [] Nested(e) -> SameRules(s, e)
    [] e.e = "so" /\ e.o \in {"rec", "exec", "sched"} /\ e.ok ->
         Rule(s.last.id # "" /\ s.last.m = e.p /\ s.last.t = e.t, "produced message is not the one the handler gave")
         \cup Rule(e.o # "sched" \/ s.last.id = "" \/ s.last.sc = e.at, "timeout is not scheduled for the requested time")
    [] IsCb(e, "handle") /\ e.ht = "process" /\ e.m \in DOMAIN s.env ->
         Rule(e.at = (IF e.k = "e" THEN s.env[e.m].cr ELSE s.env[e.m].sc), "recorded-at or scheduled-for time shown to the handler is wrong")
    [] IsCb(e, "hev") /\ e.m \in DOMAIN s.env ->
         Rule(e.at = s.env[e.m].cr, "recorded-at time shown to the handler is wrong")
    [] e.e = "ids" -> Rule(e.n = e.d, "messages that were dispatched at the same time have the same ID")
    [] e.e = "ret" /\ e.op # "reset" /\ s.wall /\ e.res # "panic" -> Rule(Le(s.now, e.hi), "engine time is not that of the operation")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [Init EXCEPT !.app = s.app]
    [] e.e = "op" -> [s EXCEPT !.opm = e.m, !.opk = e.op, !.optime = e.now, !.wall = e.wall, !.m = "", !.last = NoEnv]
    [] IsFact(e, "dcb") -> [s EXCEPT !.now = e.now, !.ids = @ \cup {e.v.id}, !.env = Put(@, e.v.m, e.v)]
    [] IsFact(e, "tcb") -> [s EXCEPT !.now = e.now]
    [] e.e = "cb" /\ e.w = "handle" -> [s EXCEPT !.m = e.m, !.i = e.i, !.last = NoEnv]
    [] Prod(e) -> [s EXCEPT !.ids = @ \cup {e.pv.id}, !.env = Put(@, e.pv.m, e.pv), !.last = e.pv]
    [] e.e = "so" -> [s EXCEPT !.last = NoEnv]
    [] OTHER -> s
=============================================================================
