-------------------------------- MODULE C08 --------------------------------
(* Only enabled handlers run, with the documented precedence.              *)
EXTENDS Common

(* opts   options of the current operation
   mt     type of the message being dispatched ("" if none)
   seen   handlers reported as begun or skipped for it, or for the tick
   tm     timeout -> handler that scheduled it *)
Init == [app |-> EmptyApp, on |-> FALSE, op |-> "", opts |-> <<>>, m |-> "", mt |-> "", seen |-> {}, tick |-> {}, tm |-> NoFun]

Known(s, e) == {}
En(s, h) == Enabled(s.app, s.opts, h)
Targets(s, m, t) == IF m \in DOMAIN s.tm THEN {s.tm[m]} ELSE Consumers(s.app, t)

Viol(s, e) ==
  CASE e.e = "cb" /\ e.w \notin {"apply", "new", "applypanic"} /\ s.on -> Rule(En(s, e.h), "a method of a disabled handler was called")
    [] IsFact(e, "hb") -> Rule(En(s, e.h), "a disabled handler was not skipped")
    [] IsFact(e, "hs") ->
         Rule(~En(s, e.h), "an enabled handler was skipped")
         \cup Rule(En(s, e.h) \/ e.rsn = SkipReason(s.app, s.opts, e.h), "wrong reason for skipping")
         \cup Rule(e.h \notin s.seen, "handler reported twice for one message")
    [] IsFact(e, "tb") -> Rule(En(s, e.h), "a disabled handler was not skipped by the tick")
    [] IsFact(e, "ts") ->
         Rule(~En(s, e.h), "an enabled handler was skipped by the tick")
         \cup Rule(En(s, e.h) \/ e.rsn = SkipReason(s.app, s.opts, e.h), "wrong reason for skipping a tick")
         \cup Rule(e.h \notin s.tick, "handler reported twice for one tick")
    [] IsFact(e, "dc") ->
         Rule(Targets(s, s.m, s.mt) \subseteq s.seen, "a consumer was neither invoked nor reported as skipped")
    [] Completed(e) /\ e.op = "tick" -> Rule(s.tick = Names(s.app), "a handler was neither ticked nor reported as skipped")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [s EXCEPT !.on = FALSE, !.tm = NoFun]
    [] e.e = "op" -> [s EXCEPT !.on = TRUE, !.op = e.op, !.opts = e.opts, !.tick = {}, !.m = "", !.mt = "", !.seen = {}]
    [] e.e = "ret" -> [s EXCEPT !.on = FALSE]
    [] IsSo(e, "sched") /\ e.ok -> [s EXCEPT !.tm = Put(@, e.p, e.h)]
    [] IsFact(e, "db") -> [s EXCEPT !.m = e.m, !.mt = e.v.t, !.seen = {}]
    [] e.e = "f" /\ e.f \in {"hb", "hs"} -> [s EXCEPT !.seen = @ \cup {e.h}]
    [] e.e = "f" /\ e.f \in {"tb", "ts"} -> [s EXCEPT !.tick = @ \cup {e.h}]
    [] OTHER -> s
=============================================================================
