-------------------------------- MODULE C06 --------------------------------
(* Illegal messages are rejected by a panic and have no effect.            *)
EXTENDS Common

(* bad    keys of messages that were illegally produced
   must   handler that has to be blamed by a panic before anything else
          happens ("" if none)
   dead   whether the current dispatch must be rejected *)
Init == [app |-> EmptyApp, bad |-> {}, must |-> "", dead |-> FALSE]

Known(s, e) == {}

Legal(s, e) == Produces(s.app, e.h, e.t) /\ ~e.bad
Prod(e) == e.e = "so" /\ e.o \in {"rec", "exec", "sched"}
BadDispatch(s, e) == e.k = "t" \/ e.bad \/ Consumers(s.app, e.t) = {}
Blames(p, h) == p.k = "ub" /\ p.h = h

Viol(s, e) ==
  CASE Prod(e) ->
         Rule((e.ok <=> Legal(s, e)) \/ (~e.ok /\ e.pan.k = "tok"), IF e.ok THEN "an illegal message was accepted" ELSE "a legal message was rejected")
         \cup Rule(e.ok \/ Legal(s, e) \/ Blames(e.pan, e.h), "the panic does not identify the handler")
    [] e.e = "cb" ->
         Rule(~s.dead, "a handler was invoked for a message that cannot be dispatched")
         \cup Rule(s.must = "", "a handler was invoked after an empty instance ID or a nil root")
         \cup Rule(e.m \notin s.bad, "an illegal message was delivered or applied")
    [] e.e = "f" -> Rule(e.pv.m \notin s.bad /\ e.m \notin s.bad, "an illegal message was reported as produced")
    [] e.e = "ret" ->
         Rule(s.dead => e.res = "panic", "a message that cannot be dispatched did not cause a panic")
         \cup Rule(~s.dead => ~(e.res = "panic" /\ e.pan.k = "str"), "a legal dispatch was rejected")
         \cup Rule(s.must # "" => e.res = "panic" /\ Blames(e.pan, s.must), "an empty instance ID or nil root did not cause a panic that identifies the handler")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] e.e = "op" -> [s EXCEPT !.must = "", !.dead = e.op = "dispatch" /\ BadDispatch(s, e)]
    [] Prod(e) /\ ~Legal(s, e) -> [s EXCEPT !.bad = @ \cup {e.p}]
    [] IsCbx(e, "route") /\ e.res = "ok" /\ e.yes /\ e.i = "" -> [s EXCEPT !.must = e.h]
    [] IsCb(e, "new") /\ e.nw = "nil" -> [s EXCEPT !.must = e.h]
    [] e.e = "ret" -> [s EXCEPT !.must = "", !.dead = FALSE]
    [] OTHER -> s
=============================================================================
