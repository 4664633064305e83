-------------------------------- MODULE C05 --------------------------------
(* Timeouts fire exactly once, when due, only for live instances.          *)
EXTENDS Common

(* A timeout is [m, h, i, at].
   live   <<handler, instance>> that are live
   pend   timeouts that are not yet due
   infl   timeouts that must be delivered in this operation
   batch  keys of those that fell due in this tick
   maybe  timeouts that may or may not be delivered, because an operation was
          abandoned while delivering them
   gone   timeouts that are due in this operation, but whose instance has ended
   buf    timeouts scheduled by the handling in progress
   h, i, ended   the handling in progress *)
Init == [app |-> EmptyApp, now |-> <<0, 0>>, live |-> {}, pend |-> {}, infl |-> {}, batch |-> {}, maybe |-> {},
         buf |-> {}, h |-> "", i |-> "", ended |-> FALSE, gone |-> {}]

Prc(e) == e.ht = "process"
Of(S, h, i) == {x \in S : x.h = h /\ x.i = i}
ByKey(S, m) == {x \in S : x.m = m}
Known(s, e) == {}

Viol(s, e) ==
  CASE IsCb(e, "handle") /\ Prc(e) /\ e.k = "t" ->
         LET xs == ByKey(s.infl \cup s.maybe \cup s.gone, e.m) IN
         Rule(xs # {}, "delivered a timeout that is not due, was already delivered, or was never scheduled")
         \cup Rule(\A x \in xs : x.h = e.h /\ x.i = e.i, "delivered to another instance than the one that scheduled it")
         \cup Rule(\A x \in xs : x.at = e.at, "scope reports another time than the one it was scheduled for")
         \cup Rule(\A x \in xs : Le(x.at, s.now), "delivered before its time")
         \cup Rule(<<e.h, e.i>> \in s.live, "delivered to an instance that is not live")
         \cup Rule(\A x \in ByKey(s.infl, e.m) : x.m \in s.batch =>
                     ~ \E y \in s.infl : y.m \in s.batch /\ y.h = x.h /\ <<y.h, y.i>> \in s.live /\ Lt(y.at, x.at),
                   "delivered before a timeout of the same handler that was scheduled earlier")
    [] Completed(e) ->
         Rule(\A x \in s.infl : <<x.h, x.i>> \notin s.live, "a due timeout of a live instance was not delivered")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [Init EXCEPT !.app = s.app]
    [] e.e = "op" ->
         LET due == IF e.op = "tick" THEN {x \in s.pend : Le(x.at, e.now) /\ Enabled(s.app, e.opts, x.h)} ELSE {} IN
         [s EXCEPT !.now = e.now, !.pend = @ \ due, !.infl = due, !.batch = {x.m : x \in due}, !.h = "", !.buf = {}]
    [] IsCb(e, "handle") /\ Prc(e) ->
         [s EXCEPT !.h = e.h, !.i = e.i, !.ended = FALSE, !.buf = {},
                   !.infl = IF e.k = "t" THEN @ \ ByKey(@, e.m) ELSE @,
                   !.gone = IF e.k = "t" THEN @ \ ByKey(@, e.m) ELSE @,
                   !.maybe = IF e.k = "t" THEN @ \ ByKey(@, e.m) ELSE @]
    [] IsSo(e, "end") -> [s EXCEPT !.ended = TRUE]
    [] IsSo(e, "exec") /\ e.ok -> [s EXCEPT !.ended = FALSE]
    [] IsSo(e, "sched") /\ e.ok ->
         [s EXCEPT !.ended = FALSE, !.buf = @ \cup {[m |-> e.p, h |-> e.h, i |-> e.i, at |-> e.at]}]
    [] IsCbx(e, "handle") /\ Prc(e) ->
         IF e.res # "ok" THEN [s EXCEPT !.h = "", !.buf = {}]
         ELSE IF s.ended
           THEN [s EXCEPT !.h = "", !.buf = {}, !.live = @ \ {<<s.h, s.i>>},
                          !.pend = @ \ Of(@, s.h, s.i), !.infl = @ \ Of(@, s.h, s.i),
                          !.maybe = @ \ Of(@, s.h, s.i), !.gone = @ \cup Of(s.infl, s.h, s.i)]
           ELSE [s EXCEPT !.h = "", !.buf = {}, !.live = @ \cup {<<s.h, s.i>>},
                          !.pend = @ \cup {x \in s.buf : Lt(s.now, x.at)},
                          !.infl = @ \cup {x \in s.buf : Le(x.at, s.now)}]
    [] Completed(e) -> [s EXCEPT !.infl = {}, !.batch = {}, !.gone = {}]
    [] Aborted(e) -> [s EXCEPT !.maybe = @ \cup s.infl, !.infl = {}, !.batch = {}, !.gone = {}]
    [] OTHER -> s
=============================================================================
