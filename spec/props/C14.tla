-------------------------------- MODULE C14 --------------------------------
(* Projections follow the optimistic-concurrency protocol for every event. *)
EXTENDS Common

(* st    state of the protocol for the event being delivered to a projection:
         "idle", "rv" (version is being asked for), "empty", "set", "hev"
         (being handled), "applied", "skip", "close", "done", "err"
   h, m, res   projection, event and resource
   used  resource -> event it belongs to (per projection) *)
Init == [app |-> EmptyApp, st |-> "idle", h |-> "", m |-> "", res |-> "", used |-> NoFun]

Known(s, e) == {}
Prj(e) == e.ht = "projection"
Open == {"empty", "applied"}   \* something is still owed

Viol(s, e) ==
  CASE IsCb(e, "rv") ->
         Rule(s.st \notin Open, "the protocol of the previous event was not finished")
         \cup Rule(e.res # "", "the resource is empty")
         \cup Rule(Get(s.used, <<e.h, e.res>>, e.m) = e.m, "the resource belongs to another event")
    [] IsCb(e, "hev") ->
         Rule(s.st = "empty" /\ s.h = e.h, "event handled although its version was not asked for or was not empty")
         \cup Rule(s.st # "empty" \/ e.m = s.m, "version was asked for while another event was being delivered")
         \cup Rule(s.st # "empty" \/ e.res = s.res, "handled with another resource than the one whose version was asked for")
         \cup Rule(e.cur = "" /\ e.next # "", "handled with a non-empty current version or an empty next version")
         \cup Rule(e.prim, "not delivered as a primary delivery")
    [] IsCb(e, "close") ->
         Rule(s.st = "applied" /\ s.h = e.h, "resource closed although the event was not applied")
         \cup Rule(s.st # "applied" \/ e.res = s.res, "another resource was closed")
    [] e.e = "cb" /\ e.w \in {"route", "handle"} -> Rule(s.st \notin Open, "the protocol of the previous event was not finished")
    [] e.e = "ret" /\ e.res # "panic" -> Rule(s.st \notin Open, "the protocol was not finished")
                          \cup Rule(s.st # "err" \/ e.can \/ e.res = "err", "an error of a projection was not returned")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [Init EXCEPT !.app = s.app]
    [] e.e = "op" -> [s EXCEPT !.st = "idle"]
    [] IsCb(e, "rv") ->
         [s EXCEPT !.st = IF s.st = "err" THEN "err" ELSE "rv", !.h = e.h, !.m = e.m, !.res = e.res, !.used = Put(@, <<e.h, e.res>>, e.m)]
    [] IsCbx(e, "rv") -> [s EXCEPT !.st = IF e.res # "ok" THEN "err" ELSE IF e.ver = "" THEN "empty" ELSE "set"]
    [] IsCb(e, "hev") -> [s EXCEPT !.st = "hev"]
    [] IsCbx(e, "hev") -> [s EXCEPT !.st = IF e.res # "ok" THEN "err" ELSE IF e.ok THEN "applied" ELSE "skip"]
    [] IsCb(e, "close") -> [s EXCEPT !.st = "close"]
    [] IsCbx(e, "close") -> [s EXCEPT !.st = IF e.res # "ok" THEN "err" ELSE "done"]
    [] OTHER -> s
=============================================================================
