-------------------------------- MODULE C04 --------------------------------
(* Process instances persist from first event until ended, and only then.  *)
EXTENDS Common

(* inst   <<handler, instance>> -> messages handled successfully since it began
   h, i   the handling in progress (h = "" if none)
   ended  whether End() is in effect in the current scope
   rh, rm, ri  event routed but not yet handled (rh = "" if none)
   rerr   whether routing has failed in this operation *)
Init == [inst |-> NoFun, h |-> "", i |-> "", ended |-> FALSE, rh |-> "", rm |-> "", ri |-> "", rerr |-> FALSE]

Prc(e) == e.ht = "process"
Known(s, e) == {}

Viol(s, e) ==
  CASE IsCb(e, "handle") /\ Prc(e) ->
         (IF e.k = "e"
            THEN Rule(s.rh = e.h /\ s.rm = e.m, "handled an event that was not (successfully) routed to an instance")
                 \cup Rule(s.rh # e.h \/ s.ri = e.i, "scope names another instance than the one the event was routed to")
            ELSE {})
         \cup Rule(e.own, "root was created by another handler")
         \cup Rule(e.less \/ e.root = Get(s.inst, <<e.h, e.i>>, <<>>),
                   "root is not what the last successful handling of this instance left behind")
         \cup Rule(<<e.h, e.i>> \in DOMAIN s.inst \/ ~e.used, "an instance that does not exist was given a root that has been used before")
    [] IsCb(e, "route") -> Rule(s.rh = "", "event was routed but never handled")
    [] e.e = "ret" /\ e.res # "panic" ->
         Rule(s.rh = "", "event was routed but never handled")
         \cup Rule(s.rerr => e.res # "ok", "operation succeeded although an event failed to route")
    [] OTHER -> {}

Next(s, e) ==
  CASE IsOp(e, "reset") -> Init
    [] e.e = "op" -> [s EXCEPT !.h = "", !.rh = "", !.rerr = FALSE]
    [] IsCbx(e, "route") /\ Prc(e) ->
         IF e.res = "ok" /\ e.yes THEN [s EXCEPT !.rh = e.h, !.rm = e.m, !.ri = e.i]
         ELSE [s EXCEPT !.rh = "", !.rerr = @ \/ e.res = "err"]
    [] IsCb(e, "handle") /\ Prc(e) -> [s EXCEPT !.h = e.h, !.i = e.i, !.ended = FALSE, !.rh = ""]
    [] IsSo(e, "end") -> [s EXCEPT !.ended = TRUE]
    [] e.e = "so" /\ e.o \in {"exec", "sched"} /\ e.ok -> [s EXCEPT !.ended = FALSE]
    [] IsCbx(e, "handle") /\ Prc(e) ->
         IF e.res # "ok" THEN [s EXCEPT !.h = ""]
         ELSE IF s.ended THEN [s EXCEPT !.h = "", !.inst = Del(@, {<<s.h, s.i>>})]
         ELSE [s EXCEPT !.h = "", !.inst = Put(@, <<s.h, s.i>>, Append(Get(@, <<s.h, s.i>>, <<>>), e.m))]
    [] OTHER -> s
=============================================================================
