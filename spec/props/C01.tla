-------------------------------- MODULE C01 --------------------------------
(* Every message reaches each of its enabled consumers exactly once.       *)
EXTENDS Common

(* app    the application
   en     handlers enabled in the current operation
   due    <<message, type>> of every command and event of this operation
   got    <<message, handler>> delivered in this operation
   routed <<message, handler>> that a process routed and has yet to handle
   out    messages produced so far by the handling in progress *)
Init == [app |-> EmptyApp, en |-> {}, due |-> {}, got |-> {}, routed |-> {}, out |-> {}]

First(e) == \/ e.w = "route"
            \/ e.w = "handle" /\ e.ht = "integration"
            \/ e.w = "rv"
Later(e) == e.w = "handle" /\ e.ht \in {"aggregate", "process"}
IsTimeout(e) == e.w = "handle" /\ e.ht = "process" /\ e.k = "t"

Known(s, e) == {}

Viol(s, e) ==
  CASE e.e = "cb" /\ First(e) ->
         LET ts == {d[2] : d \in {x \in s.due : x[1] = e.m}} IN
           Rule(ts # {}, "delivered a message that was never dispatched or produced in this operation")
           \cup Rule(ts = {} \/ \E t \in ts : e.h \in Consumers(s.app, t), "delivered to a handler that does not consume it")
           \cup Rule(e.h \in s.en, "delivered to a disabled handler")
           \cup Rule(<<e.m, e.h>> \notin s.got, "delivered twice to the same handler")
    [] e.e = "cb" /\ Later(e) /\ ~IsTimeout(e) ->
         Rule(<<e.m, e.h>> \in s.routed, "handled without having been routed, or handled twice")
    [] Completed(e) ->
         Rule(\A d \in s.due : \A h \in Consumers(s.app, d[2]) \cap s.en : <<d[1], h>> \in s.got,
              "a message was not delivered to one of its enabled consumers")
         \cup Rule(s.routed = {}, "a message was routed but not handled")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] e.e = "op" ->
         [s EXCEPT !.en = IF e.op = "reset" THEN {} ELSE EnabledSet(s.app, e.opts),
                   !.due = IF e.op = "dispatch" THEN {<<e.m, e.t>>} ELSE {},
                   !.got = {}, !.routed = {}, !.out = {}]
    [] e.e = "cb" /\ First(e) ->
         [s EXCEPT !.got = @ \cup {<<e.m, e.h>>}, !.out = {}]
    [] e.e = "cb" /\ Later(e) ->
         [s EXCEPT !.routed = @ \ {<<e.m, e.h>>}, !.out = {}]
    [] IsCbx(e, "route") /\ e.res = "ok" /\ e.yes ->
         [s EXCEPT !.routed = @ \cup {<<e.m, e.h>>}]
    [] e.e = "so" /\ e.o \in {"rec", "exec"} /\ e.ok ->
         [s EXCEPT !.out = @ \cup {<<e.p, e.t>>}]
    [] IsCbx(e, "handle") ->
         [s EXCEPT !.due = IF e.res = "ok" \/ e.ht # "process" THEN @ \cup s.out ELSE @, !.out = {}]
    [] OTHER -> s
=============================================================================
