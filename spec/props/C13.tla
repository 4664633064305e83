-------------------------------- MODULE C13 --------------------------------
(* After Reset an engine behaves like a new one.                           *)
EXTENDS Common

(* old    keys of all messages that existed before the last reset
   cur    keys of all messages since
   n      number of resets
   resetting  whether Reset() is in progress, got: reset functions called
   fresh  TRUE from a reset until a message has been dispatched or produced
   guard  whether an operation has panicked since the reset (a message that is
          rejected before it is reported may or may not use up an ID)
   inst   instances that have been seen by their handler since the reset
   comp   projections that a tick has begun to compact since the reset
   tick   whether a handler is being ticked *)
Init == [app |-> EmptyApp, old |-> {}, cur |-> {}, n |-> 0, resetting |-> FALSE, got |-> <<>>, fresh |-> FALSE,
guard |-> FALSE, inst |-> {}, comp |-> {}, tick |-> FALSE]

Known(s, e) == {}

(* The first ID is the one that a new engine gives to the first message. *)
Viol(s, e) ==
  CASE e.e = "rst" -> Rule(s.resetting, "a reset function was called although the engine was not being reset")
    [] e.e = "ret" /\ e.op = "reset" ->
         Rule(s.got = [j \in 1..s.app.resets |-> j], "the reset functions were not each called once, in order")
    [] e.e = "cb" /\ e.w \in {"route", "handle", "hev", "apply"} ->
         Rule(e.m \notin s.old, "a message from before the reset was delivered or applied")
         \cup (IF e.w = "handle" /\ e.ht \in {"aggregate", "process"}
                 THEN Rule(Ran(e.root) \cap s.old = {}, "state from before the reset is visible to a handler")
                 ELSE {})
    [] IsFact(e, "dcb") /\ s.fresh /\ s.n > 0 /\ ~s.guard -> Rule(e.v.id = "1", "message IDs do not start again after a reset")
    [] e.e = "f" /\ e.f \in {"aload", "pload"} /\ s.n > 0 ->
         Rule(<<e.h, e.i>> \in s.inst, "an instance from before the reset was loaded")
    [] IsFact(e, "tc") /\ s.n > 0 /\ TypeOf(s.app, e.h) = "projection" ->
         Rule(e.h \in s.comp, "a projection was not compacted by the first tick after a reset")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") ->
         [s EXCEPT !.old = @ \cup s.cur, !.cur = {}, !.n = @ + 1, !.resetting = TRUE, !.got = <<>>, !.fresh = TRUE,
                   !.guard = FALSE, !.inst = {}, !.comp = {}]
    [] e.e = "op" -> [s EXCEPT !.cur = IF e.op = "dispatch" THEN @ \cup {e.m} ELSE @]
    [] e.e = "rst" -> [s EXCEPT !.got = Append(@, e.n)]
    [] e.e = "ret" -> [s EXCEPT !.resetting = FALSE, !.guard = @ \/ e.res = "panic"]
    [] IsFact(e, "dcb") -> [s EXCEPT !.fresh = FALSE]
    [] e.e = "f" /\ e.pv.id # "" -> [s EXCEPT !.fresh = FALSE]
    [] e.e = "so" /\ e.o \in {"rec", "exec", "sched"} -> [s EXCEPT !.cur = @ \cup {e.p}, !.fresh = FALSE]
    [] IsCb(e, "handle") /\ e.ht \in {"aggregate", "process"} -> [s EXCEPT !.inst = @ \cup {<<e.h, e.i>>}]
    [] IsFact(e, "tb") -> [s EXCEPT !.tick = TRUE]
    [] e.e = "f" /\ e.f \in {"tc", "tcc", "hb"} -> [s EXCEPT !.tick = FALSE]
    [] IsFact(e, "compb") /\ s.tick -> [s EXCEPT !.comp = @ \cup {e.h}]
    [] OTHER -> s
=============================================================================
