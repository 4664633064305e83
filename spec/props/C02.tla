-------------------------------- MODULE C02 --------------------------------
(* Messages are delivered in the order they were produced.                 *)
EXTENDS Common

(* q     the queue of this operation: a sequence of sets of messages (the
         members of one set may be delivered in any order, one at a time)
   pos   position of the message being delivered
   cur   the message being delivered
   past  messages that must not be delivered any more
   pend  timeouts scheduled for later
   cmds, tms  what the handling in progress has produced
   now   engine time of the operation *)
Init == [q |-> <<>>, pos |-> 1, cur |-> "", past |-> {}, pend |-> {}, cmds |-> <<>>, tms |-> <<>>, now |-> <<0, 0>>]

Delivers(e) == e.e = "cb" /\ e.w \in {"route", "handle", "rv", "hev"}
Where(s, m) == {i \in DOMAIN s.q : m \in s.q[i]}

Known(s, e) == {}

Viol(s, e) ==
  CASE Delivers(e) /\ e.m # s.cur /\ Where(s, e.m) # {} ->
         Rule(e.m \notin s.past /\ MaxOf(Where(s, e.m)) >= s.pos,
              "delivered after a message that was queued behind it")
    [] OTHER -> {}

Single(q) == [i \in DOMAIN q |-> {q[i]}]

Next(s, e) ==
  CASE e.e = "op" ->
         [s EXCEPT !.q = IF e.op = "dispatch" THEN <<{e.m}>> ELSE <<s.pend>>,
                   !.pend = IF e.op = "reset" THEN {} ELSE @,
                   !.pos = 1, !.cur = "", !.past = {}, !.cmds = <<>>, !.tms = <<>>,
                   !.now = IF e.op = "reset" THEN @ ELSE e.now]
    [] Delivers(e) ->
         LET w == Where(s, e.m) IN
         IF e.m = s.cur \/ w = {}
           THEN [s EXCEPT !.cmds = <<>>, !.tms = <<>>]
           ELSE LET i == MaxOf(w) IN
                [s EXCEPT !.past = @ \cup {s.cur} \cup UNION {s.q[j] : j \in {k \in DOMAIN s.q : k < i}},
                          !.pos = i, !.cur = e.m, !.cmds = <<>>, !.tms = <<>>, !.pend = @ \ {e.m}]
    [] e.e = "so" /\ e.o \in {"rec", "exec"} /\ e.ok -> [s EXCEPT !.cmds = Append(@, e.p)]
    [] e.e = "so" /\ e.o = "sched" /\ e.ok ->
         IF Le(e.at, s.now) THEN [s EXCEPT !.tms = Append(@, e.p)]
                            ELSE [s EXCEPT !.pend = @ \cup {e.p}]
    [] IsCbx(e, "handle") ->
         IF e.res = "ok" \/ e.ht # "process"
           THEN [s EXCEPT !.q = @ \o Single(s.cmds) \o Single(s.tms), !.cmds = <<>>, !.tms = <<>>]
           ELSE [s EXCEPT !.cmds = <<>>, !.tms = <<>>]
    [] OTHER -> s
=============================================================================
