-------------------------------- MODULE C10 --------------------------------
(* Instance lifecycle facts tell what actually happened.                   *)
EXTENDS Common

(* ex    <<handler, instance>> of aggregates that have events and of live
         processes
   tm    timeout -> instance that scheduled it
   h, i  the handling in progress, i = "" until the message has been routed
   on    whether the handler's own code is running
   cx    aggregate: instance exists; process: End() is not in effect
   des   aggregate: Destroy() has taken effect in this scope
   lf    lifecycle facts reported since the last scope call
   want  lifecycle facts owed before handling starts or completes *)
Init == [app |-> EmptyApp, ex |-> {}, tm |-> NoFun, h |-> "", i |-> "", on |-> FALSE, cx |-> FALSE, des |-> FALSE,
         lf |-> <<>>, want |-> <<>>]

Life == {"aload", "anf", "acreate", "adestroy", "arevert", "pload", "pnf", "pbegin", "peign", "ptign", "pend", "prevert"}
Known(s, e) == {}
IsLife(e) == e.e = "f" /\ e.f \in Life
Agg(e) == e.ht = "aggregate"
Prc(e) == e.ht = "process"

(* The facts that a scope call must have caused. *)
Caused(s, e) ==
  CASE Agg(e) /\ e.o = "rec" /\ e.ok /\ ~s.cx -> IF s.des THEN <<"arevert">> ELSE <<"acreate">>
    [] Agg(e) /\ e.o = "destroy" /\ s.cx -> <<"adestroy">>
    [] Prc(e) /\ e.o = "end" /\ s.cx -> <<"pend">>
    [] Prc(e) /\ e.o \in {"exec", "sched"} /\ e.ok /\ ~s.cx -> <<"prevert">>
    [] OTHER -> <<>>

(* ApplyEvent() panicked: the creation may have been reported by then. *)
AppPanic(e) == ~e.ok /\ e.pan.k = "tok"

(* The facts owed once a message has been routed to instance i. *)
Owed(s, h, i, t) ==
  IF t = "aggregate" THEN (IF <<h, i>> \in s.ex THEN <<"aload">> ELSE <<"anf">>)
  ELSE (IF <<h, i>> \in s.ex THEN <<"pload">> ELSE <<"pnf", "pbegin">>)

Viol(s, e) ==
  CASE IsLife(e) ->
         Rule(s.h = e.h, "lifecycle report outside of handling by that handler")
         \cup Rule(e.f = "peign" \/ s.h # e.h \/ e.i = s.i, "lifecycle report names another instance")
    [] IsCb(e, "handle") /\ e.ht \in {"aggregate", "process"} ->
         Rule(s.lf = s.want, "an instance was not reported as loaded, not found, begun or ignored as it should have been")
    [] e.e = "so" /\ s.on ->
         Rule(s.lf = Caused(s, e) \/ AppPanic(e), "lifecycle reports do not match the effect of the scope call")
    [] IsCbx(e, "handle") /\ s.on -> Rule(s.lf = <<>>, "unexpected lifecycle report")
    [] IsFact(e, "hc") -> Rule(s.lf = s.want, "an instance was not reported as loaded, not found, begun or ignored as it should have been")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [Init EXCEPT !.app = s.app]
    [] e.e = "op" -> [s EXCEPT !.h = "", !.i = "", !.on = FALSE, !.lf = <<>>, !.want = <<>>]
    [] IsFact(e, "hb") ->
         IF e.m \in DOMAIN s.tm
           THEN LET i == s.tm[e.m] IN
                [s EXCEPT !.h = e.h, !.i = i, !.lf = <<>>, !.on = FALSE,
                          !.want = IF <<e.h, i>> \in s.ex THEN <<"pload">> ELSE <<"ptign">>]
           ELSE [s EXCEPT !.h = e.h, !.i = "", !.lf = <<>>, !.want = <<>>, !.on = FALSE]
    [] IsCbx(e, "route") /\ e.res = "ok" ->
         IF ~e.yes THEN [s EXCEPT !.want = <<"peign">>]
         ELSE [s EXCEPT !.i = e.i, !.want = Owed(s, e.h, e.i, e.ht)]
    [] IsLife(e) -> [s EXCEPT !.lf = Append(@, e.f)]
    [] IsCb(e, "handle") /\ e.ht \in {"aggregate", "process"} ->
         [s EXCEPT !.on = TRUE, !.lf = <<>>, !.want = <<>>, !.des = FALSE,
                   !.cx = IF e.ht = "process" THEN TRUE ELSE <<e.h, e.i>> \in s.ex]
    [] e.e = "so" /\ s.on ->
         LET c == Caused(s, e) IN
         [s EXCEPT !.lf = <<>>,
                   !.cx = IF c \in {<<"acreate">>, <<"arevert">>, <<"prevert">>} THEN TRUE
                          ELSE IF c \in {<<"adestroy">>, <<"pend">>} THEN FALSE ELSE @,
                   !.des = @ \/ c = <<"adestroy">>,
                   !.tm = IF e.o = "sched" /\ e.ok THEN Put(@, e.p, s.i) ELSE @]
    [] IsCbx(e, "handle") /\ s.on ->
         [s EXCEPT !.on = FALSE,
                   !.ex = IF e.res # "ok" THEN @ ELSE IF s.cx THEN @ \cup {<<s.h, s.i>>} ELSE @ \ {<<s.h, s.i>>}]
    [] IsFact(e, "hc") -> [s EXCEPT !.h = "", !.i = "", !.lf = <<>>, !.want = <<>>]
    [] OTHER -> s
=============================================================================
