-------------------------------- MODULE C03 --------------------------------
(* An aggregate's root is the fold of exactly its own recorded events.     *)
EXTENDS Common

(* hist   <<handler, instance>> -> events recorded and not forgotten
   on     whether a command is being handled
   h, i   by which instance
   route  instance that the command was last routed to
   view   what the root given to the handler must contain
   frozen what it contained when Destroy() first took effect
   rec    events recorded in the current scope
   ex     whether the instance exists at this point of the scope
   des    whether Destroy() has taken effect in this scope *)
Init == [hist |-> NoFun, on |-> FALSE, h |-> "", i |-> "", route |-> "", view |-> <<>>, frozen |-> <<>>,
         rec |-> <<>>, ex |-> FALSE, des |-> FALSE]

Agg(e) == e.ht = "aggregate"

(* KF1: after Destroy() has taken effect in a scope, an event recorded in the
   same scope is not applied to the root that the handler was given. *)
KF1(s, e) == s.des /\ e.root # Append(s.view, e.p) /\ e.root = s.frozen

Known(s, e) ==
  IF s.on /\ IsSo(e, "rec") /\ Agg(e) /\ e.ok /\ KF1(s, e) THEN {"KF1"} ELSE {}

Viol(s, e) ==
  CASE IsCb(e, "handle") /\ Agg(e) ->
         Rule(e.i = s.route, "scope names another instance than the one the command was routed to")
         \cup Rule(e.own, "root was created by another handler")
         \cup Rule(e.root = Get(s.hist, <<e.h, s.route>>, <<>>), "root is not the fold of the instance's own events")
    [] s.on /\ IsSo(e, "rec") /\ Agg(e) /\ e.ok ->
         Rule(e.root = Append(s.view, e.p) \/ KF1(s, e), "recorded event is not applied to the handler's root")
    [] s.on /\ e.e = "so" /\ Agg(e) /\ e.o # "destroy" /\ ~s.des ->
         Rule(e.root = s.view, "root changed although no event was recorded")
    [] OTHER -> {}

Next(s, e) ==
  CASE IsOp(e, "reset") -> Init
    [] e.e = "op" -> [s EXCEPT !.on = FALSE]
    [] IsCbx(e, "route") /\ Agg(e) -> [s EXCEPT !.route = e.i, !.on = FALSE]
    [] IsCb(e, "handle") /\ Agg(e) ->
         LET c == Get(s.hist, <<e.h, s.route>>, <<>>) IN
         [s EXCEPT !.on = TRUE, !.h = e.h, !.i = s.route, !.view = c, !.frozen = c, !.rec = <<>>, !.ex = (c # <<>>), !.des = FALSE]
    [] s.on /\ IsSo(e, "rec") /\ Agg(e) /\ e.ok ->
         [s EXCEPT !.view = Append(@, e.p), !.rec = Append(@, e.p), !.ex = TRUE]
    [] s.on /\ IsSo(e, "destroy") /\ Agg(e) /\ s.ex ->
         [s EXCEPT !.ex = FALSE, !.des = TRUE, !.frozen = IF s.des THEN @ ELSE s.view]
    [] s.on /\ IsCbx(e, "handle") /\ Agg(e) ->
         IF e.res # "ok" THEN [s EXCEPT !.on = FALSE]
         ELSE IF s.ex THEN [s EXCEPT !.on = FALSE, !.hist = Put(@, <<s.h, s.i>>, Get(@, <<s.h, s.i>>, <<>>) \o s.rec)]
         ELSE [s EXCEPT !.on = FALSE, !.hist = Del(@, {<<s.h, s.i>>})]
    [] OTHER -> s
=============================================================================
