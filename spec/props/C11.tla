-------------------------------- MODULE C11 --------------------------------
(* Errors are all reported and attributed; cancellation stops promptly.    *)
EXTENDS Common

(* tok    error of the handling or ticking in progress ("" if none)
   ctok   error of a compaction that runs in parallel with handling
   derr   errors of the message being dispatched
   terr   errors of the ticks
   err    errors of the messages dispatched before
   m      message being dispatched
   stop   whether the context has been cancelled, at: during which message
   pre    whether it was cancelled before the operation started
   act    whether any handler has been invoked in this operation *)
Init == [app |-> EmptyApp, tok |-> "", ctok |-> "", derr |-> <<>>, terr |-> <<>>, err |-> <<>>, m |-> "tick",
         stop |-> FALSE, at |-> "", pre |-> FALSE, act |-> FALSE]

Known(s, e) == {}
Toks(q) == [i \in DOMAIN q |-> q[i].tok]
Err(s, h, t) == [h |-> h, ht |-> TypeOf(s.app, h), tok |-> t]
(* The error of the handling in progress. *)
Eff(s) == IF s.tok # "" THEN s.tok ELSE s.ctok
Delivers(e) == e.e = "cb" /\ e.w \in {"route", "handle", "rv", "hev"}
CtxTok(t) == t \in {"ctx", "deadline"}

Final(s, e) ==
    IF e.can THEN Rule(~s.act \/ \E i \in DOMAIN e.errs : CtxTok(e.errs[i].tok), "a cancelled operation did not return the context's error")
    ELSE Rule(e.errs = s.terr \o s.err, "the errors returned are not those of the handlers that failed, attributed and in order")
         \cup Rule(e.res = (IF s.terr \o s.err = <<>> THEN "ok" ELSE "err"), "the operation's result does not reflect whether a handler failed")

Viol(s, e) ==
  CASE IsFact(e, "hc") ->
         Rule(Toks(e.errs) = (IF Eff(s) = "" THEN <<>> ELSE <<Eff(s)>>), "handling is not reported as completed with the handler's error")
    [] IsFact(e, "tc") ->
         Rule(Toks(e.errs) = (IF Eff(s) = "" THEN <<>> ELSE <<Eff(s)>>), "tick is not reported as completed with the handler's error")
    [] IsFact(e, "dc") ->
         Rule(e.errs = s.derr, "dispatch is not reported as completed with the errors of the handlers that failed")
    [] e.e = "f" /\ e.f \in {"dcc", "tcc"} /\ ~s.stop /\ ~s.pre ->
         Rule(e.errs = s.terr \o s.err, "cycle is not reported as completed with the errors of the handlers that failed")
    [] Delivers(e) ->
         Rule(~s.stop \/ e.m = s.at, "a further message was delivered after the context was cancelled")
    [] e.e = "crash" -> {"an operation crashed the process instead of returning"}
    [] e.e = "ret" /\ e.op # "reset" /\ e.res # "panic" -> Final(s, e)
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] e.e = "op" -> [Init EXCEPT !.app = s.app, !.pre = (e.op # "reset" /\ e.ctx = "pre")]
    [] e.e = "cancel" -> [s EXCEPT !.stop = TRUE, !.at = IF s.stop THEN @ ELSE s.m]
    [] IsFact(e, "db") -> [s EXCEPT !.m = e.m, !.derr = <<>>]
    [] Delivers(e) /\ s.pre /\ ~s.stop -> [s EXCEPT !.stop = TRUE, !.at = e.m]
    [] e.e = "f" /\ e.f \in {"hb", "tb"} -> [s EXCEPT !.tok = "", !.ctok = "", !.act = TRUE]
    [] e.e = "cbx" /\ e.res = "err" ->
         IF e.w = "compact" /\ e.par THEN [s EXCEPT !.ctok = e.tok]
         ELSE IF s.tok = "" THEN [s EXCEPT !.tok = e.tok] ELSE s
    [] IsFact(e, "hc") -> [s EXCEPT !.derr = IF Eff(s) = "" THEN @ ELSE Append(@, Err(s, e.h, Eff(s))), !.tok = "", !.ctok = ""]
    [] IsFact(e, "tc") -> [s EXCEPT !.terr = IF Eff(s) = "" THEN @ ELSE Append(@, Err(s, e.h, Eff(s))), !.tok = "", !.ctok = ""]
    [] IsFact(e, "dc") -> [s EXCEPT !.err = @ \o s.derr, !.derr = <<>>, !.m = "tick"]
    [] OTHER -> s
=============================================================================
