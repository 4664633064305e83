-------------------------------- MODULE C25 --------------------------------
(* A panic in a handler reaches the caller intact and leaves a usable      *)
(* engine.                                                                 *)
EXTENDS Common

A == INSTANCE C03
P == INSTANCE C04
T == INSTANCE C05

(* a, p, t   the state that the completed handlings have left behind
   any   whether an operation has panicked since the engine was new or reset
   pans  the panics of the operation in progress (there can be several if a
         projection is compacted in parallel), main those of the main goroutine *)
NoPan == [k |-> "", tok |-> "", h |-> "", m |-> "", w |-> ""]
Init == [a |-> A!Init, p |-> P!Init, t |-> T!Init, any |-> FALSE, pans |-> {}, main |-> {}]

Known(s, e) == {}
Method(w, t) == CASE w = "route" /\ t = "aggregate" -> "RouteCommandToInstance"
                  [] w = "route" -> "RouteEventToInstance"
                  [] w = "handle" /\ t = "process-t" -> "HandleTimeout"
                  [] w = "handle" /\ t = "process" -> "HandleEvent"
                  [] w = "hev" -> "HandleEvent"
                  [] OTHER -> "HandleCommand"

Intact(p, r) ==
  CASE p.k = "tok" -> r.k = "tok" /\ r.tok = p.tok
    [] p.k = "um" -> r.k = "um" /\ r.h = p.h /\ r.m = p.m /\ r.meth = p.w
    [] OTHER -> r.k = p.k

Viol(s, e) ==
  (IF s.any THEN A!Viol(s.a, e) \cup P!Viol(s.p, e) \cup T!Viol(s.t, e) ELSE {})
  \cup
  (CASE e.e = "ret" /\ e.op # "reset" ->
         Rule(s.pans # {} => e.res = "panic", "a panic of a handler did not reach the caller")
         \cup Rule(s.pans # {} /\ e.res = "panic" => \E p \in s.pans : Intact(p, e.pan), "the caller got another panic than the handler's")
         \cup Rule(s.pans = {} /\ e.res = "panic" => e.pan.k \in {"str", "ub"}, "the operation panicked although no handler did")
    [] e.e = "cb" /\ e.w \notin {"applypanic", "compact"} ->
         Rule(s.main = {}, "a handler was invoked after a panic")
         \cup Rule(s.pans = {} \/ e.w = "hev", "a handler was invoked after a panic")
    [] IsCb(e, "compact") /\ ~e.par -> Rule(s.pans = {}, "a handler was invoked after a panic")
    [] e.e = "stuck" -> Rule(~s.any /\ s.pans = {}, "the engine is unusable after a panic")
    [] e.e = "crash" -> {"a panic of a handler did not reach the caller but crashed the process"}
    [] OTHER -> {})

(* The panic that an event stands for. *)
Pan(e) ==
  CASE e.e = "cbx" /\ e.res = "panic" /\ e.tok # "scope" -> [NoPan EXCEPT !.k = "tok", !.tok = e.tok]
    [] e.e = "cbx" /\ e.res = "panic" -> [NoPan EXCEPT !.k = "ub"]
    [] e.e = "cbx" /\ e.res = "unexp" ->
         [NoPan EXCEPT !.k = "um", !.h = e.h, !.m = e.m,
                       !.w = Method(e.w, IF e.w = "handle" /\ e.ht = "process" /\ e.k = "t" THEN "process-t" ELSE e.ht)]
    [] IsCb(e, "applypanic") -> [NoPan EXCEPT !.k = "tok", !.tok = e.tok]
    [] OTHER -> NoPan

IsPar(e) == IsCbx(e, "compact") /\ e.par
(* A panic of ApplyEvent() passes through the handler that is recording. *)
Through(s, e) == e.e = "cbx" /\ e.res = "panic" /\ e.tok = "scope" /\ s.main # {}

Next(s, e) ==
  LET p == Pan(e)
      new == IF p.k = "" \/ Through(s, e) THEN {} ELSE {p}
  IN
  [a |-> A!Next(s.a, e), p |-> P!Next(s.p, e), t |-> T!Next(s.t, e),
   any |-> IF IsOp(e, "reset") THEN FALSE ELSE s.any \/ (e.e = "ret" /\ e.res = "panic"),
   pans |-> IF e.e \in {"op", "ret"} THEN {} ELSE s.pans \cup new,
   main |-> IF e.e \in {"op", "ret"} THEN {} ELSE IF IsPar(e) THEN s.main ELSE s.main \cup new]
=============================================================================
