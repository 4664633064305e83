-------------------------------- MODULE C23 --------------------------------
(* The run loop ticks with faithful, scaled time until stopped.            *)
(*                                                                         *)
(* Events: run (the loop is started), tcb and tx (a tick begins and ends,  *)
(* as told to observer o), tk and ts (it includes or skips a handler),     *)
(* cancel, ret, late. Times are in microseconds: us is a tick's engine time*)
(* relative to the start time, w the real time since the loop was started. *)
EXTENDS Common

(* The loop's start was between 0 and first. elo is the least real time at
   which the next tick's engine time can have been determined. *)
Init == [num |-> 1, den |-> 1, d |-> 0, given |-> TRUE, opts |-> <<>>, n |-> <<0, 0>>, x |-> <<0, 0>>, first |-> -1, elo |-> 0,
         us |-> 0, tok |-> "", can |-> "no", more |-> 0, tk |-> {}, ts |-> {}, fin |-> FALSE]

Known(s, e) == {}
App == [hs |-> << [n |-> "p", t |-> "process", dis |-> FALSE], [n |-> "j1", t |-> "projection", dis |-> FALSE],
                  [n |-> "j2", t |-> "projection", dis |-> FALSE] >>]

Scale(s, d) == IF s.num >= 0 THEN (s.num * d) \div s.den ELSE - ((- s.num * d) \div s.den)
Tol(s) == 3 + 3 * Scale([num |-> IF s.num >= 0 THEN s.num ELSE - s.num, den |-> s.den], 1)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Bounds of the engine time of a tick that begins at real time w. *)
Bounds(s, w) ==
  LET first == IF s.first < 0 THEN w ELSE s.first
      lo == Scale(s, Max2(0, s.elo - first))
      hi == Scale(s, w)
  IN  << Min2(lo, hi) - Tol(s), Max2(lo, hi) + Tol(s) + (IF s.given THEN 0 ELSE first) >>

Viol(s, e) ==
  CASE e.e = "tcb" /\ e.o = 1 ->
         LET b == Bounds(s, e.w) IN
         Rule(~s.fin, "a tick was started after the loop had returned")
         \cup Rule(s.tok = "", "a tick was started after one had failed")
         \cup Rule(s.can = "sync" => FALSE, "a tick was started after the context was cancelled")
         \cup Rule(s.can = "async" => s.more < 1, "a tick was started after the context was cancelled")
         \cup Rule(e.us >= b[1], "a tick's engine time is behind the scaled elapsed time")
         \cup Rule(e.us <= b[2], "a tick's engine time is ahead of the scaled elapsed time")
         \cup Rule(s.num > 0 /\ s.first >= 0 => e.us >= s.us, "a tick's engine time is before that of the previous tick")
         \cup Rule(s.n[1] > 0 => e.w \div s.n[1] >= s.d \div 2, "the ticks are much closer together than the interval")
    [] e.e = "tcb" -> Rule(~s.fin, "a tick was started after the loop had returned")
    [] e.e = "tk" -> Rule(Enabled(App, s.opts, e.h), "a tick included a handler that the options disable")
    [] e.e = "ts" -> Rule(~Enabled(App, s.opts, e.h), "a tick skipped a handler that the options enable")
    [] e.e = "ret" ->
         Rule(s.n[1] > 0 \/ e.ctx # "", "the loop returned without ticking")
         \cup Rule(s.n[1] = s.n[2] /\ s.x[1] = s.x[2], "an observer was not told about every tick")
         \cup Rule(e.res # "nil", "the loop returned no error")
         \cup Rule(s.tok \notin {"", "?"} => e.same \/ (e.ctx # "" /\ e.res = e.ctx), "the loop did not return the error of the tick that failed")
         \cup Rule(s.tok \in {"", "?"} => e.ctx # "" /\ e.res = e.ctx, "the loop did not return the context's error")
    [] e.e = "late" -> {"the loop did not tick immediately"}
    [] e.e = "stuck" -> {"the loop did not end although its context was cancelled or a tick failed"}
    [] OTHER -> {}

Bump(q, i) == [q EXCEPT ![i] = @ + 1]
Next(s, e) ==
  CASE e.e = "run" -> [s EXCEPT !.num = e.num, !.d = e.d, !.den = e.den, !.given = e.given, !.opts = e.opts]
    [] e.e = "tcb" /\ e.o = 1 -> [s EXCEPT !.n = Bump(@, 1), !.us = e.us, !.first = IF @ < 0 THEN e.w ELSE @,
                                           !.more = IF s.can = "async" THEN @ + 1 ELSE @]
    [] e.e = "tcb" -> [s EXCEPT !.n = Bump(@, 2)]
    [] e.e = "tx" /\ e.o = 1 -> [s EXCEPT !.x = Bump(@, 1), !.elo = e.w, !.tok = e.tok]
    [] e.e = "tx" -> [s EXCEPT !.x = Bump(@, 2)]
    [] e.e = "cancel" -> [s EXCEPT !.can = IF e.sync THEN "sync" ELSE IF @ = "sync" THEN @ ELSE "async"]
    [] e.e = "ret" -> [s EXCEPT !.fin = TRUE]
    [] OTHER -> s
=============================================================================
