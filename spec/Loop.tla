-------------------------------- MODULE Loop --------------------------------
(* The run loop: it ticks the engine, sleeps, and repeats this until its   *)
(* context is cancelled or a tick fails.                                   *)
(*                                                                         *)
(* Times are in microseconds, real time starts at zero. A process has a    *)
(* timeout pending for each tick, which succeeds, takes long, fails or     *)
(* cancels the context. The context may also be cancelled before the loop  *)
(* starts, while it sleeps, or when a number of ticks have completed.      *)
EXTENDS Common, Json

CONSTANT World    \* name of the world
CONSTANT Budget   \* [ops]: how many ticks

VARIABLES s, tr

D == 1000         \* the interval
Slow == 700       \* how long a slow tick takes
Hs == <<"p", "j1", "j2">>
App == [hs |-> << [n |-> "p", t |-> "process", dis |-> FALSE], [n |-> "j1", t |-> "projection", dis |-> FALSE],
                  [n |-> "j2", t |-> "projection", dis |-> FALSE] >>]
Configs ==
  {[num |-> f[1], den |-> f[2], opts |-> o, pre |-> p] :
     f \in {<<1, 1>>, <<5, 2>>, <<1, 4>>, <<0, 1>>}, o \in {<<>>, <<<<"h", "j1", FALSE>>>>, <<<<"ty", "projection", FALSE>>, <<"h", "j2", TRUE>>>>},
     p \in BOOLEAN}

(* pc    what the loop does next
   w     the real time, eng: the engine time of the tick
   n     how many ticks have completed
   out   what becomes of the tick in progress
   can   whether the context is cancelled
   err   the error the loop returns
   i     handlers and observers told so far *)
Start(c) == [cfg |-> c, pc |-> "run", w |-> 0, eng |-> 0, n |-> 0, out |-> "", can |-> FALSE, err |-> "", i |-> 0]

Time(s0) == (s0.cfg.num * s0.w) \div s0.cfg.den
(* Only a tick at a time of its own has a timeout of its own. *)
Outs(s0) == IF s0.can THEN {"ok", "ctx"} ELSE IF s0.cfg.num = 0 /\ s0.n > 0 THEN {"ok"} ELSE {"ok", "slow", "err", "cancel"}
Tok(s0) == CASE s0.out = "err" -> "t" \o ToString(s0.n) [] s0.out = "ctx" \/ (s0.can /\ s0.out = "cancel") -> "?" [] OTHER -> ""
Ok(s0) == s0.out \in {"ok", "slow"}

Silent == [e |-> "-"]
Proceed(s0) ==
  CASE s0.pc = "run" ->
         {<<[e |-> "run", given |-> TRUE, num |-> s0.cfg.num, den |-> s0.cfg.den, opts |-> s0.cfg.opts, d |-> D],
            [s0 EXCEPT !.pc = IF s0.cfg.pre THEN "pre" ELSE "time"]>>}
    [] s0.pc = "pre" -> {<<[e |-> "cancel", sync |-> FALSE], [s0 EXCEPT !.pc = "time", !.can = TRUE]>>}
    [] s0.pc = "time" -> {<<Silent, [s0 EXCEPT !.pc = "tick", !.eng = Time(s0), !.w = @ + 1, !.out = o, !.i = 0]>> : o \in Outs(s0)}
    [] s0.pc = "tick" ->
         {<<[e |-> "tcb", o |-> s0.i + 1, us |-> s0.eng, w |-> s0.w],
            IF s0.i = 0 THEN [s0 EXCEPT !.i = 1] ELSE [s0 EXCEPT !.i = 0, !.pc = IF s0.out = "ctx" THEN "done" ELSE "each"]>>}
    [] s0.pc = "each" ->
         LET h == Hs[s0.i + 1] IN
         {<<[e |-> IF Enabled(App, s0.cfg.opts, h) THEN "tk" ELSE "ts", o |-> 1, h |-> h],
            IF s0.i = 2 THEN [s0 EXCEPT !.i = 0, !.pc = IF s0.out = "cancel" THEN "stop" ELSE "done", !.w = IF s0.out = "slow" THEN @ + Slow ELSE @]
            ELSE [s0 EXCEPT !.i = @ + 1]>>}
    [] s0.pc = "stop" -> {<<[e |-> "cancel", sync |-> TRUE], [s0 EXCEPT !.pc = "done", !.can = TRUE]>>}
    [] s0.pc = "done" ->
         {<<[e |-> "tx", o |-> s0.i + 1, tok |-> Tok(s0), w |-> s0.w],
            IF s0.i = 0 THEN [s0 EXCEPT !.i = 1]
            ELSE [s0 EXCEPT !.n = @ + 1, !.err = Tok(s0), !.pc = IF Tok(s0) = "" THEN "sleep" ELSE "ret"]>>}
    [] s0.pc = "sleep" ->
         (IF s0.can THEN {<<Silent, [s0 EXCEPT !.pc = "ret", !.err = "?"]>>} ELSE {})
         \cup (IF ~s0.can /\ s0.n < Budget.ops THEN {<<Silent, [s0 EXCEPT !.pc = "time", !.w = @ + D]>>} ELSE {})
         \cup (IF ~s0.can THEN {<<[e |-> "cancel", sync |-> FALSE], [s0 EXCEPT !.can = TRUE, !.w = @ + D \div 2]>>} ELSE {})
    [] s0.pc = "ret" ->
         {<<[e |-> "ret", res |-> IF s0.err = "?" THEN "ctx" ELSE s0.err, same |-> s0.err # "?", ctx |-> IF s0.can THEN "ctx" ELSE ""],
            [s0 EXCEPT !.pc = "end"]>>}
    [] OTHER -> {}

(* What distinguishes a behaviour: what becomes of each tick, and when the
   context was cancelled while sleeping. *)
Choice(s0, e) ==
  CASE s0.pc = "time" -> <<>>
    [] s0.pc = "tick" /\ s0.i = 0 -> <<[us |-> s0.eng, out |-> s0.out]>>
    [] s0.pc = "sleep" /\ e.e = "cancel" -> <<[after |-> s0.w + D \div 2]>>
    [] OTHER -> <<>>
Export == s.pc # "end" \/ PrintT("SCEN " \o ToJson([cfg |-> s.cfg, ch |-> tr]))
=============================================================================
