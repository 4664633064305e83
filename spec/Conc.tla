-------------------------------- MODULE Conc --------------------------------
(* Concurrent operations on one engine.                                    *)
(*                                                                         *)
(* Several goroutines each perform one operation. Whoever runs the         *)
(* scenario starts them, cancels those that wait and lets handlers go that *)
(* stopped ("parked") in the middle of an operation. It acts only when no  *)
(* goroutine can proceed, the goroutines proceed in any order.             *)
(*                                                                         *)
(* An operation waits for its turn, invokes handlers one after the other   *)
(* and returns. Dispatching delivers a command to an aggregate, which      *)
(* records an event, and the event to a projection. A tick compacts the    *)
(* projection. A reset calls two functions.                                *)
EXTENDS Common, Json

CONSTANT World    \* name of the world
CONSTANT Budget   \* [ops]: how many operations

VARIABLES s, tr

N == Budget.ops
Ops ==
  LET o(k, i, p, e, a, c) == [op |-> k, i |-> i, park |-> p, end |-> e, at |-> a, ctx |-> c]
      disp == {o("dispatch", "a", p, "", 0, "") : p \in {<<>>, <<1>>, <<2>>}}
      tick == {o("tick", "a", p, "", 0, "") : p \in {<<>>, <<1>>}}
      reset == {o("reset", "", p, "", 0, "") : p \in {<<>>, <<1>>}}
      ends == {o("dispatch", "a", <<1>>, "panic", 1, ""), o("dispatch", "a", <<2>>, "panic", 2, ""), o("dispatch", "a", <<>>, "err", 2, ""),
               o("tick", "a", <<1>>, "panic", 1, ""), o("reset", "", <<2>>, "panic", 2, ""), o("reset", "", <<>>, "panic", 1, "")}
      other == {o("dispatch", "b", <<>>, "", 0, ""), o("dispatch", "a", <<>>, "", 0, "pre"), o("tick", "a", <<1>>, "", 0, "pre")}
  IN CASE World = "conc" -> disp \cup tick \cup reset
       [] World = "concend" -> ends \cup other \cup {o("dispatch", "a", <<1>>, "", 0, ""), o("reset", "", <<1>>, "", 0, "")}

(* st     of each operation: idle, wait, run, in (a handler), parked, out
   lock   the operation whose turn it is (0: none)
   inv    how many handlers it has invoked
   q      the messages it is going to deliver, with their IDs
   cur    whether the first one is being delivered
   root   what the aggregate root was given
   hist   the events of each instance of the aggregate
   ids    how many IDs have been given to messages, id: those of the commands
   keys   how many messages have been made *)
Start(cfg) == [cfg |-> cfg, st |-> [n \in 1..N |-> "idle"], lock |-> 0, inv |-> 0, q |-> <<>>, cur |-> FALSE,
               hist |-> NoFun, ids |-> 0, id |-> [n \in 1..N |-> 0], keys |-> 0, can |-> {}, res |-> "ok"]

Key(n, k) == "n" \o ToString(n) \o "." \o ToString(k)
Is(s0, n, k) == s0.cfg[n].op = k
Parks(s0, n) == s0.inv + 1 \in Ran(s0.cfg[n].park)
Ends(s0, n, r) == s0.cfg[n].end = r /\ s0.cfg[n].at = s0.inv
Handler(s0, n) == IF Is(s0, n, "dispatch") /\ s0.inv = 0 THEN "agg" ELSE "p1"
Total(s0, n) == IF Is(s0, n, "tick") THEN 1 ELSE 2
In(h, i) == IF h = "agg" THEN i ELSE ""

Ret(n, op, res, can) == [e |-> "ret", n |-> n, op |-> op, res |-> res, can |-> can]

(* An operation gets its turn. *)
Turn(s0, n) == [s0 EXCEPT !.lock = n, !.st[n] = "run", !.inv = 0, !.res = "ok", !.cur = FALSE,
                          !.q = IF Is(s0, n, "dispatch") THEN <<[m |-> Key(n, 0), id |-> s0.id[n], root |-> TRUE]>> ELSE <<>>,
                          !.hist = IF Is(s0, n, "reset") THEN NoFun ELSE @, !.ids = IF Is(s0, n, "reset") THEN 0 ELSE @]
Waiting(s0, n) ==
  LET c == s0.cfg[n] IN
     (IF s0.lock = 0 THEN {<<[e |-> "turn", n |-> n], Turn(s0, n)>>} ELSE {})
     \cup (IF n \in s0.can THEN {<<Ret(n, c.op, "err", TRUE), [s0 EXCEPT !.st[n] = "out"]>>} ELSE {})

Running(s0, n) ==
  LET c == s0.cfg[n]
      m == IF s0.q = <<>> THEN "" ELSE s0.q[1].m
      h == Handler(s0, n)
      done == s0.inv = Total(s0, n) \/ s0.res = "panic"
      in == [s0 EXCEPT !.st[n] = IF Parks(s0, n) THEN "parked" ELSE "in", !.inv = @ + 1]
  IN IF done THEN {<<Ret(n, c.op, s0.res, FALSE), [s0 EXCEPT !.lock = 0, !.st[n] = "out"]>>}
     ELSE IF c.op = "reset" THEN {<<[e |-> "rcb", k |-> s0.inv + 1], in>>}
     ELSE IF c.op = "dispatch" /\ ~s0.cur THEN
       {<<[e |-> "db", n |-> n, m |-> m, id |-> ToString(s0.q[1].id), root |-> s0.q[1].root], [s0 EXCEPT !.cur = TRUE]>>}
     ELSE {<<[e |-> "cb", n |-> n, h |-> h, m |-> m, i |-> In(h, c.i), root |-> IF h = "agg" THEN Get(s0.hist, c.i, <<>>) ELSE <<>>], in>>}

Inside(s0, n) ==
  LET c == s0.cfg[n]
      m == IF s0.q = <<>> THEN "" ELSE s0.q[1].m
      h == Handler([s0 EXCEPT !.inv = @ - 1], n)
      k == Key(n, s0.keys + 1)
      res == IF Ends(s0, n, "panic") THEN "panic" ELSE IF Ends(s0, n, "err") /\ h # "agg" THEN "err" ELSE "ok"
      back == [s0 EXCEPT !.st[n] = "run", !.res = IF res = "ok" THEN @ ELSE res, !.cur = FALSE, !.q = IF @ = <<>> THEN @ ELSE Tail(@)]
  IN IF c.op = "reset" THEN {<<[e |-> "rcbx", k |-> s0.inv, res |-> res], back>>}
     ELSE {<<[e |-> "cbx", n |-> n, h |-> h, m |-> m, i |-> In(h, c.i), res |-> res, rec |-> IF h = "agg" THEN <<k>> ELSE <<>>],
             IF h # "agg" THEN back
             ELSE [back EXCEPT !.keys = @ + 1, !.ids = @ + 1, !.q = Append(@, [m |-> k, id |-> s0.ids + 1, root |-> FALSE]),
                               !.hist = IF res = "ok" THEN Put(@, c.i, Append(Get(@, c.i, <<>>), k)) ELSE @]>>}

(* What the goroutines can do. *)
Proceed(s0) ==
  UNION {CASE s0.st[n] = "wait" -> Waiting(s0, n)
           [] s0.st[n] = "run" -> Running(s0, n)
           [] s0.st[n] = "in" -> Inside(s0, n)
           [] OTHER -> {} : n \in 1..N}

(* What is done to them, if they cannot do anything. *)
Idle(s0) == {n \in 1..N : s0.st[n] = "idle"}
Control(s0) ==
  LET go(n) == [e |-> "go", n |-> n, op |-> s0.cfg[n].op, m |-> IF Is(s0, n, "dispatch") THEN Key(n, 0) ELSE "", pre |-> s0.cfg[n].ctx = "pre"]
      called(n) == [s0 EXCEPT !.st[n] = "wait", !.can = IF s0.cfg[n].ctx = "pre" THEN @ \cup {n} ELSE @,
                              !.ids = IF Is(s0, n, "dispatch") THEN @ + 1 ELSE @, !.id[n] = s0.ids + 1]
  IN (IF Idle(s0) = {} THEN {} ELSE LET n == MinOf(Idle(s0)) IN {<<go(n), called(n), <<"start", n>>>>})
     \cup {<<[e |-> "cancel", n |-> n], [s0 EXCEPT !.can = @ \cup {n}], <<"cancel", n>>>> :
             n \in {x \in 1..N : s0.st[x] = "wait" /\ x \notin s0.can /\ ~Is(s0, x, "reset") /\ s0.lock # 0}}
     \cup {<<[e |-> "go on", n |-> n], [s0 EXCEPT !.st[n] = "in"], <<"go", n>>>> : n \in {x \in 1..N : s0.st[x] = "parked"}}

Over(s0) == \A n \in 1..N : s0.st[n] = "out"
Export == ~Over(s) \/ PrintT("SCEN " \o ToJson([ops |-> s.cfg, steps |-> tr]))

(* At most one operation is in progress, and an operation that waits can
   always be reached. *)
Exclusive == Cardinality({n \in 1..N : s.st[n] \in {"run", "in", "parked"}}) <= 1
=============================================================================
