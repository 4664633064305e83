-------------------------------- MODULE C12 --------------------------------
(* Concurrent engine operations never interleave.                          *)
(*                                                                         *)
(* Events: go (an operation is about to be called), cb and cbx (a handler  *)
(* invocation of operation n begins and ends), rcb and rcbx (one of the    *)
(* two functions that a reset calls), db (operation n begins to deliver    *)
(* message m), cancel, ret, stuck.                                         *)
EXTENDS Common

(* in      the operation that is inside a handler (0: none, -1: a reset)
   cur     the operation whose handlers ran last
   closed  operations that must not invoke handlers any more, because another
           operation's handlers ran after theirs
   ran     operations that have invoked a handler
   bad     operations one of whose handlers failed
   can     operations whose context is cancelled
   wait    of these, those that were waiting for operation in at that time
   fin     operations that have returned
   late    operations called before the last reset took effect that had not
           invoked any handler then
   ids     the messages delivered since the last reset, by ID
   hist    the events of each aggregate instance
   done    resets that have called their functions and have not returned
   pans    of these, how many panicked *)
Init == [in |-> 0, cur |-> 0, closed |-> {}, ran |-> {}, bad |-> {}, can |-> {}, wait |-> {}, fin |-> {},
         calls |-> {}, late |-> {}, ids |-> NoFun, hist |-> NoFun, done |-> 0, pans |-> 0]

(* KF2: a dispatch is given its message's ID before it waits for its turn. If a
   reset gets its turn first, IDs start again and reach that one. *)
Clash(s, e) == Get(s.ids, e.id, [m |-> e.m]).m # e.m
KF2(s, e) == \/ e.root /\ e.n \in s.late
             \/ LET x == Get(s.ids, e.id, [n |-> 0, root |-> FALSE]) IN x.root /\ x.n \in s.late
Known(s, e) == IF e.e = "db" /\ Clash(s, e) /\ KF2(s, e) THEN {"KF2"} ELSE {}

Viol(s, e) ==
  CASE e.e = "cb" ->
         Rule(s.in <= 0, "a handler was invoked while a handler of another operation was running")
         \cup Rule(s.in # -1, "a handler was invoked while the engine was being reset")
         \cup Rule(e.n \notin s.closed, "the handler invocations of two operations interleave")
         \cup Rule(e.n \notin s.fin, "a handler was invoked after its operation had returned")
         \cup Rule(e.h = "agg" => e.root = Get(s.hist, e.i, <<>>), "no sequential order of the operations explains the root given to an aggregate")
    [] e.e = "rcb" -> Rule(s.in <= 0, "a reset called its functions while a handler of an operation was running")
                      \cup Rule(s.in # -1, "two resets called their functions at the same time")
    [] e.e = "db" -> Rule(~Clash(s, e) \/ KF2(s, e), "two messages have the same ID")
    [] e.e = "ret" /\ e.op = "reset" ->
         Rule(e.res = "ok" \/ (e.res = "panic" /\ s.pans > 0), "reset panicked")
         \cup Rule(s.done > 0, "a reset returned without having called its functions")
    [] e.e = "ret" ->
         Rule(e.n \in s.wait /\ s.in # 0 => e.res = "err" /\ e.can, "an operation cancelled while waiting did not return the context's error")
         \cup Rule(e.n \in s.wait /\ s.in # 0 => e.n \notin s.ran, "an operation cancelled while waiting invoked a handler")
         \cup Rule(e.n \notin s.can /\ e.n \notin s.bad => e.res = "ok", "an operation failed although nothing went wrong")
    [] e.e = "stuck" -> {"an operation never returned"}
    [] e.e = "crash" -> {"concurrent operations crashed the process"}
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "go" -> [s EXCEPT !.calls = @ \cup {e.n}, !.can = IF e.pre THEN @ \cup {e.n} ELSE @]
    [] e.e = "cb" -> [s EXCEPT !.in = e.n, !.cur = e.n, !.ran = @ \cup {e.n},
                               !.closed = IF s.cur \in {0, e.n} THEN @ ELSE @ \cup {s.cur}]
    [] e.e = "rcb" /\ e.k = 1 ->
         [s EXCEPT !.in = -1, !.late = s.calls \ (s.ran \cup s.fin), !.ids = NoFun, !.hist = NoFun, !.done = @ + 1,
                   !.closed = @ \cup ({s.cur} \ {0}), !.cur = 0]
    [] e.e = "rcb" -> [s EXCEPT !.in = -1]
    [] e.e = "rcbx" -> [s EXCEPT !.in = 0, !.pans = IF e.res = "panic" THEN @ + 1 ELSE @]
    [] e.e = "db" -> [s EXCEPT !.ids = IF e.id \in DOMAIN @ THEN @ ELSE Put(@, e.id, [m |-> e.m, n |-> e.n, root |-> e.root])]
    [] e.e = "cbx" -> [s EXCEPT !.in = 0, !.bad = IF e.res = "ok" THEN @ ELSE @ \cup {e.n},
                                !.hist = IF e.h = "agg" /\ e.res = "ok" THEN Put(@, e.i, Get(@, e.i, <<>>) \o e.rec) ELSE @]
    [] e.e = "cancel" -> [s EXCEPT !.can = @ \cup {e.n}, !.wait = IF s.in \notin {0, e.n} /\ e.n \notin s.ran THEN @ \cup {e.n} ELSE @]
    [] e.e = "ret" /\ e.op = "reset" -> [s EXCEPT !.done = @ - 1, !.pans = IF e.res = "panic" THEN @ - 1 ELSE @, !.fin = @ \cup {e.n}]
    [] e.e = "ret" -> [s EXCEPT !.fin = @ \cup {e.n}]
    [] OTHER -> s
=============================================================================
