-------------------------------- MODULE C27 --------------------------------
(* A handler runs under the context of the operation that invoked it.      *)
EXTENDS Common

None == [v |-> "", dl |-> <<>>, done |-> FALSE]

Init == [
  cx   |-> None,    \* the context of the operation
  ctx  |-> "",      \* how it may be cancelled
  can  |-> FALSE,   \* it has been cancelled
  lax  |-> FALSE,   \* it may be cancelled at any moment
  test |-> None,    \* the context of the test
  by   |-> NoFun    \* command -> the context it was executed with
]

Given(e) == "cx" \in DOMAIN e
Parallel(e) == "par" \in DOMAIN e /\ e.par

Known(s, e) == {}

Viol(s, e) ==
  CASE e.e \in {"cb", "cbx"} /\ Given(e) ->
         Rule(e.cx.v = s.cx.v, "a handler was given a context that lacks the values of the operation's context")
         \cup Rule(e.cx.dl = s.cx.dl, "a handler was given a context with another deadline than the operation's context")
         \cup (IF s.lax THEN {}
               ELSE IF Parallel(e) THEN Rule(e.cx.done => s.ctx # "" \/ s.can, "a handler was given a context that is done although the operation's is not")
               ELSE Rule(e.cx.done => s.can, "a handler was given a context that is done although the operation's is not")
                    \cup Rule(s.can => e.cx.done, "a handler was given a context that is not done although the operation's is"))
    [] e.e = "ic" ->
         Rule(e.cx = Get(s.by, e.m, s.test), "an interceptor was given another context than the executor")
    [] e.e = "do" ->
         Rule(e.cx = s.test, "an action was given another context than the test")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "op" /\ e.op # "reset" ->
         [s EXCEPT !.cx = IF Given(e) THEN e.cx ELSE Get(s.by, e.m, s.test), !.ctx = e.ctx, !.can = (e.ctx = "pre") \/ (~Given(e) /\ Get(s.by, e.m, s.test).done)]
    [] e.e = "run" -> [s EXCEPT !.cx = e.cx, !.lax = TRUE]
    [] e.e = "begin" -> [s EXCEPT !.test = e.cx]
    [] e.e = "ex" -> [s EXCEPT !.by = Put(@, e.m, e.cx)]
    [] e.e = "nx" -> [s EXCEPT !.by = Put(@, e.p, Get(s.by, e.m, s.test))]
    [] e.e = "cancel" -> [s EXCEPT !.can = TRUE, !.test.done = TRUE]
    [] OTHER -> s
=============================================================================
