-------------------------------- MODULE C20 --------------------------------
(* The command executor works only inside actions that support it.          *)
EXTENDS TestCommon

(* exs    id -> execution in progress: its message, whether it was started
          inside a supporting action, and the name of the interceptor in force
   asked  message -> how often its dispatch was asked for
   got    message -> how often it was dispatched
   ics    message -> how often an interceptor was called
   icr    message -> how the interceptor ended
   icopen messages whose interceptor is running
   last   message -> how its last dispatch ended *)
Init == [t |-> TrackInit, exs |-> NoFun, asked |-> NoFun, got |-> NoFun, ics |-> NoFun, icr |-> NoFun, icopen |-> {}, last |-> NoFun, cur |-> "", seen |-> {}]

Known(s, e) == {}

Bound(t) == Act(t).bind /\ ~t.fin
Icpt(t) == CASE Act(t).icpt.n = "nil" -> "" [] Act(t).icpt.n # "" -> Act(t).icpt.n [] OTHER -> t.begin.icpt.n
Routable(t, ty) == Consumers(t.app, ty) # {}

Own(t, m) == \/ (\E j \in DOMAIN t.st.acts : t.st.acts[j].k \in {"exec", "rec"} /\ t.st.acts[j].m = m)
             \/ (\E j \in DOMAIN Act(t).body : Act(t).body[j].k = "disp" /\ Act(t).body[j].m = m)

(* Does the operation enable exactly what the test's options enable? *)
TypeOn(opts, ty) == LET I == OptIdx(opts, "ty", ty) IN I = {} \/ opts[MaxOf(I)][3]
SameEn(t, en) ==
  /\ \A ty \in DOMAIN en.ty : en.ty[ty] = TypeOn(t.opts, ty)
  /\ \A n \in Names(t.app) :
       LET I == OptIdx(t.opts, "h", n)
           J == {j \in DOMAIN en.hs : en.hs[j][1] = n} IN
       (I = {} /\ J = {}) \/ (I # {} /\ \E j \in J : en.hs[j][2] = t.opts[MaxOf(I)][3])

End(s, e) ==
  LET x == s.exs[e.id]
      icr == Get(s.icr, e.m, [res |-> "none"]) IN
  IF ~x.bound
    THEN Rule(e.res = "panic", "the executor did not panic outside of a supporting action")
         \cup Rule(Get(s.got, e.m, 0) = 0, "a command was dispatched outside of a supporting action")
         \cup Rule(Get(s.ics, e.m, 0) = 0, "an interceptor was called outside of a supporting action")
  ELSE IF x.icpt # ""
    THEN Rule(Get(s.ics, e.m, 0) = 1, "the interceptor was not called exactly once")
         \cup (CASE icr.res = "ok" -> Rule(e.res = "ok", "the interceptor's result was not returned")
                 [] icr.res = "err" /\ icr.tok # "" -> Rule(e.res = "err" /\ \E j \in DOMAIN e.errs : e.errs[j].tok = icr.tok, "the interceptor's error was not returned")
                 [] icr.res = "err" -> Rule(e.res = "err" /\ e.errs = icr.errs, "the interceptor's error was not returned")
                 [] icr.res = "panic" -> Rule(e.res = "panic" /\ e.pan.k = "tok" /\ e.pan.tok = icr.tok, "the interceptor's panic did not propagate")
                 [] OTHER -> Rule(e.res = "panic", "the interceptor was abandoned without a panic"))
         \cup Rule(Get(s.got, e.m, 0) = (IF x.bad \/ ~Routable(s.t, x.t) THEN 0 ELSE Get(s.asked, e.m, 0)), "the command was not dispatched as often as the interceptor asked")
  ELSE IF x.bad \/ ~Routable(s.t, x.t)
    THEN Rule(e.res = "panic", "an invalid or unroutable command was accepted")
         \cup Rule(Get(s.got, e.m, 0) = 0, "an invalid or unroutable command was dispatched")
  ELSE Rule(Get(s.got, e.m, 0) = 1, "the command was not dispatched exactly once")
       \cup (LET r == Get(s.last, e.m, [res |-> "", errs |-> <<>>]) IN
             Rule(r.res = e.res, "the result of the dispatch was not returned")
             \cup Rule(e.res # "err" \/ r.res # "err" \/ e.errs = r.errs, "the error of the dispatch was not returned"))

Viol(s, e) ==
  CASE IsOp(e, "dispatch") ->
         IF Own(s.t, e.m) THEN {}
         ELSE Rule(Get(s.got, e.m, 0) < Get(s.asked, e.m, 0), "a command was dispatched that was not asked for")
              \cup Rule(Bound(s.t) \/ (Act(s.t).bind /\ Act(s.t).k = "call"), "a command was dispatched outside of a supporting action")
              \cup Rule(s.t.known => e.now = s.t.aclk, "a command was dispatched with another time than the action's")
              \cup Rule(SameEn(s.t, e.en), "a command was dispatched with other options than the action's")
    [] e.e = "ic" ->
         LET X == {i \in DOMAIN s.exs : s.exs[i].m = e.m /\ s.exs[i].bound} IN
         Rule(X # {}, "an interceptor was called without an execution")
         \cup Rule(\A i \in X : s.exs[i].icpt = e.n, "an interceptor was called that is not in force")
         \cup Rule(Get(s.ics, e.m, 0) = 0, "an interceptor was called twice")
    [] e.e = "exx" -> IF e.id \in DOMAIN s.exs THEN End(s, e) ELSE {}
    [] e.e = "pdone" -> Rule(e.seen = e.obs, "an observer of the action was not notified of a dispatch")
    [] e.e = "sret" /\ e.k \in {"prepare", "expect"} ->
         Rule(e.res = "panic" \/ s.t.op = "" \/ s.t.pan, "the action ended while an execution was running")
         \cup Rule(s.icopen = {}, "the action ended while an interceptor was running")
         \cup Rule(\A i \in DOMAIN s.exs : s.exs[i].bound => \/ Get(s.ics, s.exs[i].m, 0) > 0
                                                             \/ Get(s.got, s.exs[i].m, 0) > 0
                                                             \/ s.exs[i].bad \/ ~Routable(s.t, s.exs[i].t),
                   "the action ended before an execution had begun")
    [] e.e = "crash" -> {"using the executor crashed the process"}
    [] e.e = "stuck" -> {"an action that uses the executor never ended"}
    [] OTHER -> {}

Next(s, e) ==
  LET t2 == Track(s.t, e) IN
  CASE e.e = "ex" ->
         [s EXCEPT !.t = t2, !.exs = Put(@, e.id, [m |-> e.m, t |-> e.t, bad |-> e.bad, bound |-> Bound(s.t) /\ e.by # "handler",
                                                   icpt |-> IF Bound(s.t) THEN Icpt(s.t) ELSE ""]),
                   !.asked = IF Bound(s.t) /\ e.by # "handler" /\ Icpt(s.t) = "" THEN Put(@, e.m, Get(@, e.m, 0) + 1) ELSE @]
    [] e.e = "nx" -> [s EXCEPT !.t = t2, !.asked = Put(@, e.p, Get(@, e.p, 0) + 1)]
    [] e.e = "ic" -> [s EXCEPT !.t = t2, !.ics = Put(@, e.m, Get(@, e.m, 0) + 1), !.icopen = @ \cup {e.m}]
    [] e.e = "icx" -> [s EXCEPT !.t = t2, !.icr = Put(@, e.m, e), !.icopen = @ \ {e.m}]
    [] e.e = "exx" -> [s EXCEPT !.t = t2, !.exs = Del(@, {e.id}), !.icopen = @ \ {e.m}]
    [] IsOp(e, "dispatch") -> [s EXCEPT !.t = t2, !.got = Put(@, e.m, Get(@, e.m, 0) + 1), !.cur = e.m]
    [] e.e = "ret" -> [s EXCEPT !.t = t2, !.last = Put(@, s.cur, [res |-> e.res, errs |-> e.errs])]
    [] OTHER -> [s EXCEPT !.t = t2]
=============================================================================
