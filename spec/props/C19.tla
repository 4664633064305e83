-------------------------------- MODULE C19 --------------------------------
(* ToSatisfy() evaluates its function once, over all facts, with the        *)
(* semantics of a test.                                                     *)
EXTENDS TestCommon

Init == [t |-> TrackInit, rep |-> FALSE]

Known(s, e) == {}

Sats(t) == {x \in Leaves(t.st.x) : x.k = "sat"}
Has(t, l) == t.st.k = "expect" /\ \E x \in Sats(t) : x.l = l

Step(t, e) ==
  LET z == SatOf(t, e.l) IN
  CASE e.w = "b" ->
         Rule(Has(t, e.l), "the function of another step was called")
         \cup Rule(z.n = 0, "the function was called twice")
         \cup Rule(Ended(t), "the function was called before the action had finished")
         \cup Rule(e.seen = e.obs, "the function was not given every fact of the action, in order")
         \cup Rule(e.bind = t.st.acts[1].bind /\ e.cmp = (t.begin.cmp # ""), "the function was given other options than those in effect")
    [] e.w = "op" -> Rule(z.ph = "run", "the function went on after it was stopped")
    [] e.w = "x" -> Rule(z.ph = "run", "the function went on after it was stopped")
    [] e.w = "ask" ->
         Rule(z.ph = "run", "the function went on after it was stopped")
         \cup Rule(e.failed = z.failed, "Failed() is wrong")
         \cup Rule(e.skipped = z.skipped, "Skipped() is wrong")
    [] e.w = "c" ->
         Rule(z.ph = "stop", "a cleanup was called before the function had stopped")
         \cup Rule(z.stack # <<>> /\ z.stack[Len(z.stack)] = e.c, "a cleanup was called out of order, twice, or without being registered")
    [] OTHER -> {}

Settled(t, l) == SatOf(t, l).ph # "run" /\ SatOf(t, l).stack = <<>>

Marks(t, e) ==
  LET o == Outline(t, t.st.x, 0, FALSE) IN
  IF Len(o) # Len(e.lines) THEN {}
  ELSE UNION {IF o[j].x.k # "sat" THEN {}
              ELSE Rule(e.lines[j].ok = Eval(t, o[j].x), "a satisfaction function has the wrong outcome")
                   \cup Rule(e.lines[j].out.k = "skipped" => SatOf(t, o[j].x.l).skipped, "reported as skipped")
                   \cup Rule(e.lines[j].out.k = "failed" => SatOf(t, o[j].x.l).failed, "reported as failed") : j \in DOMAIN o}

Viol(s, e) ==
  CASE e.e = "sat" -> Step(s.t, e)
    [] e.e = "rep" /\ s.t.st.k = "expect" ->
         Rule(\A x \in Sats(s.t) : SatOf(s.t, x.l).n = 1, "the function was not called")
         \cup Rule(\A x \in Sats(s.t) : Settled(s.t, x.l), "a cleanup was not called")
         \cup Rule(s.t.abort = {}, "a panic of the function did not propagate")
         \cup Rule(e.lines # <<>> /\ e.lines[1].ok = Eval(s.t, s.t.st.x), "the expectation has the wrong outcome")
         \cup Marks(s.t, e)
    [] e.e = "sret" /\ s.t.st.k = "expect" ->
         Rule(\A x \in Sats(s.t) : Settled(s.t, x.l), "a cleanup was not called")
         \cup Rule(s.rep => (s.t.fails > 0) = ~Eval(s.t, s.t.st.x), "the test's result is not that of the expectation")
         \cup (LET P == s.t.abort \ {"exit", "cexit"} IN
               Rule((s.t.abort # {} /\ P = {} /\ ~s.t.pan) => e.res = "exit", "the goroutine was not stopped")
               \cup Rule((P # {} /\ s.t.abort = P) => e.res = "panic", "a panic of the function did not propagate")
               \cup Rule(P # {} => e.res # "ok", "a panic of the function did not propagate")
               \cup Rule((P # {} /\ e.res = "panic" /\ Act(s.t).end # "panic") => e.pan.k = "tok" /\ (e.pan.tok \in P), "the wrong panic propagated"))
         \cup Rule((s.t.abort = {} /\ ~s.t.pan /\ ~StepErr(s.t)) => \A x \in Sats(s.t) : SatOf(s.t, x.l).n = 1, "the function was not called")
         \cup Rule((s.t.abort = {} /\ ~s.t.pan) => e.res # "panic", "stopping the function has stopped something else")
         \cup Rule((s.t.abort = {} /\ s.t.fails = 0 /\ ~s.t.pan) => e.res = "ok", "stopping the function has stopped something else")
    [] OTHER -> {}

Next(s, e) == [t |-> Track(s.t, e), rep |-> CASE e.e = "step" -> FALSE [] e.e = "rep" -> TRUE [] OTHER -> s.rep]
=============================================================================
