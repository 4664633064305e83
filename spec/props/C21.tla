-------------------------------- MODULE C21 --------------------------------
(* A test fails exactly when an action errors or an expectation is unmet.   *)
EXTENDS TestCommon

(* ok      the expectation has been evaluated
   why     whether a failure has been justified in this step
   pans    panics that actions of this step have raised *)
Init == [t |-> TrackInit, rep |-> 0, why |-> FALSE, pans |-> {}]

Known(s, e) == {}

Begin(s, e) ==
  LET t == s.t IN
  Rule(t.st.k \in {"prepare", "expect"} /\ Fits(NextAct(t), e), "something else was done than the next action, or an action was performed twice")
  \cup Rule(Act(t).k \notin {"call", "custom"} \/ t.fin, "an action was begun before the previous one had ended")
  \cup Rule(~t.err, "an error of an action was not reported")
  \cup Rule(t.fails = 0 \/ t.begin.stop = "cont", "an action was performed after the test had failed")
  \cup Rule(~Fits(NextAct(t), e) \/ ~Silent(t, NextAct(t)), "an action was performed that cannot be")
  \cup Rule(~StepErr(t), "an action was performed although its expectation is impossible")

Failed(s, e) ==
  LET t == s.t IN
  CASE e.e = "failnow" -> Rule(t.st.k = "expect" /\ s.rep = 1 /\ ~Eval(t, t.st.x), "the test was failed although the expectation is met")
    [] OTHER -> Rule(t.err \/ Silent(t, NextAct(t)) \/ (StepErr(t) /\ t.i = 0), "the test was failed without a reason")
                \cup Rule(~(t.err /\ Act(t).k = "custom") \/ e.tok \in s.pans, "the test was failed with another error than the action's")

Done(s, e) ==
  LET t == s.t
      n == Len(t.st.acts) IN
  CASE e.res = "panic" ->
         Rule(t.pan, "the test panicked without a reason")
    [] t.st.k = "prepare" ->
         Rule(~t.err, "an error of an action was not reported")
         \cup Rule(s.why = (t.fails > 0), "the test was not failed although an action has failed")
         \cup Rule(t.i = n \/ t.fails > 0 \/ t.abort # {}, "an action was not performed")
         \cup Rule(e.res = "ok" \/ t.fails > 0 \/ t.abort # {}, "the test was stopped without being failed")
         \cup Rule(~(t.abort = {} /\ t.fails = 0) \/ e.res = "ok", "the test did not go on")
    [] t.st.k = "expect" ->
         Rule(~t.err \/ t.abort # {}, "an error of an action was not reported")
         \cup Rule(s.rep <= 1, "reported twice")
         \cup Rule(t.fails <= 1, "the test was failed twice")
         \cup Rule(StepErr(t) => t.fails = 1 /\ t.i = 0, "an impossible expectation did not fail the test")
         \cup (IF StepErr(t) THEN {} ELSE Rule(t.i = 1 \/ (t.abort # {} /\ Silent(t, NextAct(t))), "the action was not performed"))
         \cup (IF StepErr(t) \/ t.abort # {} THEN {}
               ELSE Rule(s.rep = 1 \/ s.why, "the expectation was not evaluated")
                    \cup (IF s.rep = 1 THEN Rule((t.fails = 1) = ~Eval(t, t.st.x), "the test was not failed exactly when the expectation was unmet")
                          ELSE Rule(t.fails = 1, "the test was not failed although the action has failed")))
         \cup Rule(e.res = "ok" \/ t.fails > 0 \/ t.abort # {}, "the test was stopped without being failed")
    [] OTHER -> {}

Viol(s, e) ==
  CASE (e.e = "op" /\ Begins(s.t, e)) \/ e.e \in {"call", "do"} -> Begin(s, e)
    [] e.e = "op" -> Rule(s.t.st.k \in {"prepare", "expect"}, "something was done that is not part of an action")
    [] e.e \in {"fatal", "failnow"} -> Failed(s, e)
    [] e.e = "pnew" ->
         Rule(s.t.st.k = "expect" /\ e.bind = s.t.st.acts[1].bind, "an expectation was given the options of another action")
         \cup Rule(e.cmp = (s.t.begin.cmp # ""), "an expectation was given another comparator than the test's")
    [] e.e = "plate" -> {"an observer of a previous step was notified"}
    [] e.e \in {"pm", "pdone"} ->
         Rule(s.t.st.k = "expect" /\ \E x \in Leaves(s.t.st.x) : x.l = e.l, "an expectation of another step was used")
    [] e.e = "sat" -> Rule(s.t.st.k = "expect" /\ \E x \in Leaves(s.t.st.x) : x.l = e.l, "an expectation of another step was used")
    [] e.e = "rep" -> Rule(s.t.st.k = "expect" /\ s.t.i = 1 /\ ~s.t.err, "the expectation was evaluated without its action having been performed")
    [] e.e = "sret" /\ e.k # "sel" -> Done(s, e)
    [] OTHER -> {}

Next(s, e) ==
  [t |-> Track(s.t, e),
   rep |-> CASE e.e = "step" -> 0 [] e.e = "rep" -> s.rep + 1 [] OTHER -> s.rep,
   why |-> CASE e.e = "step" -> FALSE [] e.e \in {"fatal", "failnow"} -> TRUE [] OTHER -> s.why,
   pans |-> CASE e.e = "step" -> {} [] e.e = "dox" /\ e.tok # "" -> s.pans \cup {e.tok} [] OTHER -> s.pans]
=============================================================================
