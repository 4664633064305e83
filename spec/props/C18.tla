-------------------------------- MODULE C18 --------------------------------
(* Composed expectations have exactly their boolean meaning.                *)
EXTENDS TestCommon

(* new, done   label -> how often the expectation was set up and completed *)
Init == [t |-> TrackInit, new |-> NoFun, done |-> NoFun, rep |-> 0]

Known(s, e) == {}

Probes(t) == {x \in Leaves(t.st.x) : x.k = "probe"}
Has(t, l) == t.st.k = "expect" /\ \E x \in Probes(t) : x.l = l
Err(t, l) == (CHOOSE x \in Probes(t) : x.l = l).err

(* Statements made by the report about a node. *)
Count(t, x, ln) ==
  LET n == Len(x.kids)
      p == Cardinality(Passed(t, x)) IN
  CASE ln.out.k = "allfail" -> Rule(x.k \in {"all", "any"} /\ p = 0 /\ ln.out.a = n, "the report miscounts")
    [] ln.out.k = "nfail" -> Rule(ln.out.a = n - p, "the report miscounts")
    [] ln.out.k = "npass" -> Rule(ln.out.a = p, "the report miscounts")
    [] ln.out.k = "onepass" -> Rule(p > 0, "the report miscounts")
    [] ln.out.k = "rep" -> Rule(ln.out.a = n - p /\ ln.out.b = n /\ (p < n => ln.out.c = MinOf(DOMAIN x.kids \ Passed(t, x)) - 1),
                                "the report miscounts")
    [] OTHER -> {}

Lines(t, e) ==
  LET o == Outline(t, t.st.x, 0, FALSE) IN
  Rule(Len(o) = Len(e.lines), "the report does not show the parts of the expectation")
  \cup (IF Len(o) # Len(e.lines) THEN {} ELSE
        UNION {Rule(e.lines[j].ok = Eval(t, o[j].x), "the report marks a part with the wrong outcome")
               \cup Rule(e.lines[j].d = o[j].d, "the report shows a part in the wrong place")
               \cup (IF "kids" \in DOMAIN o[j].x /\ o[j].x.kids # <<>> THEN Count(t, o[j].x, e.lines[j]) ELSE {}) : j \in DOMAIN o})

Viol(s, e) ==
  CASE e.e = "pnew" ->
         Rule(Has(s.t, e.l), "a part of another step was set up")
         \cup Rule(Get(s.new, e.l, 0) = 0, "a part was set up twice")
         \cup Rule(s.t.i = 0, "a part was set up after the action had begun")
    [] e.e = "plate" -> {"a part was notified of a fact after it was completed"}
    [] e.e = "crash" -> {"evaluating an expectation crashed the process"}
    [] e.e = "pover" -> {"a part was notified of two facts at once"}
    [] e.e = "pdone" ->
         Rule(Has(s.t, e.l), "a part of another step was completed")
         \cup Rule(Get(s.new, e.l, 0) = 1, "completed a part that was not set up")
         \cup Rule(Get(s.done, e.l, 0) = 0, "a part was completed twice")
         \cup Rule(Ended(s.t), "a part was completed before the action ended")
         \cup Rule(e.seen = e.obs, "a part was not notified of every fact exactly once and in order")
    [] e.e = "prep" ->
         Rule(Has(s.t, e.l) /\ Get(s.done, e.l, 0) = 1, "a part was reported on before it was completed")
    [] e.e \in {"call", "do"} \/ IsOp(e, "tick") \/ IsOp(e, "dispatch") ->
         IF s.t.st.k # "expect" \/ s.t.i > 0 THEN {}
         ELSE Rule(~StepErr(s.t), "the action was performed although a part cannot be evaluated")
              \cup Rule(\A x \in Probes(s.t) : Get(s.new, x.l, 0) = 1, "the action was performed without a part of the expectation")
    [] e.e = "rep" ->
         IF s.t.st.k # "expect" THEN {"reported on something that was not expected"}
         ELSE Rule(~StepErr(s.t), "an expectation was evaluated although a part cannot be")
              \cup Rule(e.lines # <<>> /\ e.lines[1].ok = Eval(s.t, s.t.st.x), "the expectation has the wrong outcome")
              \cup Lines(s.t, e)
    [] e.e = "sret" /\ s.t.st.k = "expect" ->
         (IF StepErr(s.t)
            THEN Rule(e.res # "panic" /\ s.t.fails > 0, "the test was not failed although a part cannot be evaluated")
            ELSE (IF s.t.abort \ {"cexit"} = {}
                    THEN Rule(\A x \in Probes(s.t) : Get(s.done, x.l, 0) = 1, "a part was never completed") ELSE {})
                 \cup (IF s.rep > 0 THEN Rule((s.t.fails > 0) = ~Eval(s.t, s.t.st.x), "the test's result is not that of the expectation") ELSE {}))
    [] OTHER -> {}

Next(s, e) ==
  [t |-> Track(s.t, e),
   new |-> CASE e.e = "step" -> NoFun [] e.e = "pnew" -> Put(s.new, e.l, Get(s.new, e.l, 0) + 1) [] OTHER -> s.new,
   done |-> CASE e.e = "step" -> NoFun [] e.e = "pdone" -> Put(s.done, e.l, Get(s.done, e.l, 0) + 1) [] OTHER -> s.done,
   rep |-> CASE e.e = "step" -> 0 [] e.e = "rep" -> s.rep + 1 [] OTHER -> s.rep]
=============================================================================
