-------------------------------- MODULE C17 --------------------------------
(* Message expectations pass exactly when the action produced a match.      *)
EXTENDS TestCommon

(* pm   label -> messages that its predicate has been given *)
Init == [t |-> TrackInit, pm |-> NoFun, rep |-> FALSE]

Known(s, e) == {}

LeafOf(t, l) == CHOOSE x \in Leaves(t.st.x) : x.l = l
Cands(t, x) == SelectSeq(OfKind(t, KindOf(x.t)), LAMBDA m : Assignable(x.t, m))
Keys(ms) == [j \in DOMAIN ms |-> ms[j].m]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* How many candidates have to be shown to the predicate. *)
Until(t, x) ==
  LET c == Cands(t, x)
      A == {j \in DOMAIN c : x.pr[c[j].b] = "ok"} IN
  IF A = {} THEN Len(c) ELSE MinOf(A)
UntilReject(t, x) ==
  LET ms == OfKind(t, KindOf(x.t))
      R == {j \in DOMAIN ms : ~Assignable(x.t, ms[j]) \/ x.pr[ms[j].b] \in {"rej", "rejk"}}
      stop == IF R = {} THEN Len(ms) ELSE MinOf(R) IN
  Len(SelectSeq(SubSeq(ms, 1, stop), LAMBDA m : Assignable(x.t, m)))

Calls(t, pm, x) ==
  LET got == Get(pm, x.l, <<>>)
      all == Keys(Cands(t, x))
      pass == {m.m : m \in {c \in Ran(Cands(t, x)) : x.pr[c.b] = "ok"}}
      settled == {j \in DOMAIN got : got[j] \in pass} IN
  CASE Conc(t) /\ x.k \in {"match", "only"} -> \* the order of messages of different dispatches is not known
         Rule(Ran(got) \subseteq Ran(all) /\ Len(got) <= Len(all), "a predicate was called for something else")
         \cup Rule(\A m \in Ran(got) : Cardinality({j \in DOMAIN got : got[j] = m}) <= Cardinality({j \in DOMAIN all : all[j] = m}),
                   "a predicate was called twice for the same message")
         \cup Rule((x.k = "match" /\ pass = {}) => Len(got) = Len(all), "a predicate was not called for each message")
         \cup Rule((x.k = "match" /\ settled # {}) => settled = {Len(got)}, "a predicate was called after the outcome was settled")
         \cup Rule((x.k = "only" /\ Eval(t, x)) => Len(got) = Len(all), "a predicate was not called for each message")
    [] x.k = "match" ->
         Rule(got = SubSeq(all, 1, Until(t, x)), "a predicate was not called once for each message, in order, until one was accepted")
    [] x.k = "only" ->
         Rule(Prefix(got, all), "a predicate was not called once for each message, in order")
         \cup Rule(Len(got) >= UntilReject(t, x), "a predicate was not called for each message")
    [] OTHER -> {}

Marks(t, e) ==
  LET o == Outline(t, t.st.x, 0, FALSE) IN
  IF Len(o) # Len(e.lines) THEN {}
  ELSE UNION {IF MessageLeaf(o[j].x) THEN Rule(e.lines[j].ok = Eval(t, o[j].x), "a message expectation has the wrong outcome") ELSE {} : j \in DOMAIN o}

Viol(s, e) ==
  CASE e.e = "pm" ->
         Rule(s.t.st.k = "expect" /\ \E x \in Leaves(s.t.st.x) : x.l = e.l, "a predicate of another step was called")
         \cup Rule(s.t.op # "" \/ s.t.i > 0, "a predicate was called before the action")
    [] e.e = "rep" ->
         Rule(s.t.st.k = "expect", "reported on something that was not expected")
         \cup (IF s.t.st.k # "expect" THEN {} ELSE
               Rule(e.lines # <<>> /\ e.lines[1].ok = Eval(s.t, s.t.st.x), "the expectation has the wrong outcome")
               \cup Marks(s.t, e))
    [] e.e = "sret" /\ s.t.st.k = "expect" /\ s.rep ->
         Rule(e.res = (IF Eval(s.t, s.t.st.x) \/ s.t.begin.stop = "cont" THEN "ok" ELSE "exit"), "the test did not end as the expectation says")
         \cup Rule((s.t.fails > 0) = ~Eval(s.t, s.t.st.x), "the test's result is not that of the expectation")
         \cup UNION {Calls(s.t, s.pm, x) : x \in Leaves(s.t.st.x)}
    [] OTHER -> {}

Next(s, e) ==
  [t |-> Track(s.t, e),
   pm |-> CASE e.e = "step" -> NoFun
            [] e.e = "pm" -> Put(s.pm, e.l, Append(Get(s.pm, e.l, <<>>), e.m))
            [] OTHER -> s.pm,
   rep |-> CASE e.e = "step" -> FALSE [] e.e = "rep" -> TRUE [] OTHER -> s.rep]
=============================================================================
