------------------------------- MODULE TestKit -------------------------------
(* A test as a state machine, on top of the engine (Engine.tla).             *)
(*                                                                           *)
(* A test is a program: it begins with options and goes on with steps, each   *)
(* of which prepares the application, expects something of an action, selects *)
(* handlers or uses the command executor. The state is how far the program    *)
(* has got, what the test remembers between steps (clock, options) and the    *)
(* state of its engine. As in Engine.tla a transition is one observable       *)
(* event, done by the test (or its engine) or by its environment: the program,*)
(* handlers, interceptors and the functions of expectations.                  *)
(*                                                                            *)
(*   Outs(s, x)   the events that are allowed next; x is [id, now], what the  *)
(*                engine picks and what the clock says if it is not known     *)
(*   Step(s, e)   the state after e                                           *)
(*                                                                            *)
(* Executions of commands at the same time are not part of this specification *)
(* (C12, C18 and C20 are about those): a step that has them ends it.          *)
EXTENDS TestCommon

E == INSTANCE Engine

NoEx == [m |-> "", t |-> "", bad |-> FALSE, by |-> "", id |-> 0]
Fine == [k |-> "ok", tok |-> "", errs |-> <<>>, pan |-> {}]
Fails(tok) == [Fine EXCEPT !.k = "err", !.tok = tok]
Throws(P) == [Fine EXCEPT !.k = "panic", !.pan = P]

TBoot == [
  pc   |-> "boot",
  t    |-> TrackInit,   \* what has been seen, see TestCommon
  g    |-> E!Boot,      \* the engine
  i    |-> 0,           \* the action in progress
  b    |-> 0,           \* the part of its body that is in progress
  for  |-> "",          \* what the engine's operation is for: act, disp or ex
  res  |-> Fine,        \* how the action has ended
  new  |-> {},          \* parts of the expectation that were set up
  done |-> {},          \* ... and completed
  sat  |-> "",          \* the function of ToSatisfy() that is running
  pm   |-> NoFun,       \* label -> messages that its predicate was given
  rep  |-> FALSE,       \* the report has been made
  ex   |-> NoEx,        \* the execution in progress
  left |-> <<>>,        \* what its interceptor still passes on
  er   |-> Fine,        \* how the execution ends
  hx   |-> NoEx         \* a handler is using the executor
]

CurAct(s) == IF s.i \in DOMAIN s.t.st.acts THEN s.t.st.acts[s.i] ELSE NoAct
Expecting(s) == s.t.st.k = "expect"
Probes(s) == {x \in Leaves(s.t.st.x) : x.k = "probe"}
Sats(s) == {x \in Leaves(s.t.st.x) : x.k = "sat"}
Preds(s) == {x \in Leaves(s.t.st.x) : x.k \in {"match", "only"}}
Labels(X) == {x.l : x \in X}
OneOf(X, l) == CHOOSE x \in X : x.l = l

(* The clock, as far as it is known. *)
Clock(s, x) == IF s.t.known THEN s.t.clk ELSE x.now
ActClock(s, x) == IF s.t.known THEN s.t.aclk ELSE x.now
InRange(s, at, d) == s.t.known \/ (Le(TimeAdd(s.t.begin.lo, d), at) /\ Le(at, TimeAdd(s.t.begin.hi, d)))
Unknown(s, a) == a.k = "by" /\ ~s.t.known
GoalOf(s, x, a) == IF Unknown(s, a) THEN x.now ELSE Target(s.t, a)

Routable(s, ty) == Consumers(s.t.app, ty) # {}
Backwards(s, a) ==
  \/ a.k = "to" /\ Lt(a.d, s.t.clk)
  \/ a.k = "adj" /\ s.t.adj # <<>> /\ Lt(s.t.adj.to, s.t.adj.from)

(* Things that a step may have which end the specification. *)
Beyond(s, e) ==
  \/ s.t.begin.icpt.do > 1
  \/ \E j \in DOMAIN e.acts : e.acts[j].icpt.do > 1 \/ \E k \in DOMAIN e.acts[j].body : e.acts[j].body[k].k \in {"par", "go"}

(***************************************************************************)
(* What happens without an event.                                          *)
(***************************************************************************)
(* The action has ended. *)
EndAct(s, r) == IF Expecting(s) THEN [s EXCEPT !.pc = "done", !.res = r] ELSE [s EXCEPT !.pc = "acted", !.res = r]

(* The next part of a body that does anything. *)
RECURSIVE NextBody(_, _)
NextBody(s, a) ==
  IF s.b + 1 \in DOMAIN a.body /\ a.body[s.b + 1].k = "disp" /\ ~Routable(s, a.body[s.b + 1].t)
    THEN NextBody([s EXCEPT !.b = @ + 1], a) ELSE s

Settled(s, l) == SatOf(s.t, l).ph = "stop" /\ SatOf(s.t, l).stack = <<>>
AllDone(s) == Labels(Probes(s)) \cup Labels(Sats(s)) \subseteq s.done
Aborted2(s) == s.t.abort \ {"cexit"} # {}

RECURSIVE Norm(_)
Norm(s) ==
  CASE s.pc = "new" /\ ~StepErr(s.t) /\ Labels(Probes(s)) = s.new -> Norm([s EXCEPT !.pc = "act"])
    [] s.pc = "act" /\ s.i + 1 \in DOMAIN s.t.st.acts ->
         LET a == s.t.st.acts[s.i + 1]
             z == [s EXCEPT !.i = @ + 1] IN
         CASE a.k \in {"exec", "rec"} /\ ~Uses(s.t.app, a.t) -> Norm(EndAct(z, Fails("")))
           [] a.k \in {"exec", "rec"} /\ ~Routable(s, a.t) -> Norm(EndAct(z, Throws({[k |-> "any"]})))
           [] a.k = "to" /\ Backwards(s, a) -> Norm(EndAct(z, Fails("")))
           [] OTHER -> s
    [] s.pc = "moving" /\ Backwards(s, CurAct(s)) -> Norm(EndAct(s, Fails("")))
    [] s.pc = "acted" /\ s.res.k = "ok" -> Norm([s EXCEPT !.pc = "act"])
    [] s.pc = "body" -> NextBody(s, CurAct(s))
    [] s.pc = "done" /\ s.sat # "" /\ Settled(s, s.sat) -> Norm([s EXCEPT !.sat = ""])
    [] s.pc = "done" /\ s.sat = "" /\ AllDone(s) /\ ~Aborted2(s) -> [s EXCEPT !.pc = "over"]
    [] OTHER -> s

(* Panics that end an operation which the step performs itself are seen when
   they leave the step, which is after the expectation was completed. *)
Escaping(s) ==
  /\ s.pc = "op" /\ s.for = "act" /\ Expecting(s)
  /\ s.g.pc \in {"panicked", "p.new"} /\ s.g.pan # {} /\ ~E!Par(s.g)
Alts(s) ==
  (IF Escaping(s) THEN (IF s.g.pc = "p.new" THEN {s} ELSE {}) \cup {Norm([s EXCEPT !.pc = "done", !.res = Throws(s.g.pan)])} ELSE {s})
  \cup (IF s.pc = "failed" /\ s.t.st.k = "prepare" /\ s.t.begin.stop = "cont" THEN {Norm([s EXCEPT !.pc = "act"])} ELSE {})

(***************************************************************************)
(* Events.                                                                 *)
(***************************************************************************)
Dispatch(s, m, t, now) == [e |-> "op", op |-> "dispatch", m |-> m, t |-> t, now |-> now, bad |-> FALSE, ctx |-> "", wall |-> FALSE]
Ex(s, by, b) == [e |-> "ex", by |-> by, m |-> b.m, t |-> b.t, bad |-> b.bad]
By(s) == CurAct(s).k

ActOuts(s, x) ==
  LET a == s.t.st.acts[s.i + 1] IN
  CASE a.k \in {"exec", "rec"} -> {Dispatch(s, a.m, a.t, Clock(s, x))}
    [] a.k \in {"by", "to"} -> {[e |-> "op", op |-> "tick", now |-> GoalOf(s, x, a), ctx |-> "", wall |-> FALSE]}
    [] a.k = "adj" -> {[e |-> "adj", from |-> Clock(s, x)]}
    [] a.k = "call" -> {[e |-> "call"]}
    [] OTHER -> {[e |-> "do", at |-> Clock(s, x)]}

BodyOuts(s, x) ==
  LET a == CurAct(s) IN
  IF s.b + 1 \in DOMAIN a.body
    THEN LET b == a.body[s.b + 1] IN
         CASE b.k = "ex" -> {Ex(s, By(s), b)}
           [] b.k = "disp" -> {Dispatch(s, b.m, b.t, ActClock(s, x))}
           [] b.k = "clk" -> {[e |-> "clk", at |-> Clock(s, x)]}
           [] OTHER -> {[e |-> "set"]}
    ELSE {[e |-> IF a.k = "call" THEN "callx" ELSE "dox", res |-> IF a.end = "" THEN "ok" ELSE a.end]}

(* The interceptor that is in force. *)
Icpt(s) == CASE CurAct(s).icpt.n = "nil" -> [CurAct(s).icpt EXCEPT !.n = ""] [] CurAct(s).icpt.n # "" -> CurAct(s).icpt [] OTHER -> s.t.begin.icpt
Passes(s) ==
  LET c == Icpt(s)
      own == [m |-> s.ex.m, t |-> s.ex.t, bad |-> s.ex.bad]
      oth == [m |-> s.ex.m \o "o", t |-> c.oth, bad |-> FALSE] IN
  [j \in 1..c.do |-> own] \o (IF c.oth = "" THEN <<>> ELSE <<oth>>)

IcxOuts(s) ==
  LET c == Icpt(s)
      z == [e |-> "icx", n |-> c.n, m |-> s.ex.m] IN
  CASE c.end \in {"err", "panic"} -> {z @@ [res |-> c.end]}
    [] c.end = "ok" \/ s.er.k = "ok" -> {z @@ [res |-> "ok"]}
    [] OTHER -> {z @@ [res |-> "err", errs |-> s.er.errs]}

Exx(s, x, r) == [e |-> "exx", id |-> x.id, by |-> x.by, m |-> x.m, res |-> r.k]
                @@ (IF r.k = "err" THEN [errs |-> r.errs] ELSE NoFun)
Exxs(s, x, r) == IF r.k = "panic" THEN {Exx(s, x, r) @@ [pan |-> p] : p \in r.pan} ELSE {Exx(s, x, r)}
Refused == Throws({[k |-> "any"]})

(* Completion of the expectation. *)
DoneOuts(s) ==
  IF s.sat # ""
    THEN LET z == SatOf(s.t, s.sat) IN
         IF z.ph = "run"
           THEN {[e |-> "sat", l |-> s.sat, w |-> "op"], [e |-> "sat", l |-> s.sat, w |-> "x"],
                 [e |-> "sat", l |-> s.sat, w |-> "ask", failed |-> z.failed, skipped |-> z.skipped]}
           ELSE {[e |-> "sat", l |-> s.sat, w |-> "c", c |-> z.stack[Len(z.stack)]]}
    ELSE {[e |-> "pdone", l |-> l] : l \in Labels(Probes(s)) \ s.done}
         \cup {[e |-> "sat", l |-> l, w |-> "b", bind |-> s.t.st.acts[1].bind, cmp |-> (s.t.begin.cmp # "")] : l \in Labels(Sats(s)) \ s.done}

(* How the step may end if something was thrown. *)
Thrown(s) ==
  LET P == {[k |-> "tok", tok |-> a] : a \in s.t.abort \ {"exit", "cexit"}} \cup s.res.pan IN
  {[res |-> "panic", pan |-> p] : p \in P}
  \cup (IF s.t.abort \cap {"exit", "cexit"} # {} THEN {[res |-> "exit"]} ELSE {})
(* The panic is still to be reported as the end of the engine's operation. *)
Open(s) == s.g.pc \notin {"idle", "end"}
ThrownOuts(s) ==
  {IF Open(s) /\ r.res = "panic" THEN [e |-> "ret", op |-> s.g.op.op] @@ r ELSE [e |-> "sret", k |-> s.t.st.k] @@ r : r \in Thrown(s)}

(* What the report shows. *)
Lines(s) == LET o == Outline(s.t, s.t.st.x, 0, FALSE) IN [j \in DOMAIN o |-> [d |-> o[j].d, ok |-> Eval(s.t, o[j].x)]]
Shown(s, l) == LET o == Outline(s.t, s.t.st.x, 0, FALSE) IN {o[j].inv : j \in {i \in DOMAIN o : o[i].x.k = "probe" /\ o[i].x.l = l}}
Prep(s, l) ==
  LET z == [e |-> "prep", l |-> l, tree |-> Eval(s.t, s.t.st.x)]
      v == Shown(s, l) IN
  IF v = {} THEN z ELSE z @@ [inv |-> CHOOSE b \in v : TRUE]

(* Calls of message predicates. *)
Cands(s, x) == SelectSeq(OfKind(s.t, KindOf(x.t)), LAMBDA m : Assignable(x.t, m))
Given(s, l) == Get(s.pm, l, <<>>)
(* How many messages a predicate has to be given. *)
Enough(s, x) ==
  LET ms == OfKind(s.t, KindOf(x.t))
      stop(m) == IF x.k = "match" THEN Assignable(x.t, m) /\ x.pr[m.b] = "ok" ELSE ~Assignable(x.t, m) \/ x.pr[m.b] \in {"rej", "rejk"}
      R == {j \in DOMAIN ms : stop(ms[j])}
      n == IF R = {} THEN Len(ms) ELSE MinOf(R) IN
  Len(SelectSeq(SubSeq(ms, 1, n), LAMBDA m : Assignable(x.t, m)))
Judged(s) == \A x \in Preds(s) :
  LET n == Len(Given(s, x.l))
      c == Cands(s, x) IN
  /\ n <= Len(c) /\ \A j \in 1..n : Given(s, x.l)[j] = c[j].m
  /\ n >= Enough(s, x) /\ (x.k = "match" => n = Enough(s, x))

Stopped(s) == IF s.t.begin.stop = "exit" THEN "exit" ELSE "ok"
Sret(s, res) == [e |-> "sret", k |-> s.t.st.k, res |-> res]

Outs0(s, x) ==
  CASE s.pc = "boot" -> {[e |-> "app"]}
    [] s.pc = "begin" -> {[e |-> "begin"]}
    [] s.pc = "idle" -> {[e |-> "step"], [e |-> "sel"], [e |-> "ann"], [e |-> "end"]}
    [] s.pc = "ann" -> {[e |-> "sret", k |-> "ann", res |-> "ok"]}
    [] s.pc = "sel" -> {[e |-> "sret", k |-> "sel", res |-> IF BadSel(s.t.app, s.t.sel) THEN "panic" ELSE "ok"]}
    [] s.pc = "out" -> {[e |-> "ex", by |-> "out"]}
    [] s.pc = "outed" -> {[e |-> "sret", k |-> "exec", res |-> "ok"]}
    \* The expectation is set up.
    [] s.pc = "new" ->
         {[e |-> "pnew", l |-> p.l, err |-> p.err, bind |-> s.t.st.acts[1].bind, cmp |-> (s.t.begin.cmp # "")] : p \in {q \in Probes(s) : q.l \notin s.new}}
         \cup (IF StepErr(s.t) THEN {[e |-> "fatal"]} ELSE {})
    \* Actions.
    [] s.pc = "act" /\ s.i = Len(s.t.st.acts) -> {Sret(s, "ok")}
    [] s.pc = "act" -> ActOuts(s, x)
    [] s.pc = "moving" -> {[e |-> "op", op |-> "tick", now |-> s.t.adj.to, ctx |-> "", wall |-> FALSE]}
    [] s.pc = "op" -> E!Outs(s.g, x)
    [] s.pc = "body" -> BodyOuts(s, x)
    [] s.pc = "acted" /\ s.res.k = "err" -> {[e |-> "fatal", tok |-> s.res.tok]}
    [] s.pc = "acted" -> ThrownOuts(s)
    [] s.pc = "thrown" -> {[e |-> "sret", k |-> s.t.st.k] @@ r : r \in Thrown(s)}
    [] s.pc = "failed" -> {Sret(s, Stopped(s))}
    \* The command executor.
    [] s.pc = "ex" ->
         (CASE ~CurAct(s).bind -> Exxs(s, s.ex, Refused)
            [] Icpt(s).n # "" -> {[e |-> "ic", n |-> Icpt(s).n, m |-> s.ex.m]}
            [] s.ex.bad \/ ~Routable(s, s.ex.t) -> Exxs(s, s.ex, Refused)
            [] OTHER -> {Dispatch(s, s.ex.m, s.ex.t, ActClock(s, x))})
    [] s.pc = "ic" /\ s.left # <<>> -> {[e |-> "nx", m |-> s.ex.m, p |-> Head(s.left).m, t |-> Head(s.left).t]}
    [] s.pc = "ic" -> IcxOuts(s)
    [] s.pc = "nx" ->
         (IF Head(s.left).bad \/ ~Routable(s, Head(s.left).t) THEN Exxs(s, s.ex, Refused)
          ELSE {Dispatch(s, Head(s.left).m, Head(s.left).t, ActClock(s, x))})
    [] s.pc = "exx" -> Exxs(s, s.ex, s.er)
    \* The expectation is completed and judged.
    [] s.pc = "done" /\ s.sat = "" /\ Aborted2(s) -> DoneOuts(s) \cup ThrownOuts(s)
    [] s.pc = "done" -> DoneOuts(s)
    [] s.pc = "over" /\ s.res.k = "err" -> {[e |-> "fatal", tok |-> s.res.tok]}
    [] s.pc = "over" /\ (s.res.k # "ok" \/ s.t.abort # {}) -> ThrownOuts(s)
    [] s.pc = "over" /\ s.rep /\ Eval(s.t, s.t.st.x) -> {Sret(s, "ok")}
    [] s.pc = "over" /\ s.rep -> {[e |-> "failnow"]}
    [] s.pc = "over" -> {Prep(s, l) : l \in Labels(Probes(s))} \cup (IF Judged(s) THEN {[e |-> "rep", lines |-> Lines(s)]} ELSE {})
    [] OTHER -> {}

(* A handler tries to use the executor, although it may not. *)
InHandler(s) == s.pc = "op" /\ s.g.pc \in {"in", "j.in", "t.in"}
Outs(s, x) ==
  IF s.hx # NoEx THEN Exxs(s, s.hx, Refused)
  ELSE UNION {Outs0(a, x) \cup (IF InHandler(a) THEN {[e |-> "ex", by |-> "handler"]} ELSE {}) : a \in Alts(s)}

(* When a predicate is called is its own affair, as long as it is during the
   action or when it is completed. *)
Noise(s, e) ==
  \/ e.e = "pm" /\ Expecting(s) /\ e.l \in Labels(Preds(s)) /\ s.pc \in {"op", "body", "done", "over", "ex", "ic", "nx", "exx"}
  \/ s.pc = "op" /\ s.hx = NoEx /\ E!Noise(s.g, e)
  \/ s.pc = "off"

(* Does the operation enable exactly what the test's options enable? *)
TypeOn(opts, ty) == LET I == OptIdx(opts, "ty", ty) IN I = {} \/ opts[MaxOf(I)][3]
SameEn(t, en) ==
  /\ \A ty \in DOMAIN en.ty : en.ty[ty] = TypeOn(t.opts, ty)
  /\ \A n \in Names(t.app) :
       LET I == OptIdx(t.opts, "h", n)
           J == {j \in DOMAIN en.hs : en.hs[j][1] = n} IN
       (I = {} /\ J = {}) \/ (I # {} /\ \E j \in J : en.hs[j][2] = t.opts[MaxOf(I)][3])

Fits2(o, e, k) ==
  CASE k = "pan" -> \/ o.pan.k = "any"
                    \/ \A f \in DOMAIN o.pan : f \in DOMAIN e.pan /\ e.pan[f] = o.pan[f]
    [] k = "lines" -> /\ Len(o.lines) = Len(e.lines)
                      /\ \A j \in DOMAIN o.lines : e.lines[j].d = o.lines[j].d /\ e.lines[j].ok = o.lines[j].ok
    [] k = "tok" /\ o.e = "fatal" -> o.tok \in {"", e.tok}
    [] OTHER -> e[k] = o[k]
Match(o, e) == \A k \in DOMAIN o : k \in DOMAIN e /\ Fits2(o, e, k)

Allowed(s, e, x) ==
  \/ Noise(s, e)
  \/ /\ \E o \in Outs(s, x) : Match(o, e)
     /\ e.e = "op" => SameEn(s.t, e.en)
     \* The clock has never been seen.
     /\ (IsOp(e, "tick") /\ s.pc = "act" /\ s.t.st.acts[s.i + 1].k = "by") => InRange(s, e.now, s.t.st.acts[s.i + 1].d)
     /\ IsOp(e, "dispatch") => InRange(s, e.now, <<0, 0>>)
     /\ e.e \in {"do", "clk"} => InRange(s, e.at, <<0, 0>>)
     /\ e.e = "adj" => InRange(s, e.from, <<0, 0>>)

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
With(s, e) == IF e.e = "op" THEN [e EXCEPT !.opts = s.t.opts] ELSE e
Engine(s, e, x) == [s EXCEPT !.g = E!Step(@, With(s, e), x)]
Idle(s) == [s EXCEPT !.g = [@ EXCEPT !.pc = "idle"]]

StartOp(s, e, x) ==
  LET z == Engine(s, e, x) IN
  CASE s.pc = "act" -> [z EXCEPT !.pc = "op", !.for = "act", !.i = @ + 1]
    [] s.pc = "moving" -> [z EXCEPT !.pc = "op", !.for = "act"]
    [] s.pc = "body" -> [z EXCEPT !.pc = "op", !.for = "disp"]
    [] OTHER -> [z EXCEPT !.pc = "op", !.for = "ex"]

Tok1(e) == IF e.errs = <<>> THEN "" ELSE e.errs[1].tok
EndOp(s, e, x) ==
  LET z == Engine(s, e, x)
      r == CASE e.res = "ok" -> Fine [] e.res = "err" -> [Fails(Tok1(e)) EXCEPT !.errs = e.errs] [] OTHER -> Throws({e.pan}) IN
  CASE s.for = "act" -> EndAct(z, r)
    [] s.for = "disp" -> [z EXCEPT !.pc = "body", !.b = @ + 1]
    [] s.left # <<>> /\ r.k # "panic" -> [z EXCEPT !.pc = "ic", !.left = Tail(@), !.er = r]
    [] OTHER -> [z EXCEPT !.pc = "exx", !.er = r]

Ended2(s, e) ==
  CASE e.res = "ok" -> EndAct(s, Fine)
    [] e.res = "err" -> EndAct(s, Fails(e.tok))
    [] e.res = "panic" -> EndAct(s, Throws({[k |-> "tok", tok |-> e.tok]}))
    [] OTHER -> EndAct(s, [Fine EXCEPT !.k = "exit"])

Intercepted(s, e) ==
  [s EXCEPT !.pc = "exx",
            !.er = CASE e.res = "ok" -> Fine
                     [] e.res = "panic" -> Throws({[k |-> "tok", tok |-> e.tok]})
                     [] e.errs # <<>> -> [Fine EXCEPT !.k = "err", !.errs = e.errs]
                     [] OTHER -> [Fine EXCEPT !.k = "err", !.errs = <<[h |-> "", ht |-> "", tok |-> e.tok]>>]]

NewStep(s, e) ==
  LET z == [s EXCEPT !.i = 0, !.b = 0, !.for = "", !.res = Fine, !.new = {}, !.done = {}, !.sat = "", !.pm = NoFun, !.rep = FALSE,
                     !.ex = NoEx, !.left = <<>>, !.er = Fine, !.hx = NoEx] IN
  CASE Beyond(s, e) -> [z EXCEPT !.pc = "off"]
    [] e.k = "exec" -> [z EXCEPT !.pc = "out"]
    [] e.k = "expect" -> [z EXCEPT !.pc = "new"]
    [] OTHER -> [z EXCEPT !.pc = "act"]

Go(s, e, x) ==
  CASE e.e = "app" -> [Engine(s, e, x) EXCEPT !.pc = "begin"]
    [] e.e = "begin" -> [s EXCEPT !.pc = "idle"]
    [] e.e = "end" -> [s EXCEPT !.pc = "end"]
    [] e.e \in {"sel", "ann"} -> [s EXCEPT !.pc = e.e]
    [] e.e = "step" -> NewStep(s, e)
    [] e.e = "sret" -> [Idle(s) EXCEPT !.pc = "idle"]
    [] e.e = "pnew" -> [s EXCEPT !.new = @ \cup {e.l}]
    [] e.e = "fatal" -> [s EXCEPT !.pc = "failed", !.res = Fine]
    [] e.e = "failnow" -> [s EXCEPT !.pc = "failed"]
    [] e.e = "op" -> StartOp(s, e, x)
    [] e.e = "ret" /\ s.pc = "op" -> EndOp(s, e, x)
    [] e.e = "ret" -> [Idle(s) EXCEPT !.pc = "thrown"]
    [] e.e = "adj" -> [s EXCEPT !.pc = "moving", !.i = @ + 1]
    [] e.e \in {"call", "do"} -> [s EXCEPT !.pc = "body", !.i = @ + 1, !.b = 0]
    [] e.e \in {"callx", "dox"} -> Ended2(s, e)
    [] e.e \in {"clk", "set"} -> [s EXCEPT !.b = @ + 1]
    [] e.e = "ex" /\ e.by = "handler" -> [s EXCEPT !.hx = [m |-> e.m, t |-> e.t, bad |-> e.bad, by |-> e.by, id |-> e.id]]
    [] e.e = "ex" -> [s EXCEPT !.pc = IF e.by = "out" THEN "exx" ELSE "ex", !.er = Refused, !.left = <<>>,
                               !.ex = [m |-> e.m, t |-> e.t, bad |-> e.bad, by |-> e.by, id |-> e.id]]
    [] e.e = "exx" /\ s.hx # NoEx -> [s EXCEPT !.hx = NoEx]
    [] e.e = "exx" /\ e.by = "out" -> [s EXCEPT !.pc = "outed", !.ex = NoEx]
    [] e.e = "exx" -> [s EXCEPT !.pc = "body", !.b = @ + 1, !.ex = NoEx, !.left = <<>>]
    [] e.e = "ic" -> [s EXCEPT !.pc = "ic", !.left = Passes(s), !.er = Fine]
    [] e.e = "nx" -> [s EXCEPT !.pc = "nx"]
    [] e.e = "icx" -> Intercepted(s, e)
    [] e.e = "pdone" -> [s EXCEPT !.done = @ \cup {e.l}]
    [] e.e = "sat" -> [s EXCEPT !.sat = e.l, !.done = @ \cup {e.l}]
    [] e.e = "rep" -> [s EXCEPT !.rep = TRUE]
    [] e.e = "prep" -> s
    [] s.pc = "op" -> Engine(s, e, x)
    [] OTHER -> s

Step(s, e, x) ==
  IF s.pc = "off" THEN s
  ELSE IF e.e = "pm" THEN [s EXCEPT !.pm = Put(@, e.l, Append(Get(@, e.l, <<>>), e.m))]
  ELSE LET as == Alts(s)
           a == IF Cardinality(as) = 1 \/ Noise(s, e) THEN CHOOSE z \in as : Noise(s, e) => z.pc = s.pc
                ELSE CHOOSE z \in as : \E o \in Outs0(z, x) : Match(o, e)
           n == Go(a, e, x)
       IN  Norm([n EXCEPT !.t = Track(s.t, e)])
=============================================================================
