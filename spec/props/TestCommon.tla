----------------------------- MODULE TestCommon -----------------------------
(* What the automata of the test layer share. Besides the events of the     *)
(* engine (see Common) a trace of a test contains:                          *)
(*                                                                          *)
(*   begin  a test has begun: start, lo, hi, opts, cmp, icpt, stop          *)
(*   sel    handlers are enabled or disabled                                *)
(*   step   Prepare() or Expect() is called: acts (actions), x (expectation)*)
(*   sret   ... and has returned, panicked or stopped the goroutine         *)
(*   call, callx    the function of a Call() action                         *)
(*   do, dox        the Do() method of a custom action                      *)
(*   adj, clk, set  an adjustment, a look at, or a change of the clock      *)
(*   ex, exx        use of the command executor                             *)
(*   ic, icx, nx    an interceptor, and its use of the next executor        *)
(*   pnew, pdone, prep, plate, pover   a scripted expectation               *)
(*   pm     a message predicate is called                                   *)
(*   sat    what the function of a ToSatisfy() expectation does             *)
(*   fatal, failnow, rep   calls on the TestingT                            *)
EXTENDS Common

Commands == {"C0", "C1", "C2", "C3", "C4", "C5", "C6", "C*"}
KindOf(t) == IF t \in Commands THEN "c" ELSE "e"
IsAny(t) == t \in {"C*", "E*"}

TimeAdd(a, b) == LET n == a[2] + b[2] IN
                 IF n >= 1000000000 THEN <<a[1] + b[1] + 1, n - 1000000000>> ELSE <<a[1] + b[1], n>>

NoStep == [k |-> "", acts |-> <<>>, x |-> [k |-> ""], n |-> 0]
NoAct == [k |-> "", m |-> "", t |-> "", bind |-> FALSE, end |-> "", d |-> <<0, 0>>, body |-> <<>>,
          icpt |-> [n |-> "", do |-> 0, oth |-> "", end |-> ""]]

(* opts   operation options of the test, in order
   st     the step in progress
   i      number of its actions that have begun
   clk    the virtual clock, exactly if known, else its lower bound
   aclk   the virtual clock when the action in progress began
   op     the engine operation in progress
   err    the action in progress has returned an error
   pan    something in this step has panicked
   prod   messages produced in this step, in order
   eng    names of the handlers that were given a message in this step
   en     what the last dispatch enabled
   fails  failures reported to the TestingT in this step
   sat    label -> state of a satisfaction function
   sel    the selection in progress
   fin    the function of a custom or call action has stopped *)
TrackInit == [app |-> EmptyApp, begin |-> <<>>, opts |-> <<>>, st |-> NoStep, i |-> 0, clk |-> <<0, 0>>, known |-> FALSE,
          aclk |-> <<0, 0>>, op |-> "", err |-> FALSE, pan |-> FALSE, prod |-> <<>>, eng |-> {}, en |-> <<>>,
          fails |-> 0, sat |-> NoFun, sel |-> <<>>, fin |-> FALSE, adj |-> <<>>, abort |-> {}]

Act(t) == IF t.i \in DOMAIN t.st.acts THEN t.st.acts[t.i] ELSE NoAct
NextAct(t) == IF (t.i + 1) \in DOMAIN t.st.acts THEN t.st.acts[t.i + 1] ELSE NoAct
(* Were commands executed concurrently? *)
Conc(t) == \E j \in DOMAIN t.st.acts : \E i \in DOMAIN t.st.acts[j].body : t.st.acts[j].body[i].k = "par"
Moves(a) == a.k \in {"by", "to", "adj"}

(* Does this event show that the next action has begun? *)
Begins(t, e) ==
  CASE e.e = "op" /\ e.op = "tick" -> TRUE
    [] e.e = "op" -> ~(Act(t).k = "call" \/ (Act(t).k = "custom" /\ ~t.fin)) \/ (NextAct(t).k \in {"exec", "rec"} /\ NextAct(t).m = e.m)
    [] e.e \in {"call", "do"} -> TRUE
    [] OTHER -> FALSE
Fits(a, e) ==
  CASE e.e = "op" /\ e.op = "tick" -> Moves(a)
    [] e.e = "op" -> a.k \in {"exec", "rec"} /\ a.m = e.m
    [] e.e = "call" -> a.k = "call"
    [] e.e = "do" -> a.k = "custom"
    [] OTHER -> FALSE

(* Actions that fail before they have any visible effect. *)
Uses(app, ty) == \E j \in DOMAIN app.hs : ty \in Ran(app.hs[j].c) \cup Ran(app.hs[j].p)
Silent(t, a) ==
  \/ a.k \in {"exec", "rec"} /\ ~Uses(t.app, a.t)
  \/ a.k = "to" /\ Lt(a.d, t.clk)
  \/ a.k = "adj" /\ t.adj # <<>> /\ Lt(t.adj.to, t.adj.from)

(* The clock after a movement of time. *)
Target(t, a) ==
  CASE a.k = "by" -> TimeAdd(t.clk, a.d)
    [] a.k = "to" -> a.d
    [] OTHER -> IF t.adj = <<>> THEN <<0, 0>> ELSE t.adj.to

SatNew == [ph |-> "idle", stack |-> <<>>, failed |-> FALSE, skipped |-> FALSE, n |-> 0]
SatOf(t, l) == Get(t.sat, l, SatNew)
FailOps == {"fail", "error", "errorf"}
StopOps == {"failnow", "fatal", "fatalf"}
SkipOps == {"skip", "skipnow", "skipf"}
AbortOps == {"panic", "goexit"}
SatNext(z, e) ==
  CASE e.w = "b" -> [z EXCEPT !.ph = "run", !.n = @ + 1]
    [] e.w = "x" -> [z EXCEPT !.ph = "stop"]
    [] e.w = "c" -> [z EXCEPT !.ph = "run", !.stack = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, Len(@) - 1)]
    [] e.w = "op" /\ e.o \in FailOps -> [z EXCEPT !.failed = TRUE]
    [] e.w = "op" /\ e.o \in StopOps -> [z EXCEPT !.failed = TRUE, !.ph = "stop"]
    [] e.w = "op" /\ e.o \in SkipOps -> [z EXCEPT !.skipped = TRUE, !.ph = "stop"]
    [] e.w = "op" /\ e.o \in AbortOps -> [z EXCEPT !.ph = "stop"]
    [] e.w = "op" /\ e.o = "cleanup" -> [z EXCEPT !.stack = Append(@, e.c)]
    [] OTHER -> z

(* Expectations that cannot be evaluated. *)
MessageLeaf(x) == x.k \in {"eq", "typ", "match", "only"}
Impossible(t, bind, ty) ==
  ~IsAny(ty) /\ \/ ~Uses(t.app, ty)
                \/ ~bind /\ ~ \E j \in DOMAIN t.app.hs : ty \in Ran(t.app.hs[j].p)
RECURSIVE HasErr(_, _, _)
HasErr(t, bind, x) ==
  CASE x.k = "probe" -> x.err
    [] x.k = "nil" -> TRUE
    [] MessageLeaf(x) -> Impossible(t, bind, x.t)
    [] x.k = "sat" -> FALSE
    [] OTHER -> \E j \in DOMAIN x.kids : HasErr(t, bind, x.kids[j])
StepErr(t) == t.st.k = "expect" /\ HasErr(t, t.st.acts[1].bind, t.st.x)

(* Options after a selection. *)
Hits(app, e) ==
  LET ok(n) == ~e.like \/ ~HOf(app, n).dis
      S == {n \in UNION {Ran(e.hits[j]) : j \in DOMAIN e.hits} : ok(n)} IN S
BadSel(app, e) ==
  IF e.like THEN \E j \in DOMAIN e.hits : \A n \in Ran(e.hits[j]) : HOf(app, n).dis
  ELSE \E j \in DOMAIN e.hits : e.hits[j] = <<>> \/ (e.en /\ HOf(app, e.hits[j][1]).dis)
RECURSIVE SetToOpts(_, _)
SetToOpts(S, en) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<<<"h", x, en>>>> \o SetToOpts(S \ {x}, en)

BaseOpts == <<<<"ty", "projection", FALSE>>, <<"ty", "integration", FALSE>>>>

Note(t, e, h, ht) == [t |-> e.t, m |-> e.m, b |-> e.b, h |-> h, ht |-> ht, k |-> IF e.t \in Commands THEN "c" ELSE "e"]

Track(t, e) ==
  CASE e.e = "app" -> [t EXCEPT !.app = e]
    [] e.e = "begin" -> [t EXCEPT !.begin = e, !.opts = BaseOpts \o e.opts,
                                  !.clk = IF e.start = <<>> THEN e.lo ELSE e.start, !.known = e.start # <<>>]
    [] e.e = "sel" -> [t EXCEPT !.sel = e]
    [] e.e = "step" -> [t EXCEPT !.st = e, !.i = 0, !.op = "", !.err = FALSE, !.pan = FALSE, !.prod = <<>>, !.eng = {}, !.en = <<>>,
                                 !.fails = 0, !.sat = NoFun, !.fin = FALSE, !.adj = <<>>, !.abort = {}, !.aclk = t.clk]
    [] e.e = "sret" /\ e.k = "sel" ->
         [t EXCEPT !.sel = <<>>, !.opts = IF e.res = "ok" /\ t.sel # <<>> THEN @ \o SetToOpts(Hits(t.app, t.sel), t.sel.en) ELSE @]
    [] e.e = "sret" -> [t EXCEPT !.st = NoStep, !.i = 0, !.op = ""]
    [] e.e = "op" ->
         LET b == Begins(t, e)
             i2 == IF b THEN t.i + 1 ELSE t.i
             a == IF i2 \in DOMAIN t.st.acts THEN t.st.acts[i2] ELSE NoAct IN
         [t EXCEPT !.i = i2, !.op = e.op, !.err = FALSE, !.fin = IF b THEN FALSE ELSE @, !.adj = <<>>,
                   !.clk = IF b \/ ~t.known THEN e.now ELSE @, !.known = TRUE, !.aclk = IF b \/ ~t.known THEN e.now ELSE @,
                   !.en = IF e.op = "dispatch" THEN e.en ELSE @,
                   !.prod = IF e.op = "dispatch" /\ ~b /\ a.bind THEN Append(@, Note(t, e, "", "")) ELSE @]
    [] e.e = "ret" -> [t EXCEPT !.op = "", !.err = @ \/ (e.res = "err" /\ Act(t).k \notin {"call", "custom"}), !.pan = @ \/ e.res = "panic"]
    [] e.e = "so" /\ e.ok /\ e.o \in {"rec", "exec", "sched"} ->
         [t EXCEPT !.prod = Append(@, [t |-> e.t, m |-> e.p, b |-> e.b, h |-> e.h, ht |-> e.ht,
                                       k |-> IF e.o = "rec" THEN "e" ELSE IF e.o = "exec" THEN "c" ELSE "t"])]
    [] e.e = "cbx" /\ e.res \in {"panic", "unexp"} -> [t EXCEPT !.pan = TRUE]
    [] e.e = "cb" /\ e.w = "applypanic" -> [t EXCEPT !.pan = TRUE]
    [] IsFact(e, "hb") -> [t EXCEPT !.eng = @ \cup {e.h}]
    [] e.e = "call" -> [t EXCEPT !.i = @ + 1, !.err = FALSE, !.fin = FALSE, !.aclk = t.clk, !.adj = <<>>]
    [] e.e = "callx" -> [t EXCEPT !.fin = TRUE, !.pan = @ \/ e.res = "panic", !.abort = IF e.res = "exit" THEN @ \cup {"cexit"} ELSE @]
    [] e.e = "do" -> [t EXCEPT !.i = @ + 1, !.err = FALSE, !.fin = FALSE, !.clk = e.at, !.known = TRUE, !.aclk = e.at, !.adj = <<>>]
    [] e.e = "dox" -> [t EXCEPT !.fin = TRUE, !.err = e.res = "err", !.pan = @ \/ e.res = "panic"]
    [] e.e = "set" -> [t EXCEPT !.clk = e.at]
    [] e.e = "adj" -> [t EXCEPT !.adj = e, !.clk = e.from, !.known = TRUE]
    [] e.e \in {"fatal", "failnow"} ->
         [t EXCEPT !.fails = @ + 1,
                   !.err = FALSE,
                   !.i = IF ~t.err /\ e.e = "fatal" /\ ~StepErr(t) /\ Silent(t, NextAct(t)) THEN @ + 1 ELSE @,
                   !.adj = <<>>]
    [] e.e = "sat" ->
         [t EXCEPT !.sat = Put(@, e.l, SatNext(SatOf(t, e.l), e)),
                   !.pan = @ \/ (e.w = "op" /\ e.o = "panic"),
                   !.abort = IF e.w = "op" /\ e.o \in AbortOps THEN @ \cup {IF e.o = "panic" THEN e.tok ELSE "exit"} ELSE @]
    [] OTHER -> t

(* Has the action of this step come to its end? *)
Ended(t) ==
  /\ t.op = "" \/ t.pan
  /\ Act(t).k \in {"call", "custom"} => t.fin
  /\ t.i = 1 \/ Silent(t, NextAct(t))

(* Outcomes of expectations. *)
OfKind(t, k) == SelectSeq(t.prod, LAMBDA m : m.k = k)
Assignable(ty, m) == IsAny(ty) \/ ty = m.t
Same(t, x, m) == m.t = x.t /\ m.b = x.b /\ (t.begin.cmp = "body" \/ m.m = x.m)

RECURSIVE Eval(_, _)
Passed(t, x) == {j \in DOMAIN x.kids : Eval(t, x.kids[j])}
Eval(t, x) ==
  CASE x.k = "eq" -> \E j \in DOMAIN t.prod : t.prod[j].k # "t" /\ Same(t, x, t.prod[j])
    [] x.k = "typ" -> \E j \in DOMAIN t.prod : t.prod[j].t = x.t
    [] x.k = "match" -> \E j \in DOMAIN t.prod :
                          LET m == t.prod[j] IN m.k = KindOf(x.t) /\ Assignable(x.t, m) /\ x.pr[m.b] = "ok"
    [] x.k = "only" -> \A j \in DOMAIN t.prod :
                          LET m == t.prod[j] IN m.k = KindOf(x.t) => Assignable(x.t, m) /\ x.pr[m.b] \in {"ok", "ign"}
    [] x.k = "probe" -> x.ok
    [] x.k = "sat" -> SatOf(t, x.l).skipped \/ ~SatOf(t, x.l).failed
    [] x.k \in {"all", "rep"} -> Passed(t, x) = DOMAIN x.kids
    [] x.k = "any" -> Passed(t, x) # {}
    [] x.k = "none" -> Passed(t, x) = {}
    [] x.k = "not" -> Passed(t, x) = {}
    [] OTHER -> FALSE

RECURSIVE Leaves(_)
Leaves(x) == IF x.k \in {"all", "any", "none", "not", "rep"} THEN UNION {Leaves(x.kids[j]) : j \in DOMAIN x.kids} ELSE {x}

(* The outline of the report. *)
RECURSIVE Outline(_, _, _, _), Outlines(_, _, _, _)
Outlines(t, xs, d, inv) == IF xs = <<>> THEN <<>> ELSE Outline(t, xs[1], d, inv) \o Outlines(t, Tail(xs), d, inv)
Outline(t, x, d, inv) ==
  CASE x.k \in {"all", "any"} /\ Len(x.kids) = 1 -> Outline(t, x.kids[1], d, inv)
    [] x.k \in {"all", "any"} -> <<[x |-> x, d |-> d, inv |-> inv]>> \o Outlines(t, x.kids, d + 1, inv)
    [] x.k = "none" -> <<[x |-> x, d |-> d, inv |-> inv]>> \o Outlines(t, x.kids, d + 1, ~inv)
    [] x.k = "rep" ->
         LET F == DOMAIN x.kids \ Passed(t, x) IN
         <<[x |-> x, d |-> d, inv |-> inv]>>
           \o (IF F = {} THEN <<>> ELSE Outline(t, x.kids[MinOf(F)], d + 1, inv))
    [] OTHER -> <<[x |-> x, d |-> d, inv |-> inv]>>
=============================================================================
