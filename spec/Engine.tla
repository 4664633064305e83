------------------------------- MODULE Engine -------------------------------
(* The engine as a state machine.                                          *)
(*                                                                         *)
(* The state is the application, what the engine remembers between         *)
(* operations (aggregate histories, process instances, pending timeouts,   *)
(* compaction times, envelopes) and how far the operation in progress has  *)
(* got. A transition is one observable event. Events are either done by    *)
(* the engine (facts, calls of handler methods, results of operations) or  *)
(* by its environment (operations, what a handler returns, the calls it    *)
(* makes to its scope).                                                    *)
(*                                                                         *)
(*   Outs(s, x)   the events that are allowed next. Where an event is done *)
(*                by the engine every field that matters is given; where   *)
(*                the environment chooses, the chosen fields are left out. *)
(*                x is [id, now]: the ID that the engine picks for a new   *)
(*                message and the clock reading of an operation.           *)
(*   Step(s, e)   the state after e.                                       *)
(*                                                                         *)
(* C26 uses this to decide whether a recorded trace is a behaviour of the  *)
(* engine; EngineGen uses it to generate behaviours.                       *)
EXTENDS Common

Boot == [
  pc    |-> "boot",
  app   |-> EmptyApp,
  \* Remembered between operations.
  hist  |-> NoFun,      \* <<handler, instance>> -> events of an aggregate
  live  |-> NoFun,      \* <<handler, instance>> -> messages seen by a process
  pend  |-> {},         \* timeouts not yet due
  lastc |-> NoFun,      \* projection -> time of its last compaction by a tick
  env   |-> NoFun,      \* message -> envelope
  ids   |-> {},         \* IDs in use
  ver   |-> {},         \* <<projection, message>> already applied
  \* The operation in progress.
  op    |-> [op |-> ""],
  now   |-> <<0, 0>>,
  can   |-> FALSE,      \* the context is cancelled
  must  |-> FALSE,      \* ... and a message, or a handler's tick, has been completed since
  left  |-> {},         \* handlers to tick
  q     |-> <<>>,       \* queue: sets of messages, in any order within a set
  errs  |-> <<>>,
  pan   |-> {},         \* panics that may be the result
  rst   |-> 0,
  \* The message being dispatched.
  m     |-> "",
  todo  |-> {},
  derrs |-> <<>>,
  \* The handling in progress.
  h     |-> "",
  i     |-> "",
  ex    |-> FALSE,      \* aggregate: the instance exists; process: it existed before
  gone  |-> FALSE,      \* aggregate: destroyed; process: ended
  moved |-> FALSE,      \* aggregate: Destroy() has replaced the root
  rt    |-> <<>>,       \* content of the scope's root
  hr    |-> <<>>,       \* content of the root that the handler was given
  prod  |-> <<>>,       \* messages produced
  rdy   |-> <<>>,       \* timeouts already due
  late  |-> {},         \* timeouts for later
  herr  |-> <<>>,       \* error of the handling, or of the tick
  call  |-> [o |-> ""], \* scope call in progress
  out   |-> <<>>,       \* what the engine still does in that call
  stale |-> {},         \* queued timeouts whose instance has ended since
  comp  |-> [st |-> "no", rep |-> <<>>, logs |-> <<>>, err |-> <<>>, pan |-> {}],
  \* Only for generation.
  nw    |-> FALSE,
  ap    |-> 0
]

NoEnv == [id |-> "", m |-> ""]
Error(tok) == [h |-> "", ht |-> "", tok |-> tok]
ErrorOf(s, tok) == [h |-> s.h, ht |-> TypeOf(s.app, s.h), tok |-> tok]
CtxErr == <<Error("ctx")>>
Type(s) == TypeOf(s.app, s.h)
Inst(s) == <<s.h, s.i>>
KindOf(t) == SubSeq(t, 1, 1)

(* Envelopes. *)
RootEnv(s, x) ==
  [id |-> x.id, ca |-> x.id, co |-> x.id, m |-> s.op.m, t |-> s.op.t, cr |-> x.now, sc |-> <<>>, oh |-> "", ot |-> "", oi |-> ""]
ChildEnv(s, x) ==
  [id |-> x.id, ca |-> s.env[s.m].id, co |-> s.env[s.m].co, m |-> s.call.p, t |-> s.call.t, cr |-> s.now,
   sc |-> IF s.call.o = "sched" THEN s.call.at ELSE <<>>, oh |-> s.h, ot |-> Type(s), oi |-> s.i]

(* Facts. *)
F(f) == [e |-> "f", f |-> f]
FM(s, f) == [e |-> "f", f |-> f, v |-> s.env[s.m]]
FH(s, f) == [e |-> "f", f |-> f, h |-> s.h, v |-> s.env[s.m]]
FI(s, f) == [e |-> "f", f |-> f, h |-> s.h, i |-> s.i, v |-> s.env[s.m]]
FR(s, f) == [e |-> "f", f |-> f, h |-> s.h, i |-> s.i, v |-> s.env[s.m], root |-> s.rt]
FP(s, f, x) == [e |-> "f", f |-> f, h |-> s.h, i |-> s.i, v |-> s.env[s.m], root |-> s.rt, pv |-> ChildEnv(s, x)]
ProdFact(s) == CASE Type(s) = "aggregate" -> "arec" [] Type(s) = "integration" -> "irec"
                 [] s.call.o = "exec" -> "pexec" [] OTHER -> "psched"

CycleEnd(s, errs) ==
  IF s.op.op = "tick" THEN [e |-> "f", f |-> "tcc", errs |-> errs] ELSE [e |-> "f", f |-> "dcc", v |-> s.env[s.op.m], errs |-> errs]

(* Calls of handler methods. *)
Cb(s, w) == [e |-> "cb", w |-> w, h |-> s.h]
Cbx(s, w) == [e |-> "cbx", w |-> w, h |-> s.h]

RootAt(s) == IF HOf(s.app, s.h).less THEN <<"?">> ELSE Get(s.live, Inst(s), <<>>)
Legal(s) == s.op.k \in {"c", "e"} /\ ~s.op.bad /\ Consumers(s.app, s.op.t) # {}
CallLegal(s) == s.call.o \in {"destroy", "end", "log"} \/ (Produces(s.app, s.h, s.call.t) /\ ~s.call.bad)
Due(s) == s.h \notin DOMAIN s.lastc \/ Le(<<s.lastc[s.h][1] + 3600, s.lastc[s.h][2]>>, s.now)
Par(s) == s.comp.st \in {"begun", "on"}    \* a parallel compaction has not finished

(* Alternatives that the engine may choose between without an event. *)
Alts(s) ==
  CASE s.pc = "lock" /\ s.op.ctx = "pre" ->
         {[s EXCEPT !.pc = IF s.op.op = "tick" THEN "tick" ELSE "queue"], [s EXCEPT !.pc = "stop"]}
    [] s.pc = "lock" -> {[s EXCEPT !.pc = IF s.op.op = "tick" THEN "tick" ELSE "queue"]}
    [] s.pc = "tick" /\ s.can ->
         {[s EXCEPT !.pc = "stop"]} \cup (IF s.left # {} THEN {s} ELSE IF s.must THEN {} ELSE {[s EXCEPT !.pc = "queue"]})
    [] s.pc = "tick" -> {IF s.left = {} THEN [s EXCEPT !.pc = "queue"] ELSE s}
    [] s.pc = "queue" /\ s.can -> {[s EXCEPT !.pc = "stop"]} \cup (IF s.must THEN {} ELSE {s})
    [] OTHER -> {s}

(* A parallel compaction goes on while its event is being handled. *)
ParOuts(s) ==
  CASE s.comp.st = "begun" -> {[e |-> "cb", w |-> "compact", h |-> s.h, par |-> TRUE, now |-> s.now]}
    [] s.comp.st = "on" -> {[e |-> "clog", h |-> s.h], [e |-> "cbx", w |-> "compact", h |-> s.h, par |-> TRUE]}
    [] OTHER -> {}

Outs0(s, x) ==
  CASE s.pc = "boot" -> {[e |-> "app"]}
    [] s.pc = "idle" -> {[e |-> "op"], [e |-> "end"]}
    [] s.pc = "reset" ->
         IF s.rst < s.app.resets THEN {[e |-> "rst", n |-> s.rst + 1]} ELSE {[e |-> "ret", op |-> "reset", res |-> "ok"]}
    [] s.pc = "dispatch" ->
         IF Legal(s) THEN {[e |-> "f", f |-> "dcb", v |-> RootEnv(s, x), now |-> x.now]}
                     ELSE {[e |-> "ret", op |-> "dispatch", res |-> "panic"]}
    [] s.pc = "opentick" -> {[e |-> "f", f |-> "tcb", now |-> x.now]}
    \* Which of the handlers' errors come before the context's is not said.
    [] s.pc = "stop" -> {CycleEnd(s, SubSeq(s.errs, 1, n) \o CtxErr) : n \in 0..Len(s.errs)}
    [] s.pc = "ret" ->
         {[e |-> "ret", op |-> s.op.op, res |-> IF s.errs = <<>> THEN "ok" ELSE "err", errs |-> s.errs]}
    [] s.pc = "panicked" -> {[e |-> "ret", op |-> s.op.op, res |-> "panic", pan |-> p] : p \in s.pan}
    \* Ticking the handlers.
    [] s.pc = "tick" ->
         {IF Enabled(s.app, s.op.opts, n) THEN [e |-> "f", f |-> "tb", h |-> n]
          ELSE [e |-> "f", f |-> "ts", h |-> n, rsn |-> SkipReason(s.app, s.op.opts, n)] : n \in s.left}
    [] s.pc = "ticking" -> {[e |-> "f", f |-> "tc", h |-> s.h, errs |-> s.herr]}
    [] s.pc = "t.begin" -> {[e |-> "f", f |-> "compb", h |-> s.h]}
    [] s.pc = "t.compact" -> {[e |-> "cb", w |-> "compact", h |-> s.h, par |-> FALSE, now |-> s.now]}
    [] s.pc = "t.in" -> {[e |-> "sob", o |-> "log", h |-> s.h], Cbx(s, "compact"), [e |-> "cancel"]}
    [] s.pc = "t.end" -> {[e |-> "f", f |-> "compc", h |-> s.h, errs |-> s.herr]}
    \* Dispatching a message.
    [] s.pc = "queue" ->
         IF s.q = <<>> THEN {CycleEnd(s, s.errs)}
         ELSE {[e |-> "f", f |-> "db", v |-> s.env[k]] : k \in Head(s.q)}
    [] s.pc = "disp" ->
         IF s.todo = {} THEN {[e |-> "f", f |-> "dc", v |-> s.env[s.m], errs |-> s.derrs]}
         ELSE {IF Enabled(s.app, s.op.opts, n) THEN [e |-> "f", f |-> "hb", h |-> n, v |-> s.env[s.m]]
               ELSE [e |-> "f", f |-> "hs", h |-> n, v |-> s.env[s.m], rsn |-> SkipReason(s.app, s.op.opts, n)] : n \in s.todo}
    [] s.pc = "hc" -> {[e |-> "f", f |-> "hc", h |-> s.h, v |-> s.env[s.m], errs |-> s.herr]}
    \* Aggregates.
    [] s.pc = "a.route" -> {[e |-> "cb", w |-> "route", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t]}
    [] s.pc = "a.routing" -> {Cbx(s, "route")}
    [] s.pc = "a.load" -> {IF s.ex THEN FR(s, "aload") ELSE FI(s, "anf")}
    [] s.pc = "a.handle" -> {[e |-> "cb", w |-> "handle", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t, i |-> s.i, root |-> s.hr, own |-> TRUE]}
    \* Processes.
    [] s.pc = "p.route" ->
         IF KindOf(s.env[s.m].t) = "T"
           THEN (IF Inst(s) \in DOMAIN s.live THEN {FR([s EXCEPT !.rt = RootAt(s)], "pload")} ELSE {})
                \cup (IF Inst(s) \notin DOMAIN s.live \/ s.m \in s.stale THEN {FI(s, "ptign")} ELSE {})
           ELSE {[e |-> "cb", w |-> "route", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t]}
    [] s.pc = "p.routing" -> {Cbx(s, "route")}
    [] s.pc = "p.ignore" -> {FH(s, "peign")}
    [] s.pc = "p.load" -> {IF s.ex THEN FR(s, "pload") ELSE FI(s, "pnf")}
    [] s.pc = "p.new" -> {FR(s, "pbegin")} \cup {[e |-> "ret", op |-> s.op.op, res |-> "panic", pan |-> p] : p \in s.pan}
    [] s.pc = "p.handle" ->
         {[e |-> "cb", w |-> "handle", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t, i |-> s.i, root |-> s.hr, own |-> TRUE,
           k |-> IF KindOf(s.env[s.m].t) = "T" THEN "t" ELSE "e",
           at |-> IF KindOf(s.env[s.m].t) = "T" THEN s.env[s.m].sc ELSE s.env[s.m].cr]}
    \* Integrations.
    [] s.pc = "i.handle" -> {[e |-> "cb", w |-> "handle", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t]}
    \* The handler is in control.
    [] s.pc = "in" -> {[e |-> "sob", h |-> s.h], Cbx(s, "handle"), [e |-> "cancel"]}
    [] s.pc = "call" ->
         (CASE Head(s.out) = "so" -> {[e |-> "so", o |-> s.call.o, h |-> s.h, p |-> s.call.p, ok |-> TRUE]}
            [] Head(s.out) = "no" -> {[e |-> "so", o |-> s.call.o, h |-> s.h, p |-> s.call.p, ok |-> FALSE, pan |-> [k |-> "ub", h |-> s.h]]}
            [] Head(s.out) = "thrown" -> {[e |-> "so", o |-> s.call.o, h |-> s.h, p |-> s.call.p, ok |-> FALSE, pan |-> CHOOSE p \in s.pan : TRUE]}
            [] Head(s.out) = "log" -> {[e |-> "f", f |-> "log", h |-> s.h, i |-> s.i, p |-> s.call.p,
                                        v |-> IF s.m = "" THEN NoEnv ELSE s.env[s.m], root |-> s.rt]}
            [] Head(s.out) = "prod" -> {FP(s, ProdFact(s), x)}
            [] OTHER -> {FR(s, Head(s.out))})
    [] s.pc = "failed" -> {[e |-> "cbx", w |-> "handle", h |-> s.h, res |-> "panic"]}
    \* Projections.
    [] s.pc = "j.rv" -> {[e |-> "cb", w |-> "rv", h |-> s.h, m |-> s.m, res |-> s.env[s.m].id]}
    [] s.pc = "j.rving" -> {Cbx(s, "rv")}
    [] s.pc = "j.begin" -> {[e |-> "f", f |-> "compb", h |-> s.h]}
    [] s.pc = "j.hev" -> {[e |-> "cb", w |-> "hev", h |-> s.h, m |-> s.m, t |-> s.env[s.m].t, res |-> s.env[s.m].id, cur |-> "",
                           at |-> s.env[s.m].cr, prim |-> TRUE]}
    [] s.pc = "j.in" -> {[e |-> "sob", o |-> "log", h |-> s.h], Cbx(s, "hev"), [e |-> "cancel"]}
    [] s.pc = "j.join" ->
         IF s.comp.st # "ran" THEN {}
         ELSE IF s.comp.rep # <<>> THEN {[e |-> "f", f |-> "log", h |-> s.h, p |-> Head(s.comp.rep), v |-> NoEnv]}
         ELSE {[e |-> "f", f |-> "compc", h |-> s.h, errs |-> s.comp.err]}
    [] s.pc = "j.close" -> {[e |-> "cb", w |-> "close", h |-> s.h, res |-> s.env[s.m].id]}
    [] s.pc = "j.closing" -> {Cbx(s, "close")}
    [] s.pc = "new" -> {[e |-> "cbx", w |-> "new", h |-> s.h]}
    [] OTHER -> {}

(* While a parallel compaction runs after a panic the operation has not returned. *)
Outs(s, x) == UNION {(IF a.pc = "panicked" /\ Par(a) THEN {} ELSE Outs0(a, x)) \cup ParOuts(a) : a \in Alts(s)}

(* Calls that the engine makes to create roots and to rebuild them. How often
   it does so is its own affair: what counts is the root given to the handler. *)
Noise(s, e) ==
  /\ e.e = "cb" /\ e.w \in {"new", "apply", "applypanic"}
  /\ e.h = s.h
  /\ s.pc \in {"a.load", "p.load", "p.new", "call", "a.routing", "p.handle", "a.handle"}

Same(o, e) ==
  \A k \in DOMAIN o :
    /\ k \in DOMAIN e
    /\ IF k = "pan" THEN \A f \in DOMAIN o.pan : f \in DOMAIN e.pan /\ e.pan[f] = o.pan[f] ELSE e[k] = o[k]

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
Tok(t) == [k |-> "tok", tok |-> t, h |-> ""]
Ub(s) == [k |-> "ub", tok |-> "", h |-> s.h]
Method(s, w) ==
  CASE w = "route" -> (IF Type(s) = "aggregate" THEN "RouteCommandToInstance" ELSE "RouteEventToInstance")
    [] w = "hev" -> "HandleEvent"
    [] Type(s) = "process" -> (IF KindOf(s.env[s.m].t) = "T" THEN "HandleTimeout" ELSE "HandleEvent")
    [] OTHER -> "HandleCommand"
Um(s, w) == [k |-> "um", tok |-> "", h |-> s.h, m |-> s.m, meth |-> Method(s, w)]
Panicked(s, p) == [s EXCEPT !.pc = "panicked", !.pan = {p}]
(* A method that panics. *)
Thrown(s, e) == Panicked(s, IF e.res = "unexp" THEN Um(s, e.w) ELSE Tok(e.tok))
Fails(e) == e.res \in {"panic", "unexp"}

StartOp(s, e) ==
  LET n == [s EXCEPT !.op = e, !.can = FALSE, !.must = FALSE, !.left = {}, !.q = <<>>, !.errs = <<>>, !.pan = {}, !.rst = 0,
                     !.m = "", !.todo = {}, !.derrs = <<>>, !.stale = {}, !.comp = Boot.comp, !.herr = <<>>, !.i = "", !.rt = <<>>]
  IN CASE e.op = "reset" -> [Boot EXCEPT !.app = s.app, !.pc = "reset"]
       [] e.op = "dispatch" -> [n EXCEPT !.pc = "dispatch", !.can = (e.ctx = "pre")]
       [] OTHER -> [n EXCEPT !.pc = "opentick", !.can = (e.ctx = "pre")]

(* The handling of the current message by s.h begins. *)
Enter(s, n) ==
  LET t == TypeOf(s.app, n)
      z == [s EXCEPT !.h = n, !.i = "", !.todo = @ \ {n}, !.ex = FALSE, !.gone = FALSE, !.moved = FALSE, !.rt = <<>>, !.hr = <<>>,
                     !.prod = <<>>, !.rdy = <<>>, !.late = {}, !.herr = <<>>, !.comp = Boot.comp, !.nw = FALSE, !.ap = 0]
  IN CASE t = "aggregate" -> [z EXCEPT !.pc = "a.route"]
       [] t = "process" -> [z EXCEPT !.pc = "p.route", !.i = IF KindOf(s.env[s.m].t) = "T" THEN s.env[s.m].oi ELSE ""]
       [] t = "integration" -> [z EXCEPT !.pc = "i.handle"]
       [] OTHER -> [z EXCEPT !.pc = "j.rv"]

(* Timeouts that are due, in order of time. *)
RECURSIVE InOrder(_)
InOrder(S) ==
  IF S = {} THEN <<>>
  ELSE LET f == CHOOSE a \in S : \A b \in S : Le(a.at, b.at)
           g == {a \in S : a.at = f.at}
       IN  <<{a.m : a \in g}>> \o InOrder(S \ g)
Single(q) == [j \in DOMAIN q |-> {q[j]}]

TickHandler(s, n) ==
  LET z == [s EXCEPT !.left = @ \ {n}, !.h = n, !.herr = <<>>, !.pc = "ticking", !.m = "", !.i = "", !.rt = <<>>, !.comp = Boot.comp]
      due == {a \in s.pend : a.h = n /\ Le(a.at, s.now)}
  IN CASE TypeOf(s.app, n) = "process" -> [z EXCEPT !.pend = @ \ due, !.q = @ \o InOrder(due)]
       [] TypeOf(s.app, n) = "projection" /\ Due(z) -> [z EXCEPT !.pc = "t.begin", !.lastc = Put(@, n, s.now)]
       [] OTHER -> z

Routed(s, e) ==
  LET z == [s EXCEPT !.i = e.i] IN
  IF Type(s) = "aggregate"
    THEN LET r == Get(s.hist, Inst(z), <<>>) IN
         [z EXCEPT !.pc = "a.load", !.ex = (Inst(z) \in DOMAIN s.hist), !.rt = r, !.hr = r]
    ELSE [z EXCEPT !.pc = "p.load", !.ex = (Inst(z) \in DOMAIN s.live), !.rt = RootAt(z), !.hr = RootAt(z)]

(* What the engine does in a scope call. *)
Plan(s) ==
  LET o == s.call.o IN
  CASE ~CallLegal(s) -> <<"no">>
    [] o = "log" -> <<"log", "so">>
    [] Type(s) = "aggregate" /\ o = "rec" /\ ~s.ex -> <<IF s.gone THEN "arevert" ELSE "acreate", "prod", "so">>
    [] o = "destroy" -> IF s.ex THEN <<"adestroy", "so">> ELSE <<"so">>
    [] o = "end" -> IF s.gone THEN <<"so">> ELSE <<"pend", "so">>
    [] Type(s) = "process" /\ s.gone -> <<"prevert", "prod", "so">>
    [] OTHER -> <<"prod", "so">>

(* Effects, by the time the first report of the call is made. *)
Calling(s, e) ==
  LET a == [s EXCEPT !.call = e] IN
  LET p == Plan(a)
      z == [a EXCEPT !.out = p, !.pc = "call", !.nw = FALSE, !.ap = 0]
  IN IF ~CallLegal(a) THEN z
     ELSE CASE e.o = "destroy" /\ s.ex -> [z EXCEPT !.ex = FALSE, !.gone = TRUE, !.moved = TRUE, !.rt = <<>>]
            [] OTHER -> z

(* The fact of a production has been reported. *)
Produced(s, e) ==
  LET z == [s EXCEPT !.env = Put(@, e.pv.m, e.pv), !.ids = @ \cup {e.pv.id}, !.out = Tail(@)] IN
  CASE s.call.o \in {"rec", "exec"} -> [z EXCEPT !.prod = Append(@, s.call.p)]
    [] Lt(s.now, s.call.at) -> [z EXCEPT !.late = @ \cup {[h |-> s.h, i |-> s.i, m |-> s.call.p, at |-> s.call.at]}]
    [] OTHER -> [z EXCEPT !.rdy = Append(@, s.call.p)]

InCall(s, e) ==
  LET a == Head(s.out) IN
  CASE a = "thrown" -> [s EXCEPT !.out = <<>>, !.pc = "failed"]
    [] a = "no" -> [s EXCEPT !.out = <<>>, !.pc = IF e.re THEN "in" ELSE "failed", !.pan = IF e.re THEN {} ELSE {Ub(s)}]
    [] a = "so" -> [s EXCEPT !.out = <<>>, !.pc = IF s.m = "" THEN "t.in" ELSE IF Type(s) = "projection" THEN "j.in" ELSE "in"]
    [] a = "prod" -> Produced(s, e)
    [] a \in {"acreate", "arevert"} ->
         [s EXCEPT !.out = Tail(@), !.ex = TRUE, !.gone = FALSE,
                   !.rt = Append(@, s.call.p), !.hr = IF s.moved THEN @ ELSE Append(@, s.call.p)]
    [] a = "pend" -> [s EXCEPT !.out = Tail(@), !.gone = TRUE]
    [] a = "prevert" -> [s EXCEPT !.out = Tail(@), !.gone = FALSE]
    [] OTHER -> [s EXCEPT !.out = Tail(@)]

(* An event recorded by an existing aggregate is applied before it is reported. *)
Apply(s) ==
  IF s.pc = "call" /\ s.out[1] = "prod" /\ Type(s) = "aggregate" /\ s.ex
    THEN [s EXCEPT !.rt = Append(@, s.call.p), !.hr = IF s.moved THEN @ ELSE Append(@, s.call.p)]
    ELSE s

Handled(s, e) ==
  LET t == Type(s)
      z == [s EXCEPT !.pc = "hc"]
      seen == IF HOf(s.app, s.h).less THEN <<>> ELSE Append(s.hr, s.m)
      out == {k \in UNION Ran(s.q) : KindOf(s.env[k].t) = "T" /\ s.env[k].oh = s.h /\ s.env[k].oi = s.i}
  IN CASE Fails(e) -> IF s.pc = "failed" THEN [s EXCEPT !.pc = "panicked"] ELSE Thrown(s, e)
       [] t = "aggregate" ->
            IF s.ex THEN [z EXCEPT !.hist = Put(@, Inst(s), Get(@, Inst(s), <<>>) \o s.prod), !.q = @ \o Single(s.prod)]
                    ELSE [z EXCEPT !.hist = Del(@, {Inst(s)}), !.q = @ \o Single(s.prod)]
       [] t = "integration" ->
            [z EXCEPT !.q = @ \o Single(s.prod), !.herr = IF e.res = "err" THEN <<Error(e.tok)>> ELSE <<>>]
       [] e.res = "err" -> [z EXCEPT !.herr = <<Error(e.tok)>>]
       [] s.gone ->
            [z EXCEPT !.live = Del(@, {Inst(s)}), !.q = @ \o Single(s.prod),
                      !.pend = IF s.ex THEN {a \in @ : ~(a.h = s.h /\ a.i = s.i)} ELSE @,
                      !.stale = @ \cup out]
       [] OTHER ->
            [z EXCEPT !.live = Put(@, Inst(s), seen), !.q = @ \o Single(s.prod) \o Single(s.rdy), !.pend = @ \cup s.late]

(* HandleEvent() of a projection has returned. *)
Joined(s) ==
  CASE s.herr # <<>> -> [s EXCEPT !.pc = "hc"]
    [] s.rt = <<"ok">> -> [s EXCEPT !.pc = "j.close"]
    [] OTHER -> [s EXCEPT !.pc = "hc", !.herr = s.comp.err]

Compacted(s, e) ==
  CASE s.comp.st = "on" ->
         LET c == [s.comp EXCEPT !.st = "ran", !.err = IF e.res = "err" THEN <<Error(e.tok)>> ELSE <<>>,
                                 !.pan = IF e.res = "panic" THEN {Tok(e.tok)} ELSE {}]
         IN  IF s.pc = "panicked" THEN [s EXCEPT !.comp = c, !.pan = @ \cup c.pan]
             ELSE IF s.pc = "j.join" /\ e.res = "panic" THEN [s EXCEPT !.comp = c, !.pc = "panicked", !.pan = c.pan]
             ELSE [s EXCEPT !.comp = c]
    [] e.res = "panic" -> Thrown(s, e)
    [] OTHER -> [s EXCEPT !.pc = "t.end", !.herr = IF e.res = "err" THEN <<Error(e.tok)>> ELSE <<>>]

HandledEvent(s, e) ==
  LET z == [s EXCEPT !.herr = IF e.res = "err" THEN <<Error(e.tok)>> ELSE <<>>, !.rt = IF e.res = "ok" /\ e.ok THEN <<"ok">> ELSE <<>>,
                     !.ver = IF e.res = "ok" /\ e.ok THEN @ \cup {<<s.h, s.m>>} ELSE @]
  IN CASE Fails(e) -> LET p == Thrown(s, e) IN [p EXCEPT !.pan = @ \cup s.comp.pan]
       [] s.comp.st = "no" -> Joined(z)
       [] s.comp.pan # {} -> [z EXCEPT !.pc = "panicked", !.pan = s.comp.pan]
       [] OTHER -> [z EXCEPT !.pc = "j.join"]

Fact(s, e) ==
  CASE e.f = "dcb" -> [s EXCEPT !.now = e.now, !.env = Put(@, s.op.m, e.v), !.ids = @ \cup {e.v.id}, !.q = <<{s.op.m}>>, !.pc = "lock"]
    [] e.f = "tcb" -> [s EXCEPT !.now = e.now, !.left = Names(s.app), !.pc = "lock"]
    [] e.f \in {"dcc", "tcc"} -> [s EXCEPT !.errs = e.errs, !.pc = "ret"]
    [] e.f = "ts" -> [s EXCEPT !.left = @ \ {e.h}]
    [] e.f = "tb" -> TickHandler(s, e.h)
    [] e.f = "tc" -> [s EXCEPT !.pc = "tick", !.must = s.can, !.errs = @ \o [j \in DOMAIN s.herr |-> ErrorOf(s, s.herr[j].tok)]]
    [] e.f = "db" ->
         [s EXCEPT !.m = e.v.m, !.pc = "disp", !.derrs = <<>>,
                   !.q = IF Cardinality(Head(@)) = 1 THEN Tail(@) ELSE <<Head(@) \ {e.v.m}>> \o Tail(@),
                   !.todo = IF KindOf(e.v.t) = "T" THEN {e.v.oh} ELSE Consumers(s.app, e.v.t)]
    [] e.f = "dc" -> [s EXCEPT !.pc = "queue", !.errs = @ \o s.derrs, !.must = s.can, !.stale = @ \ {s.m}]
    [] e.f = "hs" -> [s EXCEPT !.todo = @ \ {e.h}]
    [] e.f = "hb" -> Enter(s, e.h)
    [] e.f = "hc" -> [s EXCEPT !.pc = "disp", !.derrs = @ \o [j \in DOMAIN s.herr |-> ErrorOf(s, s.herr[j].tok)]]
    [] e.f \in {"aload", "anf"} -> [s EXCEPT !.pc = "a.handle"]
    [] e.f = "pload" -> [s EXCEPT !.pc = "p.handle", !.ex = TRUE, !.rt = RootAt(s), !.hr = RootAt(s)]
    [] e.f = "pnf" -> [s EXCEPT !.pc = "p.new"]
    [] e.f = "pbegin" -> IF s.pan # {} THEN [s EXCEPT !.pc = "panicked"] ELSE [s EXCEPT !.pc = "p.handle"]
    [] e.f \in {"peign", "ptign"} -> [s EXCEPT !.pc = "hc"]
    [] e.f = "compb" -> IF s.pc = "t.begin" THEN [s EXCEPT !.pc = "t.compact"] ELSE [s EXCEPT !.pc = "j.hev", !.comp.st = "begun"]
    [] e.f = "compc" -> IF s.pc = "t.end" THEN [s EXCEPT !.pc = "ticking"] ELSE Joined([s EXCEPT !.comp.st = "no"])
    [] s.pc = "j.join" -> [s EXCEPT !.comp.rep = Tail(@)]
    [] OTHER -> InCall(s, e)

Callback(s, e) ==
  CASE e.w = "compact" -> IF e.par THEN [s EXCEPT !.comp.st = "on"] ELSE [s EXCEPT !.pc = "t.in"]
    [] e.w = "route" -> [s EXCEPT !.pc = IF @ = "a.route" THEN "a.routing" ELSE "p.routing"]
    [] e.w = "handle" -> [s EXCEPT !.pc = "in"]
    [] e.w = "rv" -> [s EXCEPT !.pc = "j.rving"]
    [] e.w = "hev" -> [s EXCEPT !.pc = "j.in"]
    [] e.w = "close" -> [s EXCEPT !.pc = "j.closing"]
    [] OTHER -> s

Returned(s, e) ==
  CASE e.w = "compact" -> Compacted(s, e)
    [] e.w = "handle" -> Handled(s, e)
    [] e.w = "hev" -> HandledEvent(s, e)
    [] Fails(e) -> Thrown(s, e)
    [] e.res = "err" -> [s EXCEPT !.pc = "hc", !.herr = <<Error(e.tok)>>]
    [] e.w = "route" /\ ~e.yes -> [s EXCEPT !.pc = "p.ignore"]
    [] e.w = "route" /\ e.i = "" -> Panicked(s, Ub(s))
    [] e.w = "route" -> Routed(s, e)
    [] e.w = "rv" /\ e.ver # "" -> [s EXCEPT !.pc = "hc"]
    [] e.w = "rv" -> [s EXCEPT !.pc = IF s.app.cdh THEN "j.begin" ELSE "j.hev"]
    [] e.w = "close" -> [s EXCEPT !.pc = "hc", !.herr = s.comp.err]
    [] OTHER -> s

Front(q) == SubSeq(q, 1, Len(q) - 1)
(* Creation of a root, and applying an event. *)
Noised(s, e) ==
  CASE e.w = "applypanic" ->
         IF s.pc = "call"
           THEN [s EXCEPT !.out = <<"thrown">>, !.pan = {Tok(e.tok)}, !.rt = Front(@), !.hr = IF s.moved THEN @ ELSE Front(@)]
           ELSE Panicked(s, Tok(e.tok))
    [] e.w = "new" /\ e.nw = "panic" -> [s EXCEPT !.pc = "new"]
    [] e.w = "new" /\ e.nw = "nil" ->
         \* The beginning of the instance may still be reported.
         IF s.pc = "p.new" THEN [s EXCEPT !.pan = {Ub(s)}, !.rt = <<"?">>] ELSE Panicked(s, Ub(s))
    [] e.w = "new" -> [s EXCEPT !.nw = TRUE]
    [] OTHER -> [s EXCEPT !.ap = @ + 1]

Step0(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e, !.pc = "idle"]
    [] e.e = "op" -> StartOp(s, e)
    [] e.e = "end" -> [s EXCEPT !.pc = "end"]
    [] e.e = "rst" -> [s EXCEPT !.rst = @ + 1]
    [] e.e = "ret" -> [s EXCEPT !.pc = "idle"]
    [] e.e = "f" -> Fact(s, e)
    [] e.e = "cb" -> Callback(s, e)
    [] e.e = "cbx" -> Returned(s, e)
    [] e.e = "sob" -> Apply(Calling(s, e))
    [] e.e = "so" -> InCall(s, e)
    [] e.e = "cancel" -> [s EXCEPT !.can = TRUE]
    [] e.e = "clog" -> [s EXCEPT !.comp.rep = Append(@, e.p)]
    [] OTHER -> s
Allowed(s, e, x) == Noise(s, e) \/ \E o \in Outs(s, x) : Same(o, e)

Step(s, e, x) ==
  IF Noise(s, e) THEN Noised(s, e)
  ELSE LET as == Alts(s)
           a == IF Cardinality(as) = 1 THEN CHOOSE z \in as : TRUE
                ELSE CHOOSE z \in as : \E o \in Outs0(z, x) \cup ParOuts(z) : Same(o, e)
       IN  Step0(a, e)
=============================================================================
