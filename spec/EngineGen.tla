----------------------------- MODULE EngineGen -----------------------------
(* Behaviours of the engine in a small world: an application, the          *)
(* operations that may be performed and what handlers may do.              *)
EXTENDS Engine, Json

CONSTANT World    \* name of the world
CONSTANT Budget   \* [ops, calls]: how many operations, and scope calls in all

W ==
  LET op(o, t, d) == [op |-> o, t |-> t, d |-> d, opts |-> <<>>, ctx |-> "", bad |-> FALSE]
      call(o, t) == [o |-> o, t |-> t, bad |-> FALSE, re |-> FALSE, d |-> 0]
      at(t, d) == [o |-> "sched", t |-> t, bad |-> FALSE, re |-> FALSE, d |-> d]
      hd(n, t, c, p) == [n |-> n, t |-> t, c |-> c, p |-> p, dis |-> FALSE, less |-> FALSE]
      app(hs) == [hs |-> hs, cdh |-> FALSE, resets |-> 1]
      none == [ops |-> {}, calls |-> {}, insts |-> {"i"}, route |-> {"ok"}, no |-> FALSE, new |-> {""}, apply |-> FALSE,
               ends |-> {"ok"}, rv |-> {"ok"}, close |-> {"ok"}, applied |-> {TRUE}, comp |-> {"ok"}, clogs |-> 0, wild |-> FALSE, pre |-> "m"]
      test(hs) == [pre |-> "n", app |-> [hs |-> hs, cdh |-> TRUE, resets |-> 0]]
      agg == <<hd("a", "aggregate", <<"C1">>, <<"E1">>)>>
  IN CASE World = "agg" ->     \* one aggregate, two instances
           [none EXCEPT !.ops = {op("dispatch", "C1", 1), op("reset", "", 0)}, !.insts = {"i", "j"},
                        !.calls = {call("rec", "E1"), call("destroy", ""), [call("rec", "E1") EXCEPT !.bad = TRUE, !.re = TRUE]},
                        !.ends = {"ok", "panic"}] @@ [app |-> app(<<hd("a", "aggregate", <<"C1">>, <<"E1">>)>>)]
       [] World = "aggload" -> \* an aggregate whose root cannot always be rebuilt
           [none EXCEPT !.ops = {op("dispatch", "C1", 1)}, !.insts = {"i", ""}, !.calls = {call("rec", "E1"), call("destroy", ""), call("log", "")},
                        !.apply = TRUE, !.new = {"", "nil", "panic"}, !.route = {"ok", "panic", "unexp"}]
           @@ [app |-> app(<<hd("a", "aggregate", <<"C1">>, <<"E1">>)>>)]
       [] World = "proc" ->    \* one process, two instances, timeouts
           [none EXCEPT !.ops = {op("dispatch", "E1", 1), op("tick", "", 2), op("reset", "", 0)}, !.insts = {"i", "j"}, !.no = TRUE,
                        !.calls = {at("T1", 0), at("T1", 2), call("end", ""), call("exec", "C1")}, !.ends = {"ok", "err", "panic"}]
           @@ [app |-> app(<<hd("p", "process", <<"E1">>, <<"C1", "T1">>), hd("n", "integration", <<"C1">>, <<>>)>>)]
       [] World = "ticks" ->   \* timeouts of two processes, without events in between
           [none EXCEPT !.ops = {op("dispatch", "E1", 1), op("tick", "", 0), op("tick", "", 1), op("tick", "", 3),
                                 [op("tick", "", 1) EXCEPT !.opts = <<<<"h", "p", FALSE>>>>]},
                        !.calls = {at("T1", 0), at("T1", 1), at("T1", 2), call("end", "")}]
           @@ [app |-> app(<<hd("p", "process", <<"E1">>, <<"C3", "T1">>), hd("r", "process", <<"E1">>, <<"C3", "T1">>)>>)]
       [] World = "duecomp" -> \* timeouts fall due in ticks that also compact
           [none EXCEPT !.ops = {op("dispatch", "E1", 1), op("tick", "", 3600), [op("tick", "", 3600) EXCEPT !.ctx = "can"]},
                        !.calls = {at("T1", 0), at("T1", 2), call("exec", "C1"), call("cancel", "")},
                        !.ends = {"ok", "err"}, !.comp = {"ok", "err", "panic"}]
           @@ [app |-> app(<<hd("p", "process", <<"E1">>, <<"C1", "T1">>), hd("n", "integration", <<"C1">>, <<>>), hd("j", "projection", <<"E2">>, <<>>)>>)]
       [] World = "chain" ->   \* commands and events through several handlers
           [none EXCEPT !.ops = {op("dispatch", "C1", 1), op("dispatch", "E1", 1), [op("dispatch", "C1", 1) EXCEPT !.opts = <<<<"ty", "process", FALSE>>>>]},
                        !.calls = {call("rec", "E1"), call("rec", "E2"), call("exec", "C1"), call("exec", "C2"), call("log", "")}, !.ends = {"ok", "err"}]
           @@ [app |-> app(<<hd("a", "aggregate", <<"C1">>, <<"E1">>), hd("p", "process", <<"E1", "E2">>, <<"C1", "C2">>),
                             hd("n", "integration", <<"C2">>, <<"E2">>), hd("j", "projection", <<"E1", "E2">>, <<>>)>>)]
       [] World = "proj" ->    \* the protocol of projections
           [none EXCEPT !.ops = {op("dispatch", "E1", 1), op("tick", "", 1800), op("tick", "", 3600)}, !.calls = {call("log", "")},
                        !.ends = {"ok", "err", "panic"}, !.rv = {"ok", "set", "err", "panic"}, !.close = {"ok", "err", "panic"},
                        !.applied = {TRUE, FALSE}, !.comp = {"ok", "err", "panic"}]
           @@ [app |-> app(<<hd("j", "projection", <<"E1">>, <<>>)>>)]
       [] World = "comp" ->    \* compaction in parallel with handling
           [none EXCEPT !.ops = {op("dispatch", "E1", 1), op("tick", "", 3600)}, !.calls = {call("log", "")},
                        !.ends = {"ok", "err", "panic"}, !.applied = {TRUE, FALSE}, !.comp = {"ok", "err", "panic"}, !.clogs = 1]
           @@ [app |-> [app(<<hd("j", "projection", <<"E1">>, <<>>)>>) EXCEPT !.cdh = TRUE]]
       [] World = "cancel" ->  \* cancelled contexts
           [none EXCEPT !.ops = {[op("dispatch", "E1", 1) EXCEPT !.ctx = c] : c \in {"", "can", "pre"}}
                                \cup {[op("tick", "", 1) EXCEPT !.ctx = c] : c \in {"", "can", "pre"}},
                        !.calls = {call("exec", "C1"), at("T1", 1), call("cancel", "")}, !.ends = {"ok", "err"}]
           @@ [app |-> app(<<hd("p", "process", <<"E1">>, <<"C1", "T1">>), hd("n", "integration", <<"C1">>, <<>>)>>)]
       [] World = "skip" ->    \* options that enable and disable handlers
           [none EXCEPT !.ops = {[op("dispatch", "E1", 1) EXCEPT !.opts = o] : o \in {<<>>, <<<<"h", "p", FALSE>>, <<"h", "p", TRUE>>>>,
                                   <<<<"h", "d", TRUE>>, <<"ty", "projection", FALSE>>>>, <<<<"ty", "process", FALSE>>>>, <<<<"ty", "process", FALSE>>, <<"h", "p", TRUE>>>>}}
                                \cup {[op("tick", "", 3600) EXCEPT !.opts = o] : o \in {<<>>, <<<<"ty", "projection", FALSE>>, <<"ty", "projection", TRUE>>>>, <<<<"h", "d", TRUE>>>>}},
                        !.calls = {at("T1", 1)}]
           @@ [app |-> app(<<hd("p", "process", <<"E1">>, <<"C3", "T1">>), hd("j", "projection", <<"E1">>, <<>>),
                             [hd("d", "projection", <<"E1">>, <<>>) EXCEPT !.dis = TRUE]>>)]
       [] World = "guard" ->   \* illegal messages
           [none EXCEPT !.ops = {op("dispatch", "C1", 1), [op("dispatch", "C1", 1) EXCEPT !.bad = TRUE], op("dispatch", "C4", 1), op("dispatch", "T1", 1), op("dispatch", "E1", 1)},
                        !.insts = {"i", ""}, !.wild = TRUE,
                        !.calls = {[call("rec", t) EXCEPT !.bad = b, !.re = r] : t \in {"E1", "E2"}, b \in BOOLEAN, r \in BOOLEAN}
                                  \cup {[call("exec", t) EXCEPT !.bad = b, !.re = r] : t \in {"C1", "C2"}, b \in BOOLEAN, r \in BOOLEAN}
                                  \cup {[at(t, 1) EXCEPT !.bad = b, !.re = r] : t \in {"T1", "T2"}, b \in BOOLEAN, r \in BOOLEAN}]
           @@ [app |-> app(<<hd("a", "aggregate", <<"C1">>, <<"E1">>), hd("p", "process", <<"E1">>, <<"C1", "T1">>)>>)]
       \* The engines of the worlds of TestGen.tla.
       [] World = "tmsg" -> test(<<hd("a", "aggregate", <<"C1">>, <<"E1", "E2">>), hd("p", "process", <<"E2">>, <<"C2">>), hd("n", "integration", <<"C2">>, <<>>)>>)
                            @@ [none EXCEPT !.calls = {call("rec", "E1"), call("rec", "E2"), call("exec", "C2")}]
       [] World \in {"ttree", "trep", "tsat"} -> test(agg) @@ none
       [] World = "tflow" -> test(<<hd("p", "process", <<"E1">>, <<"C2">>), hd("n", "integration", <<"C2">>, <<>>)>>)
                             @@ [none EXCEPT !.ends = {"ok", "err", "panic"}]
       [] World = "tclock" -> test(<<hd("p", "process", <<"E1">>, <<"C3", "T1">>)>>)
                              @@ [none EXCEPT !.calls = {at("T1", 0), at("T1", 2)}, !.ends = {"ok", "err"}]
       [] World = "texec" -> test(<<hd("a", "aggregate", <<"C1">>, <<"E1">>), hd("p", "process", <<"E1">>, <<"C1">>)>>)
                             @@ [none EXCEPT !.calls = {call("rec", "E1")}, !.ends = {"ok", "err", "panic"}]
       [] World = "tsel" -> test(<<hd("p", "process", <<"E1">>, <<"C1">>), hd("n", "integration", <<"C1">>, <<>>),
                                   hd("jp", "projection", <<"E1">>, <<>>), [hd("dp", "projection", <<"E1">>, <<>>) EXCEPT !.dis = TRUE]>>)
                            @@ [none EXCEPT !.calls = {call("exec", "C1")}]

ASSUME PrintT("WORLD " \o ToJson(W.app))

VARIABLES s,    \* the engine
          nk,   \* number of the next message or token
          no,   \* operations performed
          nc,   \* scope calls made
          tr    \* what the environment has chosen
gvars == <<s, nk, no, nc, tr>>

Num(p) == p \o ToString(nk)
Res(r) == [res |-> r, tok |-> IF r \in {"err", "panic"} THEN Num("x") ELSE ""]
May(S) == {r \in S : TRUE}

(* The first, canonical order in which roots are created and rebuilt. *)
Roots ==
  LET new == {[e |-> "cb", w |-> "new", h |-> s.h, ht |-> Type(s), m |-> "", nw |-> w] : w \in IF s.pc = "call" THEN {""} ELSE W.new}
      apply(k) == {[e |-> "cb", w |-> "apply", h |-> s.h, ht |-> Type(s), m |-> k]}
      fail(k) == IF W.apply /\ s.nw THEN {[e |-> "cb", w |-> "applypanic", h |-> s.h, ht |-> Type(s), m |-> k, tok |-> Num("x")]} ELSE {}
  IN CASE s.pc \in {"a.load", "p.new"} /\ ~s.nw /\ s.pan = {} -> new
       [] s.pc = "a.load" /\ s.ap < Len(s.hr) -> apply(s.hr[s.ap + 1]) \cup fail(s.hr[s.ap + 1])
       [] s.pc = "call" /\ Head(s.out) = "adestroy" /\ ~s.nw -> new
       [] s.pc = "call" /\ Head(s.out) = "prod" /\ Type(s) = "aggregate" /\ s.ap = 0 ->
            apply(s.call.p) \cup (IF W.apply THEN {[e |-> "cb", w |-> "applypanic", h |-> s.h, ht |-> Type(s), m |-> s.call.p, tok |-> Num("x")]} ELSE {})
       [] OTHER -> {}

Ops ==
  {IF o.op = "reset" THEN [e |-> "op", op |-> "reset"]
   ELSE [e |-> "op", op |-> o.op, m |-> IF o.op = "tick" THEN "" ELSE Num("m"), t |-> o.t, k |-> CASE o.t = "" -> "" [] KindOf(o.t) = "C" -> "c" [] KindOf(o.t) = "E" -> "e" [] OTHER -> "t",
         bad |-> o.bad, now |-> <<s.now[1] + o.d, 0>>, wall |-> FALSE, opts |-> o.opts, ctx |-> o.ctx, obs |-> 0, cx |-> [v |-> Num("m"), dl |-> <<>>, done |-> (o.ctx = "pre")]] :
   o \in W.ops}

(* Scope calls of the current handler. *)
MayCall(c) ==
  CASE c.o = "log" -> TRUE
    [] c.o = "cancel" -> ~s.can /\ s.op.ctx = "can"
    [] s.m = "" \/ Type(s) = "projection" -> FALSE
    [] c.o = "rec" -> Type(s) \in {"aggregate", "integration"}
    [] c.o = "destroy" -> Type(s) = "aggregate"
    [] OTHER -> Type(s) = "process"
MayProduce(c) == W.wild \/ c.t = "" \/ Produces(s.app, s.h, c.t)
Calls ==
  IF nc >= Budget.calls THEN {}
  ELSE {IF c.o = "cancel" THEN [e |-> "cancel"]
        ELSE [e |-> "sob", o |-> c.o, h |-> s.h, p |-> IF c.o \in {"destroy", "end"} THEN "" ELSE Num(W.pre), t |-> c.t, bad |-> c.bad,
              at |-> IF c.o = "sched" THEN <<s.now[1] + c.d, 0>> ELSE <<>>, re |-> c.re] : c \in {d \in W.calls : MayCall(d) /\ MayProduce(d)}}

Routes ==
  {[i |-> i, yes |-> TRUE] @@ Res(r) : i \in W.insts, r \in W.route \ {"err"}}
  \cup (IF W.no /\ Type(s) = "process" THEN {[i |-> "", yes |-> FALSE] @@ Res("ok")} ELSE {})
  \cup (IF Type(s) = "process" /\ "err" \in W.ends THEN {[i |-> "", yes |-> TRUE] @@ Res("err")} ELSE {})

FactBase == [h |-> "", i |-> "", v |-> NoEnv, pv |-> NoEnv, root |-> <<>>, errs |-> <<>>, rsn |-> "", now |-> <<>>, p |-> ""]
CbBase == [ht |-> IF s.h = "" THEN "" ELSE Type(s), m |-> s.m, i |-> s.i, k |-> "", root |-> <<>>, own |-> TRUE, at |-> <<>>, less |-> FALSE, used |-> FALSE, next |-> "01",
           par |-> FALSE, tok |-> "", yes |-> TRUE, ver |-> "", ok |-> FALSE]

(* The context that a handler method is given. *)
Context(o) == IF "ctx" \in DOMAIN s.op /\ o.w # "new" /\ Type(s) # "aggregate" THEN [cx |-> [s.op.cx EXCEPT !.done = s.can]] ELSE NoFun

(* Completes an event with what the environment chooses. *)
Fill(o) ==
  CASE o.e = "app" -> {W.app @@ o}
    [] o.e = "op" -> IF no < Budget.ops THEN Ops ELSE {}
    [] o.e = "end" -> IF no = Budget.ops THEN {o} ELSE {}
    [] o.e = "ret" -> {o @@ [errs |-> <<>>, pan |-> [k |-> "", tok |-> "", h |-> ""], can |-> s.can, hi |-> s.now, seen |-> <<"1">>]}
    [] o.e = "f" -> {LET z == o @@ FactBase IN z @@ [m |-> z.v.m]}
    [] o.e = "cb" -> {o @@ [CbBase EXCEPT !.used = s.ex, !.less = (s.h # "" /\ HOf(s.app, s.h).less)] @@ Context(o)}
    [] o.e = "sob" -> Calls
    [] o.e = "cancel" -> {}
    [] o.e = "so" -> {o @@ [ht |-> Type(s), m |-> s.m, i |-> s.i, t |-> s.call.t, bad |-> s.call.bad, at |-> s.call.at, root |-> s.hr, re |-> s.call.re, pan |-> [k |-> "", tok |-> "", h |-> ""]]}
    [] o.e = "clog" -> IF Len(s.comp.rep) < W.clogs THEN {o @@ [p |-> "l"]} ELSE {}
    [] o.e = "cbx" /\ o.w = "route" -> {o @@ r @@ CbBase : r \in Routes}
    [] o.e = "cbx" /\ o.w = "handle" ->
         IF "res" \in DOMAIN o THEN {o @@ [tok |-> "scope"] @@ CbBase}
         ELSE {o @@ Res(r) @@ CbBase : r \in IF Type(s) = "aggregate" THEN W.ends \ {"err"} ELSE W.ends}
    [] o.e = "cbx" /\ o.w = "hev" -> {o @@ Res("ok") @@ [ok |-> b] @@ CbBase : b \in W.applied} \cup {o @@ Res(r) @@ CbBase : r \in W.ends \ {"ok"}}
    [] o.e = "cbx" /\ o.w = "rv" ->
         {IF r = "set" THEN o @@ Res("ok") @@ [ver |-> "v"] @@ CbBase ELSE o @@ Res(r) @@ CbBase : r \in W.rv}
    [] o.e = "cbx" /\ o.w = "close" -> {o @@ Res(r) @@ CbBase : r \in W.close}
    [] o.e = "cbx" /\ o.w = "compact" -> {o @@ Res(r) @@ CbBase : r \in W.comp}
    [] o.e = "cbx" -> {o @@ Res("panic") @@ CbBase}
    [] OTHER -> {o}

X == [id |-> ToString(Cardinality(s.ids) + 1), now |-> IF "now" \in DOMAIN s.op THEN s.op.now ELSE <<>>]
Events == IF Roots # {} THEN Roots ELSE UNION {Fill(o) : o \in Outs(s, X)} \cup (IF s.pc \in {"in", "j.in", "t.in"} THEN {c \in Calls : c.e = "cancel"} ELSE {})

Chosen(e) == e.e \in {"op", "sob", "cancel", "cbx"} \/ (e.e = "cb" /\ e.w \in {"new", "apply", "applypanic"})
Fields == {"e", "w", "o", "p", "t", "k", "h", "m", "i", "op", "now", "opts", "ctx", "bad", "re", "at", "yes", "res", "ver", "ok", "nw", "par", "tok"}
Choice(e) ==
  LET z == e @@ [m |-> s.m, h |-> s.h] IN
  [k \in (DOMAIN z \cap Fields) |-> z[k]] @@ [logs |-> Len(s.comp.rep), cur |-> s.m]
(* A behaviour has ended: its choices are a scenario for the real engine. *)
Export == s.pc # "end" \/ PrintT("SCEN " \o ToJson(tr))

GInit == s = Boot /\ nk = 1 /\ no = 0 /\ nc = 0 /\ tr = <<>>
GStep(e) ==
  /\ s' = Step(s, e, X)
  /\ nk' = nk + (IF e.e \in {"op", "sob"} \/ (e.e \in {"cb", "cbx"} /\ e.w # "handle" /\ "tok" \in DOMAIN e /\ e.tok = Num("x"))
                     \/ (e.e = "cbx" /\ e.tok = Num("x")) THEN 1 ELSE 0)
  /\ no' = no + (IF e.e = "op" THEN 1 ELSE 0)
  /\ nc' = nc + (IF e.e \in {"sob", "cancel"} THEN 1 ELSE 0)
  /\ tr' = IF Chosen(e) THEN Append(tr, Choice(e)) ELSE tr
=============================================================================
