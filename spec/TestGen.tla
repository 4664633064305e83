------------------------------- MODULE TestGen -------------------------------
(* Behaviours of tests in a small world: an application, how tests begin, the *)
(* steps they may take, and what handlers and functions may do.               *)
EXTENDS TestKit, Json

CONSTANT World    \* name of the world
CONSTANT Budget   \* [ops, calls]: how many steps, and calls of scopes and of SatisfyT in all

VARIABLES s,    \* the test
          nk,   \* number of the next message, execution or token
          no,   \* steps taken
          nc,   \* calls made
          pd,   \* parts of the expectation that were asked for their report
          tr    \* what the environment has chosen
gvars == <<s, nk, no, nc, pd, tr>>

EG == INSTANCE EngineGen WITH s <- s.g
RP == INSTANCE Report
P31 == INSTANCE C31

Num(p) == p \o ToString(nk)
(* The content of a message whose key begins with n depends on the last digit. *)
Body(k) == LET c == SubSeq(k, Len(k), Len(k)) IN
           CASE c \in {"1", "4", "7"} -> "b1" [] c \in {"2", "5", "8"} -> "b2" [] OTHER -> "b0"
Key(j) == "ns" \o ToString(no) \o "-" \o ToString(j)
Lbl(p) == "x" \o ToString(no) \o p

(***************************************************************************)
(* Parts of programs.                                                      *)
(***************************************************************************)
NoIc == [n |-> "", do |-> 0, oth |-> "", end |-> ""]
Ic(n, d, o, r) == [n |-> n, do |-> d, oth |-> o, end |-> r]
B0 == [start |-> <<100, 0>>, lo |-> <<500, 0>>, hi |-> <<500, 0>>, opts |-> <<>>, cmp |-> "", icpt |-> NoIc, stop |-> "cont"]

A(k) == [NoAct EXCEPT !.k = k, !.bind = (k = "call")]
Send(k, t, j) == [A(k) EXCEPT !.m = Key(j), !.t = t]
Time(k, d) == [A(k) EXCEPT !.d = d]
Bd(k, m, t) == [k |-> k, m |-> m, t |-> t, n |-> 0, bad |-> FALSE]
Exec(t, j) == Bd("ex", Key(j), t)
Calling(b) == [A("call") EXCEPT !.body = b]
Custom(b, r) == [A("custom") EXCEPT !.body = b, !.end = r]

X0(k, p) == [k |-> k, l |-> Lbl(p), t |-> "", m |-> "", b |-> "", pr |-> [b0 |-> "", b1 |-> "", b2 |-> ""], ok |-> FALSE, err |-> FALSE, kids |-> <<>>]
Probe(p, b) == [X0("probe", p) EXCEPT !.ok = b]
Faulty(p) == [X0("probe", p) EXCEPT !.err = TRUE]
Node(k, p, kids) == [X0(k, p) EXCEPT !.kids = kids]
Pr(a, b, c) == [b0 |-> a, b1 |-> b, b2 |-> c]

RECURSIVE Trees(_, _)
Trees(p, n) ==
  LET leaf == {Probe(p, b) : b \in BOOLEAN}
      a == Trees(p \o "1", n - 1)
      b == Trees(p \o "2", n - 1) IN
  IF n = 0 THEN leaf
  ELSE leaf \cup {Node(k, p, <<x>>) : k \in {"all", "any", "none", "not", "rep"}, x \in a}
            \cup {Node(k, p, <<x, y>>) : k \in {"all", "any", "none", "rep"}, x \in a, y \in b}

(* Expectations that report what they are told to. *)
Rep0 == [crit |-> "", out |-> "", exp |-> <<>>, adds |-> <<>>, subs |-> <<>>, ok |-> TRUE]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Adds == SeqsUpTo({[t |-> t, ls |-> ls] : t \in {"A", "B"}, ls \in {<<>>, <<"x">>, <<"y", "", "  z">>}}, 2)
        \cup {<<[t |-> "A", ls |-> <<"1">>], [t |-> "B", ls |-> b], [t |-> c, ls |-> <<"2">>]>> : b \in {<<>>, <<"3">>}, c \in {"A", "B", "C"}}
SubReports == {<<>>, <<[Rep0 EXCEPT !.crit = "s", !.ok = FALSE, !.out = "why"]>>,
               <<[Rep0 EXCEPT !.crit = "s", !.exp = <<"e">>, !.subs = <<[Rep0 EXCEPT !.crit = "t", !.adds = <<[t |-> "A", ls |-> <<"x">>]>>]>>], [Rep0 EXCEPT !.crit = "u"]>>}
Scripted == {[Rep0 EXCEPT !.crit = co[1], !.out = co[2], !.exp = x, !.adds = a, !.subs = u] :
               co \in {<<"", "">>, <<"c", "o (p)">>}, x \in {<<>>, <<"e", "", "f">>}, a \in Adds, u \in SubReports}
Few == {[Rep0 EXCEPT !.exp = <<"e">>], [Rep0 EXCEPT !.adds = <<[t |-> "A", ls |-> <<"x", "y">>]>>], [Rep0 EXCEPT !.out = "o", !.subs = <<[Rep0 EXCEPT !.crit = "s"]>>], Rep0}
Reporter(p, b, r) == Probe(p, b) @@ [rep |-> r]

Prepare(as) == [k |-> "prepare", acts |-> as, x |-> [k |-> ""]]
Expect(a, x) == [k |-> "expect", acts |-> <<a>>, x |-> x]
Outside == [k |-> "exec", acts |-> <<>>, x |-> [k |-> ""]]
Sel(en, like, names, hits) == [en |-> en, like |-> like, names |-> names, hits |-> hits]

Leaves1 ==
  LET ks == {Key(1), "n" \o ToString(nk), "n" \o ToString(nk + 1)} IN
  {[X0("eq", "1") EXCEPT !.t = t, !.m = m, !.b = Body(m)] : t \in {"C1", "C2", "C3", "E1", "E2"}, m \in ks}
  \cup {[X0("eq", "1") EXCEPT !.t = "E1", !.m = m, !.b = "b3"] : m \in ks}
  \cup {[X0("typ", "1") EXCEPT !.t = t] : t \in {"C1", "C2", "C3", "E1", "E2"}}
  \cup {[X0(k, "1") EXCEPT !.t = t, !.pr = p] : k \in {"match", "only"}, t \in {"C1", "C2", "E1", "C*", "E*"},
          p \in {Pr("ok", "ok", "ok"), Pr("rej", "ok", "rej"), Pr("rej", "rej", "rejk"), Pr("ign", "ok", "rej"), Pr("ign", "ign", "ok"), Pr("rejk", "ign", "ign")}}

TW ==
  CASE World = "tmsg" ->  \* expectations about messages
         [begins |-> {B0, [B0 EXCEPT !.cmp = "body", !.stop = "exit"]}, sats |-> {}, sels |-> {},
          steps |-> {Expect(a, x) : a \in {Send("exec", "C1", 1), Calling(<<Exec("C1", 1)>>)}, x \in Leaves1}]
    [] World = "ttree" -> \* expectations made of others
         [begins |-> {B0}, sats |-> {}, sels |-> {},
          steps |-> {Expect(Send("exec", "C1", 1), x) : x \in Trees("", 2)}
                    \cup {Expect(Calling(<<>>), Node(k, "", <<x, y>>)) : k \in {"all", "any", "none", "rep"}, x \in {Probe("1", TRUE), Faulty("1")},
                            y \in {Probe("2", FALSE), Faulty("2")}}
                    \cup {Expect(Calling(<<>>), Node("rep", "", <<x, X0("nil", "2")>>)) : x \in {Probe("1", TRUE), Faulty("1")}}]
    [] World = "tsat" ->  \* functions that use SatisfyT
         [begins |-> {B0, [B0 EXCEPT !.stop = "exit"]}, sels |-> {},
          sats |-> {"fail", "failnow", "skip", "panic", "cleanup", "log"} \cup (IF s.t.begin # <<>> /\ s.t.begin.stop = "exit" THEN {"goexit"} ELSE {}),
          steps |-> {Expect(Calling(<<>>), X0("sat", "1")), Expect(Calling(<<>>), Node("not", "", <<X0("sat", "1")>>)),
                     Expect(Calling(<<>>), Node("all", "", <<X0("sat", "1"), X0("sat", "2"), Probe("3", TRUE)>>)),
                     Expect([Calling(<<>>) EXCEPT !.end = "panic"], X0("sat", "1"))}]
    [] World = "tflow" -> \* what failures do to a test
         [begins |-> {B0, [B0 EXCEPT !.stop = "exit"]}, sats |-> {"failnow"}, sels |-> {},
          steps |-> {Prepare(<<Send("rec", "E1", 1), Send("rec", "E1", 2)>>), Prepare(<<Send("exec", "C4", 1), Send("rec", "E1", 2)>>),
                     Prepare(<<Custom(<<>>, "err"), Calling(<<>>)>>), Prepare(<<Custom(<<>>, "panic"), Calling(<<>>)>>),
                     Prepare(<<[Calling(<<>>) EXCEPT !.end = "panic"], Calling(<<>>)>>), Prepare(<<>>),
                     Expect(Send("rec", "E1", 1), Probe("1", TRUE)), Expect(Send("rec", "E1", 1), Probe("1", FALSE)), Expect(Send("rec", "E1", 1), Faulty("1")),
                     Expect(Send("exec", "C4", 1), Probe("1", TRUE)), Expect(Send("exec", "C3", 1), Probe("1", TRUE)),
                     Expect(Custom(<<>>, "err"), Probe("1", FALSE)), Expect(Calling(<<>>), [X0("typ", "1") EXCEPT !.t = "C4"]),
                     Expect([Calling(<<>>) EXCEPT !.end = "panic"], Node("all", "", <<Probe("1", FALSE), X0("sat", "2")>>))}
                    \cup (IF s.t.begin # <<>> /\ s.t.begin.stop = "exit" THEN {Expect([Calling(<<>>) EXCEPT !.end = "exit"], Probe("1", TRUE))} ELSE {})]
    [] World = "tclock" -> \* the virtual clock
         [begins |-> {B0, [B0 EXCEPT !.start = <<>>]}, sats |-> {}, sels |-> {},
          steps |-> {Prepare(<<Send("rec", "E1", 1)>>), Prepare(<<Time("by", <<0, 0>>)>>), Prepare(<<Time("by", <<1, 0>>), Time("by", <<1, 500>>)>>),
                     Prepare(<<Time("adj", <<2, 0>>)>>), Expect(Time("adj", <<-1, 0>>), Probe("1", TRUE)), Expect(Time("by", <<2, 0>>), Probe("1", FALSE)),
                     Prepare(<<Custom(<<Bd("set", "", "")>>, "err"), Time("by", <<1, 0>>)>>),
                     Prepare(<<Custom(<<Bd("set", "", ""), Bd("disp", Key(1), "E1"), Bd("clk", "", "")>>, ""), Custom(<<Bd("clk", "", "")>>, "")>>)}
                    \cup (IF s.t.known THEN {Prepare(<<Time("to", <<99, 0>>), Send("rec", "E1", 1)>>), Expect(Time("to", <<103, 0>>), Probe("1", TRUE))} ELSE {})]
    [] World = "texec" -> \* the command executor
         [begins |-> {[B0 EXCEPT !.icpt = c] : c \in {NoIc, Ic("test", 0, "", "err"), Ic("test", 1, "", "")}} \cup {[B0 EXCEPT !.stop = "exit"]}, sats |-> {}, sels |-> {},
          steps |-> {Prepare(<<Calling(<<Exec("C1", 1)>>)>>), Expect(Calling(<<Exec("C1", 1), Exec("C1", 2)>>), Probe("1", TRUE)),
                     Prepare(<<Calling(<<[Exec("C1", 1) EXCEPT !.bad = TRUE], Exec("C3", 2)>>)>>), Outside,
                     Prepare(<<Custom(<<Exec("C1", 1), Bd("disp", Key(2), "C1")>>, "")>>), Prepare(<<[Custom(<<Exec("C1", 1)>>, "") EXCEPT !.bind = TRUE]>>),
                     Prepare(<<[Calling(<<Exec("C1", 1)>>) EXCEPT !.end = "panic"]>>)}
                    \cup {Prepare(<<[Custom(<<Exec("C1", 1)>>, r) EXCEPT !.bind = TRUE, !.icpt = c], Calling(<<Exec("C1", 2)>>)>>) :
                            r \in {"", "panic"}, c \in {Ic("nil", 0, "", ""), Ic("custom", 1, "", "")}}
                    \cup {Prepare(<<[Calling(<<Exec("C1", 1)>>) EXCEPT !.icpt = c], Custom(<<Exec("C1", 2)>>, "")>>) :
                            c \in {Ic("call", 0, "", ""), Ic("call", 1, "", ""), Ic("call", 1, "", "ok"), Ic("call", 1, "", "panic"), Ic("call", 0, "C1", "err")}}]
    [] World = "trep" ->  \* what reports say
         [begins |-> {B0}, sats |-> {}, sels |-> {},
          steps |-> {Expect(Calling(<<>>), Reporter("1", b, r)) : b \in BOOLEAN, r \in Scripted}
                    \cup {Expect(Calling(<<>>), Node(k, "", <<Reporter("1", b, q), Node(j, "2", <<Reporter("21", c, r)>>)>>)) :
                            k \in {"all", "any", "none", "rep"}, j \in {"all", "not", "none", "rep"}, b \in BOOLEAN, c \in BOOLEAN, q \in Few, r \in Few}]
    [] OTHER ->            \* "tsel": selecting handlers
         [begins |-> {[B0 EXCEPT !.opts = o] : o \in {<<>>, <<<<"ty", "projection", TRUE>>>>, <<<<"ty", "process", FALSE>>>>}}, sats |-> {},
          sels |-> {Sel(TRUE, FALSE, <<"n">>, <<<<"n">>>>), Sel(FALSE, FALSE, <<"p">>, <<<<"p">>>>), Sel(TRUE, FALSE, <<"p", "jp">>, <<<<"p">>, <<"jp">>>>),
                    Sel(TRUE, FALSE, <<"zz">>, <<<<>>>>), Sel(TRUE, FALSE, <<"dp">>, <<<<"dp">>>>), Sel(FALSE, FALSE, <<"dp">>, <<<<"dp">>>>),
                    Sel(TRUE, TRUE, <<"p$">>, <<<<"p", "jp", "dp">>>>), Sel(FALSE, TRUE, <<"^p", "n">>, <<<<"p">>, <<"n">>>>), Sel(TRUE, TRUE, <<"^dp$">>, <<<<"dp">>>>),
                    Sel(FALSE, TRUE, <<"jp", "zz">>, <<<<"jp">>, <<>>>>), Sel(FALSE, TRUE, <<".">>, <<<<"p", "n", "jp", "dp">>>>)},
          steps |-> {Prepare(<<Send("rec", "E1", 1)>>)}]

TApp == EG!W.app @@ [layer |-> "test"]
ASSUME PrintT("WORLD " \o ToJson(TApp))

(***************************************************************************)
(* Events.                                                                 *)
(***************************************************************************)
X == [id |-> ToString(Cardinality(s.g.ids) + 1),
      now |-> CASE s.pc = "op" -> s.g.op.now
                [] s.pc = "act" /\ NextAct(s.t).k = "by" -> TimeAdd(s.t.clk, NextAct(s.t).d)
                [] OTHER -> s.t.clk]

NoPan == [k |-> "", tok |-> "", h |-> ""]
Types == {"aggregate", "process", "integration", "projection"}
En == [ty |-> [ty \in Types |-> TypeOn(s.t.opts, ty)],
       hs |-> LET H == {n \in Names(s.t.app) : OptIdx(s.t.opts, "h", n) # {}}
                  seq == CHOOSE q \in [1..Cardinality(H) -> H] : Ran(q) = H IN
              [j \in 1..Cardinality(H) |-> <<seq[j], s.t.opts[MaxOf(OptIdx(s.t.opts, "h", seq[j]))][3]>>]]
Kind(t) == CASE t = "" -> "" [] KindOf(t) = "c" -> "c" [] OTHER -> "e"
Op(o) ==
  LET z == o @@ [m |-> "", t |-> "", bad |-> FALSE] IN
  z @@ [k |-> Kind(z.t), b |-> Body(z.m \o "0"), opts |-> <<>>, obs |-> 0, en |-> En, cx |-> [v |-> "test", dl |-> <<>>, done |-> FALSE]]
OpB(o) == LET z == Op(o) IN IF z.m = "" THEN z ELSE [z EXCEPT !.b = Body(z.m)]
Pan(o) == IF "pan" \in DOMAIN o /\ o.pan.k = "any" THEN [o EXCEPT !.pan = [NoPan EXCEPT !.k = "str"]] ELSE o @@ [pan |-> NoPan]
Tok(o) == o @@ [tok |-> IF o.res \in {"err", "panic"} THEN Num("x") ELSE ""]

(* What a report says about a part of the expectation. *)
NoEx2 == [k |-> "", h |-> "", ht |-> "", a |-> 0, b |-> 0, kind |-> "", l |-> <<>>]
Producers(k) == IF k = "c" THEN {"process"} ELSE {"aggregate", "integration"}
Why(x) ==
  LET k == KindOf(x.t)
      ms == OfKind(s.t, k)
      n(d) == Len(SelectSeq(ms, LAMBDA m : Assignable(x.t, m) /\ x.pr[m.b] = d))
      sim == {j \in DOMAIN s.t.prod : s.t.prod[j].t = x.t}
      off == \A ty \in Producers(k) : ~TypeOn(s.t.opts, ty)
      eng == \E h \in s.t.eng : TypeOf(s.t.app, h) \in Producers(k)
      z(w) == [NoEx2 EXCEPT !.k = w] IN
  CASE x.k = "only" -> {IF n("ok") = 0 THEN [z("zero") EXCEPT !.b = Len(ms) - n("ign")] ELSE [z("count") EXCEPT !.a = n("ok"), !.b = Len(ms) - n("ign")]}
    [] x.k = "eq" /\ sim # {} -> {LET m == s.t.prod[j] IN IF m.h = "" THEN z("simx") ELSE [z("simh") EXCEPT !.h = m.h, !.ht = m.ht, !.kind = k] : j \in sim}
    [] ~s.t.st.acts[1].bind /\ off -> {z("noen")}
    [] ~s.t.st.acts[1].bind /\ ~eng -> {z("noeng")}
    [] s.t.prod = <<>> -> {z("nomsg")}
    [] ms = <<>> -> {z("nokind")}
    [] OTHER -> {z("nomatch")}
Line(ln, x) ==
  LET b == ln @@ [out |-> [k |-> "", a |-> 0, b |-> 0, c |-> 0], sg |-> <<>>, fm |-> <<>>, crit |-> ""] IN
  {b @@ [ex |-> w] : w \in IF MessageLeaf(x) /\ ~ln.ok THEN Why(x) ELSE {NoEx2}}
(* Only one line at a time has several explanations. *)
Reports(o) ==
  LET q == Outline(s.t, s.t.st.x, 0, FALSE)
      one(j) == CHOOSE w \in Line(o.lines[j], q[j].x) : TRUE IN
  {[e |-> "rep", lines |-> [j \in DOMAIN q |-> one(j)]]}
  \cup UNION {{[e |-> "rep", lines |-> [j \in DOMAIN q |-> IF i = j THEN w ELSE one(j)]] : w \in Line(o.lines[i], q[i].x)} : i \in DOMAIN q}

(* The report as text, and the text read again. *)
Labelled(r, x) == IF r.crit = "" THEN [r EXCEPT !.crit = "probe " \o x.l] ELSE r
PartOf(x) ==
  IF x.k = "probe" THEN [Labelled(x.rep, x) EXCEPT !.ok = Eval(s.t, x)]
  ELSE [Rep0 EXCEPT !.crit = P31!Crit(x), !.out = P31!Outcome(s.t, x), !.ok = Eval(s.t, x)]
RECURSIVE Nest(_, _)
(* The reports of the lines q at depth d, up to the next one that is less deep. *)
Nest(q, d) ==
  IF q = <<>> \/ q[1].d < d THEN <<>>
  ELSE LET rest == Tail(q)
           I == {j \in DOMAIN rest : rest[j].d <= d}
           n == IF I = {} THEN Len(rest) ELSE MinOf(I) - 1
           r == PartOf(q[1].x) IN
       <<[r EXCEPT !.subs = @ \o Nest(SubSeq(rest, 1, n), d + 1)]>> \o Nest(SubSeq(rest, n + 1, Len(rest)), d)
Content(o) ==
  LET q == Outline(s.t, s.t.st.x, 0, FALSE)
      t == RP!Read(RP!Concat([j \in 1..Len(Nest(q, 0)) |-> RP!Write(Nest(q, 0)[j])])) IN
  o @@ [nodes |-> t.nodes, junk |-> t.junk]

Sat(o) ==
  IF nc >= Budget.calls THEN {}
  ELSE IF o.w = "ask" THEN {o}
  ELSE {o @@ [o |-> f, c |-> IF f = "cleanup" THEN Num("c") ELSE "", tok |-> IF f = "panic" THEN Num("x") ELSE ""] : f \in TW.sats}

Fill(o) ==
  CASE o.e = "app" -> {o @@ TApp}
    [] o.e = "begin" -> {o @@ b : b \in TW.begins}
    [] o.e = "step" -> IF no < Budget.ops THEN {o @@ st @@ [n |-> no + 1, same |-> 0] : st \in TW.steps} ELSE {}
    [] o.e = "sel" -> IF no < Budget.ops THEN {o @@ z : z \in TW.sels} ELSE {}
    [] o.e = "ann" -> {}
    [] o.e = "end" -> IF no = Budget.ops THEN {o} ELSE {}
    [] o.e = "op" -> {OpB(o)}
    [] o.e = "adj" -> {o @@ [to |-> <<o.from[1] + s.t.st.acts[s.i + 1].d[1], o.from[2]>>]}
    [] o.e = "set" -> {o @@ [at |-> <<s.t.clk[1] + 60, s.t.clk[2]>>]}
    [] o.e = "do" -> {o @@ [cx |-> <<>>]}
    [] o.e \in {"callx", "dox"} -> {Tok(o)}
    [] o.e = "prep" \/ (o.e = "ex" /\ o.by = "handler") -> {}
    [] o.e = "ex" -> {o @@ [m |-> Key(1), t |-> "C1", bad |-> FALSE, id |-> nk]}
    [] o.e = "exx" -> {Pan(o) @@ [errs |-> <<>>]}
    [] o.e = "icx" -> {IF "errs" \in DOMAIN o THEN o @@ [tok |-> ""] ELSE Tok(o) @@ [errs |-> <<>>]}
    [] o.e = "pdone" -> {o @@ [seen |-> "", obs |-> ""]}
    [] o.e = "sat" /\ o.w = "b" -> {o @@ [seen |-> "", obs |-> ""]}
    [] o.e = "sat" /\ o.w \in {"op", "ask"} -> Sat(o)
    [] o.e = "fatal" -> {o @@ [tok |-> ""]}
    [] o.e = "sret" -> {Pan(o)}
    [] o.e = "rep" -> IF World = "trep" THEN {Content(r) : r \in Reports(o)} ELSE Reports(o)
    [] o.e = "so" -> {z @@ [b |-> Body(z.p \o (IF z.p = "" THEN "0" ELSE ""))] : z \in EG!Fill(o)}
    [] o.e \in {"ret", "f", "cb", "cbx", "sob", "clog", "cancel"} -> EG!Fill(o)
    [] OTHER -> {o}

(* Of the orders in which parts are set up and completed, one is enough. *)
Canon(O) ==
  LET P == {o \in O : o.e \in {"pnew", "pdone"} \/ (o.e = "sat" /\ o.w = "b")} IN
  IF P = {} THEN O ELSE (O \ P) \cup {CHOOSE o \in P : TRUE}

(* Message predicates are called when the expectation is completed. *)
PmDue ==
  IF ~(Expecting(s) /\ s.pc \in {"done", "over"} /\ s.sat = "" /\ ~s.rep) THEN {}
  ELSE {x \in Preds(s) : Len(Given(s, x.l)) < Enough(s, x)}
Pm(x) == LET m == Cands(s, x)[Len(Given(s, x.l)) + 1] IN [e |-> "pm", l |-> x.l, m |-> m.m, t |-> m.t, res |-> x.pr[m.b]]
PrepDue ==
  IF ~(s.pc = "over" /\ s.res.k = "ok" /\ s.t.abort = {} /\ ~s.rep) THEN {}
  ELSE {l \in Labels(Probes(s)) : l \notin pd /\ Shown(s, l) # {}}

Ev(a) ==
  IF a.pc = "op" /\ EG!Roots # {} THEN EG!Roots
  ELSE UNION {Fill(o) : o \in Canon(Outs0(a, X))}
Events ==
  IF PmDue # {} THEN {Pm(CHOOSE x \in PmDue : TRUE)}
  ELSE IF PrepDue # {} THEN {Prep(s, CHOOSE l \in PrepDue : TRUE)}
  ELSE UNION {Ev(a) : a \in Alts(s)}

Chosen(e) == e.e \in {"begin", "step", "sel", "op", "ex", "sat"} \/ (s.pc = "op" /\ EG!Chosen(e))
Choice(e) == IF e.e \in {"begin", "step", "sel", "op", "ex", "sat"} THEN e ELSE EG!Choice(e)
Export == s.pc # "end" \/ PrintT("SCEN " \o ToJson(tr))

GInit == s = TBoot /\ nk = 1 /\ no = 0 /\ nc = 0 /\ pd = {} /\ tr = <<>>
GStep(e) ==
  /\ s' = Step(s, e, X)
  /\ nk' = nk + (IF e.e \in {"sob", "ex"} \/ ("tok" \in DOMAIN e /\ e.tok = Num("x")) \/ ("c" \in DOMAIN e /\ e.c = Num("c")) THEN 1 ELSE 0)
  /\ no' = no + (IF e.e \in {"step", "sel"} THEN 1 ELSE 0)
  /\ nc' = nc + (IF e.e = "sob" \/ (e.e = "sat" /\ e.w \in {"op", "ask"}) THEN 1 ELSE 0)
  /\ pd' = CASE e.e = "step" -> {} [] e.e = "prep" -> pd \cup {e.l} [] OTHER -> pd
  /\ tr' = IF Chosen(e) THEN Append(tr, Choice(e)) ELSE tr
=============================================================================
