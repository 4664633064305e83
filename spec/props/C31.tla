-------------------------------- MODULE C31 --------------------------------
(* A report shows what the expectations reported, completely and unaltered. *)
(*                                                                          *)
(*   ann   a value is annotated: t (type, if it is a message), m, txt       *)
(*   rep   ... nodes: the parts of the report (d depth, ok, hd heading,     *)
(*         sects sections, df the messages that are compared), and junk,    *)
(*         the lines that belong to none of them                            *)
(*   sat   ... fn, ls, direct, loc: the method called, what it logs, and    *)
(*         where the user's code calls it                                   *)
EXTENDS TestCommon

(* z     label -> what the function of a ToSatisfy() expectation has said
   anns  annotations, in order
   rep   reports of this step *)
Init == [t |-> TrackInit, z |-> NoFun, anns |-> <<>>, rep |-> 0]
Known(s, e) == {}

Said(s, l) == Get(s.z, l, [ex |-> "", ls |-> <<>>, log |-> FALSE])
Say(q, e) ==
  [ex |-> IF q.ex # "" \/ e.fn = "" THEN q.ex
          ELSE e.fn \o "() called " \o (IF e.direct THEN "at " ELSE "indirectly by call at ") \o e.loc,
   ls |-> q.ls \o e.ls,
   log |-> q.log \/ e.ls # <<>>]

(* Headings. *)
Verb(t, c, v) == IF KindOf(t) = "c" THEN c ELSE v
RECURSIVE Crit(_)
Crit(x) ==
  CASE x.k = "eq" -> Verb(x.t, "execute a specific '" \o x.t \o "' command", "record a specific '" \o x.t \o "' event")
    [] x.k = "typ" -> Verb(x.t, "execute any '" \o x.t \o "' command", "record any '" \o x.t \o "' event")
    [] x.k = "match" -> Verb(x.t, "execute a command", "record an event") \o " that matches the predicate near @"
    [] x.k = "only" -> Verb(x.t, "only execute commands", "only record events") \o " that match the predicate near @"
    [] x.k = "probe" -> IF x.rep.crit = "" THEN "probe " \o x.l ELSE x.rep.crit
    [] x.k = "sat" -> "satisfy " \o x.l
    [] x.k = "rep" -> "repeat " \o x.l
    [] x.k = "not" -> "do not " \o Crit(x.kids[1])
    [] x.k \in {"all", "any"} /\ Len(x.kids) = 1 -> Crit(x.kids[1])
    [] x.k = "all" -> "all of"
    [] x.k = "any" -> "any of"
    [] x.k = "none" -> "none of"
    [] OTHER -> ""
Outcome(t, x) ==
  LET n == Len(x.kids)
      p == Cardinality(Passed(t, x))
      F == DOMAIN x.kids \ Passed(t, x) IN
  CASE x.k = "probe" -> x.rep.out
    [] x.k = "sat" -> IF SatOf(t, x.l).skipped THEN "the expectation was skipped" ELSE IF SatOf(t, x.l).failed THEN "the expectation failed" ELSE ""
    [] Eval(t, x) -> ""
    [] x.k = "rep" -> ToString(n - p) \o " of " \o ToString(n) \o " iteration(s) failed, iteration #" \o ToString(MinOf(F) - 1) \o " shown"
    [] x.k = "all" -> ToString(n - p) \o " of the expectations failed"
    [] x.k = "any" -> "all " \o ToString(n) \o " of the expectations failed"
    [] x.k = "none" /\ n = 1 -> "the expectation passed unexpectedly"
    [] x.k = "none" -> ToString(p) \o " of the expectations passed unexpectedly"
    [] OTHER -> ""
Head2(c, o) == IF o = "" THEN c ELSE c \o " (" \o o \o ")"

(* Sections. *)
Sect(ti, ls) == [t |-> ti, ls |-> ls]
Explained(ls) == IF ls = <<>> THEN <<>> ELSE <<Sect("EXPLANATION", ls)>>
RECURSIVE Added(_, _)
Added(q, adds) ==
  IF adds = <<>> THEN q
  ELSE LET a == adds[1]
           I == {i \in DOMAIN q : q[i].t = a.t} IN
       Added(IF I = {} THEN Append(q, a) ELSE [q EXCEPT ![MinOf(I)].ls = @ \o a.ls], Tail(adds))
Scripted(rep) == Explained(rep.exp) \o SelectSeq(Added(<<>>, rep.adds), LAMBDA c : c.ls # <<>>)

Node(d, ok, hd, sects) == [d |-> d, ok |-> ok, hd |-> hd, sects |-> sects, leaf |-> <<>>]
RECURSIVE SubNodes(_, _)
SubNodes(reps, d) ==
  IF reps = <<>> THEN <<>>
  ELSE <<Node(d, reps[1].ok, Head2(reps[1].crit, reps[1].out), Scripted(reps[1]))>> \o SubNodes(reps[1].subs, d + 1) \o SubNodes(Tail(reps), d)

(* The parts of the report for a line of its outline. *)
Parts(s, o) ==
  LET t == s.t
      x == o.x
      hd == Head2(Crit(x), Outcome(t, x))
      ok == Eval(t, x)
      q == Said(s, x.l) IN
  CASE x.k = "probe" -> <<Node(o.d, ok, hd, Scripted(x.rep))>> \o SubNodes(x.rep.subs, o.d + 1)
    [] x.k = "sat" -> <<Node(o.d, ok, hd, IF ~ok /\ o.inv THEN <<>>
                                          ELSE Explained(IF q.ex = "" THEN <<>> ELSE <<q.ex>>)
                                               \o (IF q.log THEN <<Sect("LOG MESSAGES", q.ls)>> ELSE <<>>))>>
    [] MessageLeaf(x) -> <<[Node(o.d, ok, hd, <<>>) EXCEPT !.leaf = IF ok \/ o.inv \/ Eval(t, t.st.x) THEN <<>> ELSE <<x>>]>>
    [] OTHER -> <<Node(o.d, ok, hd, <<>>)>>
RECURSIVE AllParts(_, _)
AllParts(s, os) == IF os = <<>> THEN <<>> ELSE Parts(s, os[1]) \o AllParts(s, Tail(os))

(* Annotations of a string, or of a message. *)
RECURSIVE Texts(_)
Texts(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1].txt ELSE q[1].txt \o ", " \o Texts(Tail(q))
OnString(s, v) == Texts(SelectSeq(s.anns, LAMBDA a : a.t = "" /\ a.m = v))
OnMessage(s, ty, m, b) == Texts(SelectSeq(s.anns, LAMBDA a : a.t = ty /\ a.m = m /\ a.b = b))
Annotated(s, ty, d) ==
  d.ma = OnString(s, d.m) /\ d.ba = OnString(s, d.b) /\ (\A j \in DOMAIN d.xa : d.xa[j] = OnString(s, d.b)) /\ d.a = OnMessage(s, ty, d.m, d.b)

(* What is shown about an expectation that some message was produced. *)
Similar(t, x) == {j \in DOMAIN t.prod : t.prod[j].t = x.t}
Diff(s, x, g, ln) ==
  LET shown == {j \in Similar(s.t, x) : s.t.prod[j].m = g.df.m.m /\ s.t.prod[j].b = g.df.m.b} IN
  IF ~g.df.on \/ x.t \in {"C6", "E6"} THEN {}
  ELSE Rule(x.k = "eq" /\ g.df.x.m = x.m /\ g.df.x.b = x.b, "the report compares with something else than was expected")
       \cup Rule(shown # {}, "the report compares with a message that was not produced")
       \cup Rule(shown = {} \/ ln = <<>> \/ \E j \in shown : s.t.prod[j].h = ln[1].ex.h, "the report compares with a message of another handler")
       \cup Rule(g.df.x.full /\ g.df.m.full, "the report does not show the messages that it compares in full")
       \cup Rule(Annotated(s, x.t, g.df.x) /\ Annotated(s, x.t, g.df.m), "an annotation is not shown where it belongs")
Leaf(s, x, g, ln) ==
  Rule(g.sects # <<>> /\ g.sects[1].t = "EXPLANATION" /\ Len(g.sects[1].ls) = 1, "the report does not explain why an expectation was not met")
  \cup Rule(g.df.on = (x.k = "eq" /\ Similar(s.t, x) # {}), "the report compares messages although there is nothing to compare, or the other way round")
  \cup Diff(s, x, g, ln)

Same2(s, w, g, ln) ==
  Rule(g.hd = w.hd, "the heading of a part is not what was reported")
  \cup Rule(g.d = w.d /\ g.ok = w.ok, "a part is shown in the wrong place or with the wrong mark")
  \cup (IF w.leaf # <<>> THEN Leaf(s, w.leaf[1], g, ln)
        ELSE Rule(g.sects = w.sects, "the sections of a part are not what was reported"))

Whole(s, e) ==
  LET w == AllParts(s, Outline(s.t, s.t.st.x, 0, FALSE)) IN
  Rule(e.junk = <<>>, "the report contains lines that belong to no part of it")
  \cup Rule(Len(w) = Len(e.nodes), "the report does not show every part once")
  \cup (IF Len(w) # Len(e.nodes) THEN {} ELSE UNION {Same2(s, w[j], e.nodes[j], IF Len(e.lines) = Len(w) THEN <<e.lines[j]>> ELSE <<>>) : j \in DOMAIN w})

Viol(s, e) ==
  CASE e.e = "rep" /\ s.t.st.k = "expect" /\ ~StepErr(s.t) -> Whole(s, e)
    [] e.e = "sret" /\ s.t.st.k = "expect" ->
         Rule(s.rep <= 1, "a step was reported on twice")
         \cup Rule((e.res = "ok" /\ ~StepErr(s.t) /\ s.t.fails = 0) => s.rep = 1, "a step was not reported on")
    [] OTHER -> {}

Next(s, e) ==
  [t |-> Track(s.t, e),
   z |-> CASE e.e = "step" -> NoFun
           [] e.e = "sat" /\ e.w = "op" /\ "fn" \in DOMAIN e -> Put(s.z, e.l, Say(Said(s, e.l), e))
           [] OTHER -> s.z,
   anns |-> IF e.e = "ann" THEN Append(s.anns, e) ELSE s.anns,
   rep |-> CASE e.e = "step" -> 0 [] e.e = "rep" -> s.rep + 1 [] OTHER -> s.rep]
=============================================================================
