-------------------------------- MODULE C24 --------------------------------
(* A failed message expectation is explained truthfully.                    *)
EXTENDS TestCommon

Init == [t |-> TrackInit]

Known(s, e) == {}

Relevant(k) == IF k = "c" THEN {"process"} ELSE {"aggregate", "integration"}
Engaged(t, k) == {n \in t.eng : TypeOf(t.app, n) \in Relevant(k)}
TypeOff(t, ty) == t.en # <<>> /\ ty \in DOMAIN t.en.ty /\ ~t.en.ty[ty]
AllOff(t, k) == \A ty \in Relevant(k) : TypeOff(t, ty)
Bind(t) == t.st.acts[1].bind

Acc(t, x) == Len(SelectSeq(OfKind(t, KindOf(x.t)), LAMBDA m : Assignable(x.t, m) /\ x.pr[m.b] = "ok"))
Ign(t, x) == Len(SelectSeq(OfKind(t, KindOf(x.t)), LAMBDA m : Assignable(x.t, m) /\ x.pr[m.b] = "ign"))
Other(t, x) == Len(SelectSeq(OfKind(t, KindOf(x.t)), LAMBDA m : ~Assignable(x.t, m)))
Total(t, x) == Len(OfKind(t, KindOf(x.t)))

(* Why nothing matched. *)
Rest(t, k) == IF t.prod = <<>> THEN "nomsg" ELSE IF OfKind(t, k) = <<>> THEN "nokind" ELSE "nomatch"
Reasons(t, k) ==
  IF Bind(t) THEN {Rest(t, k)}
  ELSE IF t.en = <<>> THEN {Rest(t, k)} \cup (IF Engaged(t, k) = {} THEN {"noeng", "noen"} ELSE {})
  ELSE IF AllOff(t, k) THEN {"noen"}
  ELSE IF Engaged(t, k) = {} THEN {"noeng"}
  ELSE {Rest(t, k)}

Similar(t, x) == SelectSeq(t.prod, LAMBDA m : m.t = x.t)

Explained(t, x, ex) ==
  LET k == KindOf(x.t) IN
  Rule(ex.k # "", "a failure was not explained")
  \cup Rule(ex.kind \in {"", k}, "the explanation is about another kind of message")
  \cup (IF ex.k \in {"", "other"} THEN {}
        ELSE IF x.k = "only"
          THEN (CASE ex.k = "count" -> Rule(ex.a = Acc(t, x) /\ ex.b = Total(t, x) - Ign(t, x), "the explanation gives wrong numbers")
                  [] ex.k = "zero" -> Rule(Acc(t, x) = 0 /\ ex.b = Total(t, x) - Ign(t, x), "the explanation gives wrong numbers")
                  [] OTHER -> {"the explanation is not about the messages that were produced"})
        ELSE IF x.k = "eq" /\ Similar(t, x) # <<>>
          THEN LET ms == Similar(t, x) IN
               CASE ex.k = "simh" -> Rule(\E j \in DOMAIN ms : ms[j].h = ex.h /\ ms[j].ht = ex.ht, "the similar message was produced by something else")
                 [] ex.k = "simx" -> Rule(\E j \in DOMAIN ms : ms[j].h = "", "the similar message was produced by something else")
                 [] OTHER -> {"a similar message was produced, but is not what the explanation is about"}
        ELSE Rule(ex.k \in Reasons(t, k), "the explanation is not what happened")
             \cup Rule(ex.k # "noeng" \/ Ran(ex.l) \subseteq {ty \in Relevant(k) : TRUE}, "the explanation names handlers that cannot produce such messages"))

Suggested(t, x, g) ==
  LET k == KindOf(x.t) IN
  CASE g.k = "enable" -> Rule(g.ht \in Relevant(k) /\ TypeOff(t, g.ht), "suggests enabling a type of handler that is enabled or irrelevant")
    [] g.k = "verify" -> Rule(g.h \in t.eng /\ g.ht \in Relevant(k) /\ (g.h \in t.eng => TypeOf(t.app, g.h) = g.ht),
                              "suggests verifying a handler that was not engaged or is irrelevant")
    [] g.k = "ign" -> Rule(x.k \in {"match", "only"} /\ Ign(t, x) <= g.a /\ g.a <= Ign(t, x) + Other(t, x), "reports a wrong number of ignored messages")
    [] OTHER -> {}

Rejections(t, x, f) ==
  Len(SelectSeq(OfKind(t, KindOf(x.t)),
      LAMBDA m : /\ m.t = f.t
                 /\ IF f.x = "type" THEN ~Assignable(x.t, m)
                    ELSE Assignable(x.t, m) /\ \/ x.pr[m.b] = "rej" /\ f.x = "rejected " \o m.b
                                               \/ x.pr[m.b] = "rejk" /\ f.x = "rejected " \o m.m))

Why(t, e) ==
  LET o == Outline(t, t.st.x, 0, FALSE) IN
  IF Len(o) # Len(e.lines) \/ Eval(t, t.st.x) THEN {}
  ELSE UNION {LET x == o[j].x
                  ln == e.lines[j] IN
              IF ~MessageLeaf(x) THEN {} ELSE
              (IF ~Eval(t, x) /\ ~o[j].inv THEN Explained(t, x, ln.ex) ELSE {})
              \cup UNION {Suggested(t, x, ln.sg[i]) : i \in DOMAIN ln.sg}
              \cup UNION {LET f == ln.fm[i] IN
                          Rule(f.t = "" \/ (x.k \in {"match", "only"} /\ Rejections(t, x, f) = f.n), "lists a rejection that was not made, or not that often")
                          : i \in DOMAIN ln.fm}
              : j \in DOMAIN o}

Viol(s, e) == IF e.e = "rep" /\ s.t.st.k = "expect" THEN Why(s.t, e) ELSE {}

Next(s, e) == [t |-> Track(s.t, e)]
=============================================================================
