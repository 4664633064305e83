-------------------------------- MODULE C30 --------------------------------
(* The log tells what happened, in order and about the right message.       *)
(*                                                                          *)
(*   ln    a line of the log: id, ca, co (IDs), d (direction), w (who),     *)
(*         x (error mark), txt (texts)                                      *)
(*   cap   a caption, which announces an action of a test                   *)
EXTENDS TestCommon

(* fs, ls  what was reported but not logged yet, and the other way round
   caps    captions of the step in progress
   fails   failures in this step *)
Init == [app |-> EmptyApp, fs |-> <<>>, ls |-> <<>>, st |-> NoStep, caps |-> 0, fails |-> 0]
Known(s, e) == {}

Kind(t) == IF KindOf(t) = "c" THEN "c" ELSE IF t \in {"T0", "T1", "T2", "T3", "T4", "T5"} THEN "t" ELSE "e"
Symbol(t) == CASE Kind(t) = "c" -> "?" [] Kind(t) = "t" -> "@" [] OTHER -> "!"
Word(t) == CASE Kind(t) = "c" -> "cmd " [] Kind(t) = "t" -> "timeout " [] OTHER -> "event "
Message(v) == <<v.t \o Symbol(v.t), Word(v.t) \o v.m>>
Time(t) == "@" \o ToString(t[1])

Pad(id) == CASE id = "" -> "--" [] Len(id) = 1 -> "0" \o id [] OTHER -> id
Full(q) == SelectSeq(q, LAMBDA x : x # "")
Line(v, d, w, x, txt) ==
  [id |-> Pad(v.id), ca |-> Pad(Get(v, "ca", "")), co |-> Pad(Get(v, "co", "")), d |-> d, w |-> w, x |-> x, txt |-> Full(txt)]
NoEnv == [id |-> ""]

Plural == [aggregate |-> "aggregates", process |-> "processes", integration |-> "integrations", projection |-> "projections"]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Join(Tail(q))
EnabledText(e) ==
  "enabled:" \o Join(Full([i \in 1..4 |-> LET t == <<"aggregate", "process", "integration", "projection">>[i] IN
                                         IF Get(e.en.ty, t, FALSE) THEN "+" \o Plural[t] ELSE ""])
                     \o [i \in DOMAIN e.byname |-> (IF e.byname[i][2] THEN "+" ELSE "-") \o e.byname[i][1]])

(* The lines for a fact. *)
Instance == [aload |-> "loaded an existing instance", anf |-> "instance does not yet exist", acreate |-> "instance created",
             adestroy |-> "instance destroyed", arevert |-> "destruction of instance reverted",
             pload |-> "loaded an existing instance", pnf |-> "instance does not yet exist", pbegin |-> "instance begun",
             pend |-> "instance ended", prevert |-> "reverted ending process instance",
             ptign |-> "timeout ignored because the target instance no longer exists"]
LinesOf(s, e) ==
  LET ty == TypeOf(s.app, e.h)
      who == e.h \o (IF e.i = "" THEN "" ELSE " " \o e.i) IN
  CASE e.f = "dcb" -> <<Line(e.v, "in", "system", "", <<"dispatching", Time(e.now), EnabledText(e)>>)>>
    [] e.f = "tcb" -> <<Line(NoEnv, "", "system", "", <<"ticking", Time(e.now), EnabledText(e)>>)>>
    [] e.f = "db" -> <<Line(e.v, "in", "system", "", Message(e.v))>>
    [] e.f = "hc" /\ e.errs # <<>> -> <<Line(e.v, "inerr", ty, "err", <<e.h, e.etx>>)>>
    [] e.f = "tc" /\ e.errs # <<>> -> <<Line(NoEnv, "", ty, "err", <<e.h, e.etx>>)>>
    [] e.f = "hs" -> <<Line(e.v, "in", ty, "", <<e.h,
         CASE e.rsn = "T" -> "handler skipped because " \o ty \o " handlers are disabled"
           [] e.rsn = "I" -> "handler skipped because it is disabled during this tick of the test engine"
           [] OTHER -> "handler skipped because it is disabled by its Configure() method">>)>>
    [] e.f \in DOMAIN Instance -> <<Line(e.v, "in", ty, "", <<who, Instance[e.f]>>)>>
    [] e.f = "peign" -> <<Line(e.v, "in", ty, "", <<who, "event ignored because it was not routed to any instance">>)>>
    [] e.f \in {"arec", "irec"} -> <<Line(e.pv, "out", ty, "", <<who, "recorded an event">> \o Message(e.pv))>>
    [] e.f = "pexec" -> <<Line(e.pv, "out", ty, "", <<who, "executed a command">> \o Message(e.pv))>>
    [] e.f = "psched" -> <<Line(e.pv, "out", ty, "", <<who, "scheduled a timeout for " \o Time(e.pv.sc)>> \o Message(e.pv))>>
    [] e.f = "log" -> <<Line(e.v, IF e.v.id = "" THEN "" ELSE "in", ty, "", <<who, e.p>>)>>
    [] e.f = "compc" -> <<IF e.errs = <<>> THEN Line(NoEnv, "", ty, "", <<e.h, "compacted">>)
                          ELSE Line(NoEnv, "", ty, "err", <<e.h, "compaction failed: " \o e.etx>>)>>
    [] OTHER -> <<>>
LineIn(e) == [id |-> e.id, ca |-> e.ca, co |-> e.co, d |-> e.d, w |-> e.w, x |-> e.x, txt |-> e.txt]

(* Commands may be executed while something else happens, in which case the
   order of what is reported about different commands is open. *)
Loose(s) == \E j \in DOMAIN s.st.acts : \E i \in DOMAIN s.st.acts[j].body : s.st.acts[j].body[i].k \in {"par", "go"}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* What is left of q after x has been matched; and whether it could be. *)
Fits1(s, q, x) == IF Loose(s) THEN \E i \in DOMAIN q : q[i] = x ELSE q # <<>> /\ q[1] = x
Left(s, q, x) == Without(q, IF Loose(s) THEN CHOOSE i \in DOMAIN q : q[i] = x ELSE 1)

(* The captions. *)
Verb(t, c, v) == IF KindOf(t) = "c" THEN c ELSE v
RECURSIVE ExpCap(_)
ExpCap(x) ==
  LET n == Len(x.kids) IN
  CASE x.k = "eq" -> Verb(x.t, "to execute a specific '" \o x.t \o "' command", "to record a specific '" \o x.t \o "' event")
    [] x.k = "typ" -> Verb(x.t, "to execute a command of type ", "to record an event of type ") \o x.t
    [] x.k = "match" -> Verb(x.t, "to execute a command", "to record an event") \o " that matches the predicate near @"
    [] x.k = "only" -> Verb(x.t, "to only execute commands", "to only record events") \o " that match the predicate near @"
    [] x.k = "probe" -> "to probe " \o x.l
    [] x.k = "sat" -> "to satisfy " \o x.l
    [] x.k = "rep" -> "to repeat " \o x.l
    [] x.k \in {"all", "any"} /\ n = 1 -> ExpCap(x.kids[1])
    [] x.k = "not" \/ (x.k = "none" /\ n = 1) -> "not " \o ExpCap(x.kids[1])
    [] x.k = "all" -> "to meet " \o ToString(n) \o " expectations"
    [] x.k = "any" -> "to meet at least one of " \o ToString(n) \o " expectations"
    [] x.k = "none" -> "not to meet any of " \o ToString(n) \o " expectations"
ActCap(a) ==
  CASE a.k = "exec" -> "executing " \o a.t \o " command"
    [] a.k = "rec" -> "recording " \o a.t \o " event"
    [] a.k = "by" -> "advancing time by " \o ToString(a.d[1]) \o "s" \o ToString(a.d[2])
    [] a.k = "to" -> "advancing time to " \o Time(a.d)
    [] a.k = "adj" -> "advancing time as scripted, 100%d"
    [] a.k = "call" -> "calling user-defined function"
    [] OTHER -> "doing as scripted, 100%s"
Cap(st, i) == IF st.k = "expect" THEN "expect " \o ActCap(st.acts[i]) \o " " \o ExpCap(st.x) ELSE ActCap(st.acts[i])

(* Does the last caption announce this? *)
Announced(s, e) ==
  /\ s.caps \in DOMAIN s.st.acts
  /\ LET a == s.st.acts[s.caps] IN
     CASE e.e = "call" -> a.k = "call"
       [] e.e = "do" -> a.k = "custom"
       [] e.e = "adj" -> a.k = "adj"
       [] e.op = "tick" -> Moves(a)
       [] OTHER -> a.k \in {"call", "custom"} \/ (a.k \in {"exec", "rec"} /\ a.m = e.m)

Matched(s) == Rule(s.fs = <<>>, "something that happened was not logged")
              \cup Rule(s.ls = <<>>, "something was logged that did not happen")

FactRules(s, e) ==
  IF LinesOf(s, e) = <<>> THEN {}
  ELSE LET x == LinesOf(s, e)[1] IN
       Rule(s.ls = <<>> \/ Loose(s) \/ Fits1(s, s.ls, x), "the log says something else than what happened")
LineRules(s, e) ==
  Rule(s.fs = <<>> \/ Loose(s) \/ Fits1(s, s.fs, LineIn(e)), "the log says something else than what happened")

Viol(s, e) ==
  CASE e.e = "f" -> FactRules(s, e)
    [] e.e = "ln" -> LineRules(s, e)
    [] e.e = "cap" -> Rule(s.caps + 1 \in DOMAIN s.st.acts /\ (s.st.k = "prepare" \/ s.caps = 0), "a caption was logged out of place")
                      \cup Rule(~(s.caps + 1 \in DOMAIN s.st.acts) \/ e.txt = Cap(s.st, s.caps + 1), "a caption does not say what is done")
    [] e.e \in {"call", "do", "adj"} \/ (e.e = "op" /\ s.st.k # "") -> Rule(Announced(s, e), "an action was not announced")
    [] e.e = "ret" /\ s.st.k = "" -> Matched(s)
    [] e.e = "sret" -> Matched(s) \cup Rule(e.res # "ok" \/ s.fails > 0 \/ s.caps = Len(s.st.acts), "an action was not announced")
    [] OTHER -> {}

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] e.e = "step" -> [s EXCEPT !.st = e, !.caps = 0, !.fails = 0]
    [] e.e = "sret" -> [s EXCEPT !.st = NoStep, !.caps = 0, !.fs = <<>>, !.ls = <<>>]
    [] e.e = "cap" -> [s EXCEPT !.caps = @ + 1]
    [] e.e \in {"fatal", "failnow"} -> [s EXCEPT !.fails = @ + 1]
    [] e.e = "f" /\ LinesOf(s, e) # <<>> ->
         LET x == LinesOf(s, e)[1] IN
         IF Fits1(s, s.ls, x) THEN [s EXCEPT !.ls = Left(s, @, x)] ELSE [s EXCEPT !.fs = Append(@, x)]
    [] e.e = "ln" ->
         IF Fits1(s, s.fs, LineIn(e)) THEN [s EXCEPT !.fs = Left(s, @, LineIn(e))] ELSE [s EXCEPT !.ls = Append(@, LineIn(e))]
    [] OTHER -> s
=============================================================================
