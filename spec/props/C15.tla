-------------------------------- MODULE C15 --------------------------------
(* Projection compaction runs on schedule and is properly bracketed.       *)
EXTENDS Common

(* last   projection -> engine time of the tick that last compacted it
   due    whether the projection being ticked was due when the tick began
   now    engine time of the operation
   h      projection being ticked or handling an event, ph in {"", "tick", "hand"}
   n      compactions started, x finished, during that
   rb, rc compactions reported as begun and completed
   open   whether a compaction is reported as open; tok its error
   ver    whether the event being delivered is to be handled *)
Init == [app |-> EmptyApp, last |-> NoFun, now |-> <<0, 0>>, ph |-> "", h |-> "", n |-> 0, x |-> 0, rb |-> 0, rc |-> 0,
         tok |-> "", hev |-> FALSE, lf |-> <<>>, lc |-> <<>>, err |-> FALSE, due |-> FALSE]

Known(s, e) == {}
Prj(s, h) == TypeOf(s.app, h) = "projection"
Hour == 3600
DueAt(s, h) == h \notin DOMAIN s.last \/ Le(<<s.last[h][1] + Hour, s.last[h][2]>>, s.now)
Toks(q) == [i \in DOMAIN q |-> q[i].tok]

Viol(s, e) ==
  CASE IsCb(e, "compact") ->
         Rule(s.ph # "" /\ s.h = e.h, "a projection was compacted out of place")
         \cup Rule(s.ph # "tick" \/ s.due, "a projection was compacted by a tick before the interval elapsed")
         \cup Rule(s.ph # "hand" \/ s.app.cdh, "a projection was compacted while handling although that is disabled")
         \cup Rule(s.n = 0, "a projection was compacted twice")
         \cup Rule(s.rb = 1 /\ s.rc = 0, "a compaction was not reported as begun")
         \cup Rule(e.now = s.now, "the compaction was given another time than the engine time")
    [] IsCbx(e, "compact") -> Rule(s.ph # "" /\ s.h = e.h /\ s.rc = 0, "a compaction was reported as completed before it finished")
    [] IsFact(e, "compb") -> Rule(s.ph # "" /\ s.h = e.h /\ s.rb = 0, "a compaction was reported as begun out of place")
    [] IsFact(e, "compc") ->
         Rule(s.ph # "" /\ s.h = e.h /\ s.rb = 1 /\ s.rc = 0 /\ s.n = 1 /\ s.x = 1, "a compaction was reported as completed out of place")
         \cup Rule(Toks(e.errs) = (IF s.tok = "" THEN <<>> ELSE <<s.tok>>), "a compaction was reported with another error")
         \cup Rule(s.lf = s.lc, "what a compaction logged was not reported between its beginning and completion")
    [] IsFact(e, "log") /\ e.v.id = "" -> Rule(s.rb = 1 /\ s.rc = 0 /\ s.h = e.h, "a compaction's log message was reported out of place")
    [] IsFact(e, "tc") /\ Prj(s, e.h) ->
         Rule(s.due <=> s.n = 1, "a tick did not compact a projection whose interval had elapsed")
         \cup Rule(s.n = s.rb /\ s.n = s.rc /\ s.n = s.x, "a compaction was not reported")
    [] IsFact(e, "hc") /\ Prj(s, e.h) ->
         Rule(s.n = (IF s.app.cdh /\ s.hev THEN 1 ELSE 0), "handling an event did not run exactly one compaction")
         \cup Rule(s.n = s.rb /\ s.n = s.rc /\ s.n = s.x, "a compaction was not reported, or not waited for")
    [] e.e = "crash" -> {"a compaction crashed the process"}
    [] e.e = "ret" /\ e.op # "reset" ->
         Rule(s.n = s.x, "an operation returned while a compaction was still running")
         \cup Rule(e.res = "panic" \/ ~s.err \/ e.can \/ e.res = "err", "the error of a compaction did not fail the operation")
    [] OTHER -> {}

Fresh(s, ph, h) == [s EXCEPT !.ph = ph, !.h = h, !.due = DueAt(s, h), !.n = 0, !.x = 0, !.rb = 0, !.rc = 0, !.tok = "", !.hev = FALSE, !.lf = <<>>, !.lc = <<>>]

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] IsOp(e, "reset") -> [Init EXCEPT !.app = s.app]
    [] e.e = "op" -> [Fresh(s, "", "") EXCEPT !.err = FALSE, !.now = e.now]
    [] e.e = "f" /\ e.f \in {"dcb", "tcb"} -> [s EXCEPT !.now = e.now]
    [] IsFact(e, "tb") -> Fresh(s, "tick", e.h)
    [] IsFact(e, "hb") -> Fresh(s, "hand", e.h)
    [] IsCb(e, "hev") -> [s EXCEPT !.hev = TRUE]
    [] IsCb(e, "compact") -> [s EXCEPT !.n = @ + 1, !.last = IF s.ph = "tick" THEN Put(@, e.h, s.now) ELSE @]
    [] IsCbx(e, "compact") -> [s EXCEPT !.x = @ + 1, !.tok = e.tok, !.err = @ \/ e.res = "err"]
    [] IsFact(e, "compb") -> [s EXCEPT !.rb = @ + 1]
    [] IsFact(e, "compc") -> [s EXCEPT !.rc = @ + 1]
    [] IsFact(e, "log") /\ e.v.id = "" -> [s EXCEPT !.lf = Append(@, e.p)]
    [] e.e = "clog" -> [s EXCEPT !.lc = Append(@, e.p)]
    [] IsSo(e, "log") /\ s.ph = "tick" -> [s EXCEPT !.lc = Append(@, e.p)]
    [] e.e = "ret" -> Fresh(s, "", "")
    [] e.e = "f" /\ e.f \in {"tc", "hc"} -> Fresh(s, "", "")
    [] OTHER -> s
=============================================================================
