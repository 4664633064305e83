-------------------------------- MODULE C09 --------------------------------
(* The fact stream is complete, well nested and the same for all observers.*)
EXTENDS Common

(* lvl   nesting: "idle" (no operation), "start" (nothing reported yet),
         "cycle", "disp" (a message), "hand" (a handler), "tick" (a handler),
         "done" (cycle completed)
   op    operation
   m, h  message and handler of the innermost open pairs
   seen  handlers already reported for the message, tick likewise
   comp  whether a compaction is open
   pf    production and log reports since the last scope call
   cf, cl  log reports, and calls, of the open compaction *)
Init == [app |-> EmptyApp, lvl |-> "idle", op |-> "", opm |-> "", m |-> "", h |-> "", seen |-> {}, tick |-> {}, comp |-> FALSE,
         par |-> FALSE, pf |-> <<>>, cf |-> <<>>, cl |-> <<>>, disp |-> FALSE]

Known(s, e) == {}
Prod == {"arec", "irec", "pexec", "psched"}
Inner == {"aload", "anf", "acreate", "adestroy", "arevert", "pload", "pnf", "pbegin", "peign", "ptign", "pend", "prevert"} \cup Prod
IsProd(e) == e.e = "f" /\ e.f \in Prod
FOf(e) == CASE e.o = "rec" -> (IF e.ht = "aggregate" THEN "arec" ELSE "irec")
            [] e.o = "exec" -> "pexec"
            [] e.o = "sched" -> "psched"
            [] OTHER -> "log"
ParLog(s, e) == IsFact(e, "log") /\ e.v.id = "" /\ s.lvl = "hand"

FactRules(s, e) ==
  CASE e.f = "dcb" -> Rule(s.lvl = "start" /\ s.op = "dispatch" /\ e.m = s.opm, "dispatch cycle begun out of place")
    [] e.f = "tcb" -> Rule(s.lvl = "start" /\ s.op = "tick", "tick cycle begun out of place")
    [] e.f = "dcc" -> Rule(s.lvl = "cycle" /\ s.op = "dispatch" /\ e.m = s.opm, "dispatch cycle completed out of place")
    [] e.f = "tcc" -> Rule(s.lvl = "cycle" /\ s.op = "tick", "tick cycle completed out of place")
    [] e.f = "db" -> Rule(s.lvl = "cycle", "dispatch begun out of place")
    [] e.f = "dc" -> Rule(s.lvl = "disp" /\ e.m = s.m, "dispatch completed out of place")
    [] e.f = "hb" -> Rule(s.lvl = "disp" /\ e.m = s.m /\ e.h \notin s.seen, "handling begun out of place")
    [] e.f = "hs" -> Rule(s.lvl = "disp" /\ e.m = s.m /\ e.h \notin s.seen, "handling skipped out of place")
    [] e.f = "hc" -> Rule(s.lvl = "hand" /\ e.m = s.m /\ e.h = s.h /\ ~s.comp, "handling completed out of place")
    [] e.f = "tb" -> Rule(s.lvl = "cycle" /\ s.op = "tick" /\ ~s.disp /\ e.h \notin s.tick, "tick begun out of place")
    [] e.f = "ts" -> Rule(s.lvl = "cycle" /\ s.op = "tick" /\ ~s.disp /\ e.h \notin s.tick, "tick skipped out of place")
    [] e.f = "tc" -> Rule(s.lvl = "tick" /\ e.h = s.h /\ ~s.comp, "tick completed out of place")
    [] e.f = "compb" -> Rule(s.lvl \in {"hand", "tick"} /\ e.h = s.h /\ ~s.comp, "compaction begun out of place")
    [] e.f = "compc" -> Rule(s.lvl \in {"hand", "tick"} /\ e.h = s.h /\ s.comp, "compaction completed out of place")
                        \cup Rule(s.cf = s.cl, "what a compaction logged is not what was reported")
    [] e.f = "log" -> Rule(s.lvl \in {"hand", "tick"} /\ e.h = s.h /\ (e.v.id = "" \/ e.m = s.m), "log message out of place")
                      \cup Rule(e.v.id # "" \/ s.comp, "log message of a compaction out of place")
    [] e.f \in Inner -> Rule(s.lvl = "hand" /\ e.h = s.h /\ e.m = s.m, "report outside of the handling it belongs to")
    [] OTHER -> {"unknown fact"}

SoRules(s, e) ==
  IF e.ok /\ e.o \in {"rec", "exec", "sched", "log"}
    THEN Rule(Len(s.pf) = 1, "a scope call was not reported exactly once")
         \cup Rule(Len(s.pf) # 1 \/ (s.pf[1].f = FOf(e) /\ s.pf[1].h = e.h /\ s.pf[1].i = e.i /\ s.pf[1].p = e.p),
                   "a scope call was reported with other content")
    ELSE Rule(s.pf = <<>>, "a message was reported that the handler did not produce")

Viol(s, e) ==
  CASE e.e = "f" -> FactRules(s, e)
    [] e.e = "so" -> SoRules(s, e)
    [] e.e = "overlap" -> {"an observer was notified concurrently"}
    [] e.e = "cb" /\ e.w # "compact" /\ s.lvl # "idle" ->
         Rule(s.lvl = "hand" /\ e.h = s.h, "a handler was called outside of a reported handling")
         \cup Rule(s.pf = <<>>, "a message was reported that the handler did not produce")
    [] IsCb(e, "compact") -> Rule(s.lvl \in {"hand", "tick"} /\ e.h = s.h /\ s.comp, "a projection was compacted outside of a reported compaction")
    [] IsCbx(e, "compact") -> Rule(s.lvl \in {"hand", "tick"} /\ e.h = s.h /\ s.comp, "a compaction finished after it was reported as completed")
    [] e.e = "cbx" /\ e.w = "handle" -> Rule(s.pf = <<>>, "a message was reported that the handler did not produce")
    [] e.e = "ret" /\ e.op # "reset" ->
         Rule(e.res = "panic" \/ s.lvl = "done", "the operation's reports are incomplete")
         \cup Rule(\A i \in DOMAIN e.seen : e.seen[i] = e.seen[1], "observers were notified of different facts")
    [] OTHER -> {}

Pf(e) == [f |-> e.f, h |-> e.h, i |-> e.i, p |-> IF e.f = "log" THEN e.p ELSE e.pv.m]

Next(s, e) ==
  CASE e.e = "app" -> [s EXCEPT !.app = e]
    [] e.e = "op" -> [Init EXCEPT !.app = s.app, !.op = e.op, !.lvl = IF e.op = "reset" THEN "idle" ELSE "start",
                                  !.opm = IF e.op = "dispatch" THEN e.m ELSE ""]
    [] e.e = "ret" -> [s EXCEPT !.lvl = "idle"]
    [] e.e = "f" ->
       (CASE e.f \in {"dcb", "tcb"} -> [s EXCEPT !.lvl = "cycle"]
          [] e.f \in {"dcc", "tcc"} -> [s EXCEPT !.lvl = "done"]
          [] e.f = "db" -> [s EXCEPT !.lvl = "disp", !.m = e.m, !.seen = {}, !.disp = TRUE]
          [] e.f = "dc" -> [s EXCEPT !.lvl = "cycle"]
          [] e.f = "hb" -> [s EXCEPT !.lvl = "hand", !.h = e.h, !.seen = @ \cup {e.h}, !.pf = <<>>, !.comp = FALSE]
          [] e.f = "hs" -> [s EXCEPT !.seen = @ \cup {e.h}]
          [] e.f = "hc" -> [s EXCEPT !.lvl = "disp"]
          [] e.f = "tb" -> [s EXCEPT !.lvl = "tick", !.h = e.h, !.tick = @ \cup {e.h}, !.pf = <<>>, !.comp = FALSE]
          [] e.f = "ts" -> [s EXCEPT !.tick = @ \cup {e.h}]
          [] e.f = "tc" -> [s EXCEPT !.lvl = "cycle"]
          [] e.f = "compb" -> [s EXCEPT !.comp = TRUE, !.cf = <<>>, !.cl = <<>>]
          [] e.f = "compc" -> [s EXCEPT !.comp = FALSE]
          [] ParLog(s, e) -> [s EXCEPT !.cf = Append(@, e.p)]
          [] e.f = "log" \/ e.f \in Prod -> [s EXCEPT !.pf = Append(@, Pf(e))]
          [] OTHER -> s)
    [] e.e = "so" -> [s EXCEPT !.pf = <<>>]
    [] e.e = "clog" -> [s EXCEPT !.cl = Append(@, e.p)]
    [] OTHER -> s
=============================================================================
