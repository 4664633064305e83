-------------------------------- MODULE C32 --------------------------------
(* Complaints name the handler, method and message concerned and the place *)
(* in the user's code; so do actions and expectations.                     *)
EXTENDS Common

(* w     what the program in progress provokes, n its number
   call  the place of the last call
   pans  the places that panicked
   meth  where the methods begin that have been called: what they are for and place
   fun   the place of the function that was given
   told  whether a place was given *)
Init == [w |-> "", n |-> 0, call |-> <<>>, pans |-> {}, meth |-> {}, fun |-> <<>>, told |-> FALSE]

Place(e) == <<e.fn, e.file, e.line>>

R(k, h, ht, m, impl, key) == [k |-> k, h |-> h, ht |-> ht, meth |-> m, impl |-> impl, key |-> key]
Agg(k, m, impl, key) == R(k, "agg", "aggregate", m, impl, key)
Proc(k, m, key) == R(k, "proc", "process", m, "blameProc", key)
Right(w) ==
  CASE w = "arec" -> Agg("ub", "HandleCommand", "blameAgg", "c")
    [] w = "irec" -> R("ub", "int", "integration", "HandleCommand", "blameInt", "c")
    [] w \in {"pcmd", "ptm"} -> Proc("ub", "HandleEvent", "e")
    [] w \in {"tcmd", "ttm"} -> Proc("ub", "HandleTimeout", "t")
    [] w = "emptya" -> Agg("ub", "RouteCommandToInstance", "blameAgg", "c")
    [] w = "nila" -> Agg("ub", "New", "blameAgg", "c")
    [] w = "emptyp" -> Proc("ub", "RouteEventToInstance", "e")
    [] w = "nilp" -> Proc("ub", "New", "e")
    [] w = "uaroute" -> Agg("um", "RouteCommandToInstance", "blameAgg", "c")
    [] w = "uahandle" -> Agg("um", "HandleCommand", "blameAgg", "c")
    [] w \in {"uaapply", "uaload"} -> Agg("um", "ApplyEvent", "blameRoot", "e")
    [] w = "uproute" -> Proc("um", "RouteEventToInstance", "e")
    [] w = "upevent" -> Proc("um", "HandleEvent", "e")
    [] w = "uptimeout" -> Proc("um", "HandleTimeout", "t")
    [] w = "ui" -> R("um", "int", "integration", "HandleCommand", "blameInt", "c")
    [] w = "uj" -> R("um", "proj", "projection", "HandleEvent", "blameProj", "e")
    [] w \in {"acall", "aexec", "arecv", "aadv"} -> R("act", "", "", "", "", "")
    [] OTHER -> R("near", "", "", "", "", "")

(* The places that may be given. Code that panics again with the same value
   is as good a place as that which did so first. *)
Places(s) ==
  CASE s.w \in {"emptya", "emptyp"} -> {x[2] : x \in {y \in s.meth : y[1] = "route"}}
    [] s.w \in {"nila", "nilp"} -> {x[2] : x \in {y \in s.meth : y[1] = "new"}}
    [] Right(s.w).k = "um" -> s.pans
    [] Right(s.w).k = "near" -> {s.fun}
    [] OTHER -> {s.call}

Viol(s, e) ==
  CASE e.e = "blame" ->
         LET r == Right(s.w) IN
         (IF e.k # r.k THEN {"kind"}
          ELSE (IF e.h = r.h /\ e.ht = r.ht THEN {} ELSE {"handler"})
               \cup (IF e.meth = r.meth THEN {} ELSE {"method"})
               \cup (IF e.impl = r.impl THEN {} ELSE {"implementation"})
               \cup (IF e.m = (IF r.key = "" THEN "" ELSE r.key \o ToString(s.n)) THEN {} ELSE {"message"})
               \cup (IF e.has /\ Place(e) \notin Places(s) THEN {"place"} ELSE {}))
    [] e.e = "told" -> IF s.told THEN {} ELSE {"no place"}
    [] OTHER -> {}

Known(s, e) == {}

Next(s, e) ==
  CASE e.e = "prog" -> [Init EXCEPT !.w = e.w, !.n = e.n]
    [] e.e = "at" ->
         (CASE e.k = "call" -> [s EXCEPT !.call = Place(e)]
            [] e.k \in {"pan", "again"} -> [s EXCEPT !.pans = @ \cup {Place(e)}]
            [] e.k = "fun" -> [s EXCEPT !.fun = Place(e)]
            [] OTHER -> [s EXCEPT !.meth = @ \cup {<<e.k, Place(e)>>}])
    [] e.e = "blame" -> [s EXCEPT !.told = TRUE]
    [] OTHER -> s
=============================================================================
