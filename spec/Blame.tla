------------------------------- MODULE Blame --------------------------------
(* How places in the user's code are found.                                *)
(*                                                                         *)
(* A program is a stack of calls: the system calls a method, which calls   *)
(* functions of various kinds that call each other, and the innermost one  *)
(* does something that is complained about or that the system remembers    *)
(* the place of. Complaints unwind the stack; on the way, functions may    *)
(* panic again with what they recover.                                     *)
EXTENDS Common, Json

CONSTANT World    \* name of the world
CONSTANT Budget   \* [ops, calls]: how many programs, and functions in each

VARIABLES s, tr

Kinds == {"fn", "gen", "meth", "clo", "defer", "ok", "rethrow"}
Calls == {"arec", "irec", "pcmd", "ptm", "tcmd", "ttm"}
Messages == {"uaroute", "uahandle", "uaapply", "uaload", "uproute", "upevent", "uptimeout", "ui", "uj"}
Methods == {"emptya", "nila", "emptyp", "nilp"}
Actions == {"acall", "aexec", "arecv", "aadv"}
Captions == {"ccmd", "cocmd", "cev", "coev"}
Faults(w) == CASE w \in Calls -> {"type", "valid"} [] w \in Captions -> {"", "named"} [] OTHER -> {""}
Whats == Calls \cup Messages \cup Methods \cup Actions \cup Captions

X == INSTANCE C32

(* pc     what happens next
   stack  the functions that have been called, the innermost last
   site   where the system should say it was *)
Start == [pc |-> "prog", n |-> 0, w |-> "", fault |-> "", stack |-> <<>>, site |-> <<>>]

At(k, p) == [e |-> "at", k |-> k, fn |-> p[1], file |-> p[2], line |-> p[3]]
Site(s0, k) == <<IF s0.stack = <<>> THEN "fn" ELSE s0.stack[Len(s0.stack)], "user", k>>
Leaf(s0) == [s0 EXCEPT !.pc = "unwind", !.site = Site(s0, 1)]
Silent == [e |-> "-"]

Blamed(s0) ==
  LET r == X!Right(s0.w) IN
  [e |-> "blame", k |-> r.k, h |-> r.h, ht |-> r.ht, meth |-> r.meth, impl |-> r.impl,
   m |-> IF r.key = "" THEN "" ELSE r.key \o ToString(s0.n), has |-> TRUE, fn |-> s0.site[1], file |-> s0.site[2], line |-> s0.site[3]]

Proceed(s0) ==
  CASE s0.pc = "prog" ->
         IF s0.n = Budget.ops THEN {<<[e |-> "end"], [s0 EXCEPT !.pc = "end"]>>}
         ELSE {<<[e |-> "prog", w |-> w, n |-> s0.n + 1], [Start EXCEPT !.pc = "method", !.n = s0.n + 1, !.w = w, !.fault = f]>> :
                 <<w, f>> \in UNION {{<<x, y>> : y \in Faults(x)} : x \in Whats}}
    [] s0.pc = "method" ->
         (CASE s0.w \in Methods ->
                 LET k == IF s0.w \in {"nila", "nilp"} THEN "new" ELSE "route" IN
                 {<<At(k, <<s0.w, "user", 0>>), [s0 EXCEPT !.pc = "blame", !.site = <<s0.w, "user", 0>>]>>}
            [] s0.w \in Captions -> {<<At("fun", <<"", "user", 7>>), [s0 EXCEPT !.pc = "blame", !.site = <<"", "user", 7>>]>>}
            [] OTHER -> {<<Silent, [s0 EXCEPT !.pc = "call"]>>})
    [] s0.pc = "call" ->
         (IF Len(s0.stack) < Budget.calls
          THEN {<<IF k = "ok" THEN At("call", <<k, "user", 2>>) ELSE Silent, [s0 EXCEPT !.stack = Append(@, k)]>> : k \in Kinds} ELSE {})
         \cup {<<At(IF s0.w \in Messages THEN "pan" ELSE "call", Site(s0, 1)), Leaf(s0)>>}
    [] s0.pc = "unwind" ->
         IF s0.stack = <<>> \/ s0.w \in Actions THEN {<<Silent, [s0 EXCEPT !.pc = "blame"]>>}
         ELSE LET k == s0.stack[Len(s0.stack)]
                  down == [s0 EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
              IN IF k = "rethrow" THEN {<<At("again", <<k, "user", 3>>), IF s0.w \in Messages THEN [down EXCEPT !.site = <<k, "user", 3>>] ELSE down>>}
                 ELSE {<<Silent, down>>}
    [] s0.pc = "blame" -> {<<Blamed(s0), [s0 EXCEPT !.pc = IF s0.w \in Captions THEN "told" ELSE "prog"]>>}
    [] s0.pc = "told" -> {<<[e |-> "told"], [s0 EXCEPT !.pc = "prog"]>>}
    [] OTHER -> {}

(* What distinguishes a behaviour. *)
Choice(s0, s1) == IF s0.pc \in {"method", "call"} /\ s1.pc \in {"unwind", "blame"} THEN <<[w |-> s0.w, fault |-> s0.fault, frames |-> s0.stack]>> ELSE <<>>
Export == s.pc # "end" \/ PrintT("SCEN " \o ToJson([progs |-> tr]))
=============================================================================
