------------------------------- MODULE Common -------------------------------
(* Vocabulary shared by the property automata.                             *)
(*                                                                         *)
(* An observable event is a record with a field "e" that names its kind:   *)
(*                                                                         *)
(*   app   the application: hs (handlers), cdh (compaction during handling)*)
(*   op    an engine operation starts: dispatch, tick or reset             *)
(*   ret   the operation has returned, failed or panicked                  *)
(*   cb    a method of a handler (or root) has been called                 *)
(*   cbx   ... and is about to return or panic                             *)
(*   so    a handler has called a method of its scope                      *)
(*   f     a fact has been reported to an observer                         *)
(*   cancel, rst, clog, overlap, end                                       *)
(*                                                                         *)
(* Times are pairs <<seconds, nanoseconds>>.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ran(q) == {q[i] : i \in DOMAIN q}

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Del(f, ks) == [x \in (DOMAIN f) \ ks |-> f[x]]
NoFun == [x \in {} |-> {}]

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~ Lt(b, a)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Rule(cond, name) == IF cond THEN {} ELSE {name}

(* The application. *)
Names(app) == {app.hs[i].n : i \in DOMAIN app.hs}
HOf(app, n) == app.hs[CHOOSE i \in DOMAIN app.hs : app.hs[i].n = n]
TypeOf(app, n) == HOf(app, n).t
Consumers(app, t) == {app.hs[i].n : i \in {j \in DOMAIN app.hs : t \in Ran(app.hs[j].c)}}
Produces(app, n, t) == n \in Names(app) /\ t \in Ran(HOf(app, n).p)

(* Which handlers an operation's options enable. *)
OptIdx(opts, k, n) == {i \in DOMAIN opts : opts[i][1] = k /\ opts[i][2] = n}
Enabled(app, opts, n) ==
    LET h == HOf(app, n)
        byName == OptIdx(opts, "h", n)
        byType == OptIdx(opts, "ty", h.t)
    IN  IF byName # {} THEN opts[MaxOf(byName)][3]
        ELSE IF h.dis THEN FALSE
        ELSE IF byType # {} THEN opts[MaxOf(byType)][3]
        ELSE TRUE
SkipReason(app, opts, n) ==
    LET h == HOf(app, n)
    IN  IF OptIdx(opts, "h", n) # {} THEN "I" ELSE IF h.dis THEN "C" ELSE "T"
EnabledSet(app, opts) == {n \in Names(app) : Enabled(app, opts, n)}

(* Classification of events. *)
IsOp(e, o) == e.e = "op" /\ e.op = o
IsCb(e, w) == e.e = "cb" /\ e.w = w
IsCbx(e, w) == e.e = "cbx" /\ e.w = w
IsSo(e, o) == e.e = "so" /\ e.o = o
IsFact(e, f) == e.e = "f" /\ e.f = f
(* An operation that ran to completion. *)
Completed(e) == e.e = "ret" /\ e.op # "reset" /\ e.res \in {"ok", "err"} /\ ~e.can
Aborted(e) == e.e = "ret" /\ e.op # "reset" /\ (e.res = "panic" \/ e.can)

EmptyApp == [hs |-> <<>>, cdh |-> FALSE, resets |-> 0]
=============================================================================
