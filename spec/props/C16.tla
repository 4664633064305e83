-------------------------------- MODULE C16 --------------------------------
(* The virtual clock only moves as told, and time-based effects follow.     *)
EXTENDS TestCommon

M5 == INSTANCE C05

Init == [t |-> TrackInit, m5 |-> M5!Init, opn |-> <<0, 0>>]

Known(s, e) == {}

(* The event as the embedded automaton sees it. *)
With(s, e) == IF e.e = "op" THEN [e EXCEPT !.opts = s.t.opts] ELSE e

(* Is this the time on the clock, as far as it is known? *)
Reads(t, at) == IF t.known THEN at = t.clk ELSE Le(t.begin.lo, at) /\ Le(at, t.begin.hi)
Reaches(t, a, at) ==
  IF t.known \/ a.k # "by" THEN at = Target(t, a)
  ELSE Le(TimeAdd(t.begin.lo, a.d), at) /\ Le(at, TimeAdd(t.begin.hi, a.d))

Tick(t, e) ==
  LET a == NextAct(t) IN
  Rule(Moves(a), "ticked without being told to move the clock")
  \cup (IF ~Moves(a) THEN {} ELSE
        Rule(a.k # "adj" \/ t.adj # <<>>, "the adjustment was not asked where to move the clock")
        \cup Rule(Reaches(t, a, e.now), "the clock was not moved to exactly the time asked for")
        \cup Rule(~Silent(t, a), "the clock was moved backwards"))

Viol(s, e) ==
  M5!Viol(s.m5, With(s, e)) \cup
  CASE IsOp(e, "tick") -> Tick(s.t, e)
    [] IsOp(e, "dispatch") ->
         IF Begins(s.t, e) THEN Rule(Reads(s.t, e.now), "a message was dispatched at another time than the clock's")
         ELSE Rule(e.now = s.t.aclk \/ (~s.t.known /\ Reads(s.t, e.now)), "a message was dispatched at another time than the action's")
    [] e.e = "do" -> Rule(Reads(s.t, e.at), "the clock has changed between actions")
    [] e.e = "clk" -> Rule(Reads(s.t, e.at), "the clock has changed during an action")
    [] e.e = "adj" ->
         Rule(Reads(s.t, e.from), "an adjustment was given another time than the clock's")
         \cup Rule(s.t.adj = <<>>, "an adjustment was asked twice")
         \cup Rule(NextAct(s.t).k = "adj", "an adjustment was asked out of turn")
    [] e.e = "f" /\ e.f = "tcb" -> Rule(e.now = s.opn, "a fact reports another time")
    [] IsCb(e, "hev") -> Rule(e.at = s.opn, "a projection was told another time")
    [] IsCb(e, "handle") /\ e.ht = "process" /\ e.k = "e" -> Rule(e.at = s.opn, "a process was told another time")
    [] IsCb(e, "compact") -> Rule(e.now = s.opn, "a compaction was told another time")
    [] e.e = "sret" /\ e.k # "sel" ->
         Rule(s.t.adj = <<>> \/ s.t.abort # {}, "the clock was told to move, but neither moved nor was the test failed")
    [] OTHER -> {}

Next(s, e) == [t |-> Track(s.t, e), m5 |-> M5!Next(s.m5, With(s, e)), opn |-> IF e.e = "op" THEN e.now ELSE s.opn]
=============================================================================
