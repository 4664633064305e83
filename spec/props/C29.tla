-------------------------------- MODULE C29 --------------------------------
(* What a test does is determined by its program.                           *)
EXTENDS TestKit

Init == TBoot

Known(s, e) == {}

IsNew(e) == e.e = "f" /\ e.f \in {"dcb", "arec", "irec", "pexec", "psched"}
Hint(e) ==
  [id |-> IF e.e # "f" THEN "" ELSE IF e.f = "dcb" THEN e.v.id ELSE IF IsNew(e) THEN e.pv.id ELSE "",
   now |-> CASE e.e = "f" -> e.now [] e.e = "op" -> e.now [] e.e \in {"do", "clk"} -> e.at [] e.e = "adj" -> e.from [] OTHER -> <<>>]

Viol(s, e) ==
  IF ~Allowed(s, e, Hint(e))
    THEN {"not what the test does next at \"" \o s.pc \o "\"" \o (IF s.pc = "op" THEN " (\"" \o s.g.pc \o "\")" ELSE "")}
  ELSE IF s.pc = "off" THEN {}
  ELSE Rule(~IsNew(e) \/ (Hint(e).id # "" /\ Hint(e).id \notin s.g.ids), "a new message has the ID of another one")
       \cup Rule(~(e.e = "f" /\ e.f \in {"dcb", "tcb"}) \/ e.now = s.g.op.now, "an operation has another time than it was given")
       \cup Rule((e.e = "pdone" \/ (e.e = "sat" /\ e.w = "b")) => e.seen = e.obs, "an expectation was not told everything that happened, in order")

Next(s, e) == Step(s, e, Hint(e))
=============================================================================
