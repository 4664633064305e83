-------------------------------- MODULE C26 --------------------------------
(* Everything an engine does is determined by what it is given.            *)
EXTENDS Engine

Init == Boot

Known(s, e) == {}

(* What the engine itself chooses: the ID of a new message, and the time of an
   operation that was not told the time. *)
IsNew(e) == e.e = "f" /\ e.f \in {"dcb", "arec", "irec", "pexec", "psched"}
Hint(e) == [id |-> IF e.e # "f" THEN "" ELSE IF e.f = "dcb" THEN e.v.id ELSE IF IsNew(e) THEN e.pv.id ELSE "",
            now |-> IF e.e = "f" THEN e.now ELSE <<>>]

Viol(s, e) ==
  IF ~Allowed(s, e, Hint(e)) THEN {"not what the engine does next at \"" \o s.pc \o "\""}
  ELSE Rule(~IsNew(e) \/ (Hint(e).id # "" /\ Hint(e).id \notin s.ids), "a new message has the ID of another one")
       \cup Rule(~(e.e = "f" /\ e.f \in {"dcb", "tcb"}) \/ (IF s.op.wall THEN Le(s.op.now, e.now) ELSE e.now = s.op.now),
                 "an operation has another time than it was given")

Next(s, e) == Step(s, e, Hint(e))
=============================================================================
