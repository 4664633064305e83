-------------------------------- MODULE C22 --------------------------------
(* Handler selection by name or pattern is exact and last-wins.             *)
EXTENDS TestCommon

M1 == INSTANCE C01
M8 == INSTANCE C08

Init == [t |-> TrackInit, m1 |-> M1!Init, m8 |-> M8!Init]

Known(s, e) == {}

With(s, e) == IF e.e = "op" THEN [e EXCEPT !.opts = s.t.opts] ELSE e

Viol(s, e) ==
  M1!Viol(s.m1, With(s, e)) \cup M8!Viol(s.m8, With(s, e)) \cup
  CASE e.e = "sret" /\ e.k = "sel" /\ s.t.sel # <<>> ->
         IF BadSel(s.t.app, s.t.sel) THEN Rule(e.res = "panic", "an impossible selection was accepted")
         ELSE Rule(e.res = "ok", "a possible selection was refused")
    [] OTHER -> {}

Next(s, e) == [t |-> Track(s.t, e), m1 |-> M1!Next(s.m1, With(s, e)), m8 |-> M8!Next(s.m8, With(s, e))]
=============================================================================
