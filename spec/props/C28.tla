-------------------------------- MODULE C28 --------------------------------
(* Engines and tests that share an application do not influence each other:
   each of them follows the rules as if it were the only one.
   e       engine -> what it does
   t       test -> what each automaton of the test layer has seen
   first   engine -> the ID of its first message, or "?" if it was refused *)
EXTENDS Common

ME == INSTANCE C26
M16 == INSTANCE C16
M17 == INSTANCE C17
M18 == INSTANCE C18
M19 == INSTANCE C19
M20 == INSTANCE C20
M21 == INSTANCE C21
M22 == INSTANCE C22

Who == {"a", "b", "c"}

Init == [e |-> [g \in Who |-> ME!Init],
         t |-> [g \in Who |-> [
                  m16 |-> M16!Init,
                  m17 |-> M17!Init,
                  m18 |-> M18!Init,
                  m19 |-> M19!Init,
                  m20 |-> M20!Init,
                  m21 |-> M21!Init,
                  m22 |-> M22!Init]],
         lay |-> "",
         first |-> <<>>]

Known(s, e) == {}

(* The events that each automaton looks at. *)
K16 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "f", "clk"}
K17 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "pm", "rep"}
K18 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "pnew", "pdone", "prep", "pover", "plate", "rep"}
K19 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "rep"}
K20 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "ex", "exx", "ic", "icx", "nx", "pdone", "stuck"}
K21 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "pnew", "pdone", "plate", "rep", "pm"}
K22 == {"app", "begin", "step", "sel", "sret", "op", "ret", "so", "cbx", "cb", "call", "callx", "do", "dox", "set", "adj", "fatal", "failnow", "sat", "f"}
K26 == {"app", "op", "ret", "cb", "cbx", "sob", "so", "f", "clog", "cancel", "rst", "end"}

First(s, e) == e.e = "f" /\ e.f = "dcb" /\ e.g \notin DOMAIN s.first
Refused(s, e) == e.e = "ret" /\ e.op = "dispatch" /\ e.g \notin DOMAIN s.first

InTest(t, e) ==
      (IF e.e \in K16 THEN M16!Viol(t.m16, e) ELSE {})
  \cup (IF e.e \in K17 THEN M17!Viol(t.m17, e) ELSE {})
  \cup (IF e.e \in K18 THEN M18!Viol(t.m18, e) ELSE {})
  \cup (IF e.e \in K19 THEN M19!Viol(t.m19, e) ELSE {})
  \cup (IF e.e \in K20 THEN M20!Viol(t.m20, e) ELSE {})
  \cup (IF e.e \in K21 THEN M21!Viol(t.m21, e) ELSE {})
  \cup (IF e.e \in K22 THEN M22!Viol(t.m22, e) ELSE {})

Viol(s, e) ==
  IF e.e = "crash" THEN {"the process crashed"}
  ELSE IF e.e = "app" THEN {}
  ELSE IF s.lay = "engine"
    THEN (IF e.e \in K26 THEN ME!Viol(s.e[e.g], e) ELSE {})
         \cup Rule(~First(s, e) \/ \A g \in DOMAIN s.first : s.first[g] \in {e.v.id, "?"},
                   "the ID of the first message depends on what else happens")
    ELSE InTest(s.t[e.g], e)

Next(s, e) ==
  LET lay == IF e.e = "app" THEN e.layer ELSE s.lay IN
  IF e.e = "crash" THEN s
  ELSE IF lay = "engine"
    THEN [s EXCEPT !.lay = lay,
                   !.e[e.g] = IF e.e \in K26 THEN ME!Next(@, e) ELSE @,
                   !.first = IF First(s, e) THEN (e.g :> e.v.id) @@ @ ELSE IF Refused(s, e) THEN (e.g :> "?") @@ @ ELSE @]
    ELSE [s EXCEPT !.lay = lay, !.t[e.g] = [
            m16 |-> IF e.e \in K16 THEN M16!Next(@.m16, e) ELSE @.m16,
            m17 |-> IF e.e \in K17 THEN M17!Next(@.m17, e) ELSE @.m17,
            m18 |-> IF e.e \in K18 THEN M18!Next(@.m18, e) ELSE @.m18,
            m19 |-> IF e.e \in K19 THEN M19!Next(@.m19, e) ELSE @.m19,
            m20 |-> IF e.e \in K20 THEN M20!Next(@.m20, e) ELSE @.m20,
            m21 |-> IF e.e \in K21 THEN M21!Next(@.m21, e) ELSE @.m21,
            m22 |-> IF e.e \in K22 THEN M22!Next(@.m22, e) ELSE @.m22]]
=============================================================================
