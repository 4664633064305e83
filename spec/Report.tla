------------------------------- MODULE Report -------------------------------
(* How a report is written, and how it can be read.                          *)
(*                                                                           *)
(* A report is [ok, crit, out, exp, adds, subs]: mark, criteria, outcome,    *)
(* lines of the explanation, what was added to its sections in order (title  *)
(* and lines), and the reports of other expectations that it contains. It is *)
(* written as lines of text, and reading those gives its parts in order, each*)
(* with its depth, mark, heading and sections, and the lines that belong to  *)
(* no part. Marks are written as + and -.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
Indent(p, ls) == [j \in DOMAIN ls |-> p \o ls[j]]

(***************************************************************************)
(* Writing.                                                                *)
(***************************************************************************)
(* A section is found by its title, or else appended. *)
RECURSIVE Gather(_, _)
Gather(q, adds) ==
  IF adds = <<>> THEN q
  ELSE LET a == adds[1]
           has == \E j \in DOMAIN q : q[j].t = a.t IN
       Gather(IF has THEN [j \in DOMAIN q |-> IF q[j].t = a.t THEN [q[j] EXCEPT !.ls = @ \o a.ls] ELSE q[j]] ELSE Append(q, [t |-> a.t, ls |-> a.ls]),
              Tail(adds))

Blank(q) == IF q = <<>> THEN <<>> ELSE <<"">>
RECURSIVE WriteSections(_)
WriteSections(q) ==
  IF q = <<>> THEN <<>> ELSE <<q[1].t>> \o Indent("    ", q[1].ls) \o Blank(Tail(q)) \o WriteSections(Tail(q))

RECURSIVE Write(_)
Write(r) ==
  LET q == SelectSeq(Gather(<<>>, r.adds), LAMBDA z : z.ls # <<>>)
      x == IF r.exp = <<>> THEN <<>> ELSE <<"EXPLANATION">> \o Indent("    ", r.exp) \o Blank(q)
      b == x \o WriteSections(q) IN
  <<(IF r.ok THEN "+ " ELSE "- ") \o r.crit \o (IF r.out = "" THEN "" ELSE " (" \o r.out \o ")")>>
  \o Blank(b) \o Indent("  | ", b)
  \o Indent("    ", Concat([j \in DOMAIN r.subs |-> Write(r.subs[j])]))

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
Starts(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
From(l, n) == SubSeq(l, n + 1, Len(l))
RECURSIVE Trim(_)
Trim(l) == IF l # "" /\ SubSeq(l, Len(l), Len(l)) = " " THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE Depth(_)
Depth(l) == IF Starts(l, "    ") THEN 1 + Depth(From(l, 4)) ELSE 0
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "    " \o Spaces(n - 1)

(* a: nodes so far, junk, and how many blank lines came last *)
ReadLine(a, line) ==
  LET l == Trim(line)
      d == Depth(l)
      r == From(l, 4 * d)
      n == Len(a.nodes)
      p == IF n = 0 THEN "" ELSE Spaces(a.nodes[n].d) \o "  |"
      c == From(l, Len(p))
      k == IF n = 0 THEN 0 ELSE Len(a.nodes[n].sects) IN
  CASE l = "" -> a
    [] Starts(r, "+ ") \/ Starts(r, "- ") ->
         [a EXCEPT !.nodes = Append(@, [d |-> d, ok |-> Starts(r, "+ "), hd |-> From(r, 2), sects |-> <<>>]), !.blank = 0]
    [] n > 0 /\ Starts(l, p) /\ c = "" -> [a EXCEPT !.blank = @ + 1]
    [] n > 0 /\ Starts(l, p) /\ Starts(c, "     ") /\ k > 0 ->
         [a EXCEPT !.nodes[n].sects[k].ls = @ \o [j \in 1..a.blank |-> ""] \o <<From(c, 5)>>, !.blank = 0]
    [] n > 0 /\ Starts(l, p) /\ Starts(c, " ") /\ ~Starts(c, "  ") ->
         [a EXCEPT !.nodes[n].sects = Append(@, [t |-> From(c, 1), ls |-> <<>>]), !.blank = 0]
    [] OTHER -> [a EXCEPT !.junk = Append(@, l)]
RECURSIVE ReadLines(_, _)
ReadLines(a, ls) == IF ls = <<>> THEN a ELSE ReadLines(ReadLine(a, ls[1]), Tail(ls))
Read(ls) == ReadLines([nodes |-> <<>>, junk |-> <<>>, blank |-> 0], ls)
=============================================================================
