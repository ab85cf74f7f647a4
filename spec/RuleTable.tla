----------------------------- MODULE RuleTable -----------------------------
(* Which rules a grammar has: the rules of a rank are its i rules and its o *)
(* rules, each preceded by those within it, numbered from 0.                *)
EXTENDS Grammar, TLC
RECURSIVE InOrder(_, _), Under(_, _, _)
Under(g, ns, i) == IF i > Len(ns) THEN << >> ELSE InOrder(g, ns[i]) \o Under(g, ns, i + 1)
InOrder(g, n) ==
  (IF g.nodes[n].t = "rank" THEN Under(g, g.nodes[n].ir, 1) \o Under(g, g.nodes[n].k, 1) ELSE << >>)
  \o (IF n = g.top THEN << >> ELSE <<n>>)
\* the rank in which rule n is declared
Home(g, n) == CHOOSE r \in 1..Len(g.nodes) :
  g.nodes[r].t = "rank" /\ \E ks \in {g.nodes[r].ir, g.nodes[r].k} : \E i \in 1..Len(ks) : ks[i] = n
RECURSIVE Commas(_)
Commas(ls) == IF ls = << >> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "," \o Commas(Tail(ls))

(* How a rule reads when printed.  Bytes outside 32..126 read ~ and their    *)
(* value; src is what the class or expression of a terminal says. *)
(* While rules are listed (e), no merged optional has got its label @ yet.   *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Letter1(b) ==
  CASE b = 92 -> "\\\\" [] b = 10 -> "\\n" [] b = 13 -> "\\r" [] b = 9 -> "\\t" [] b = 7 -> "\\a" [] b = 8 -> "\\b"
    [] b = 11 -> "\\v" [] b = 12 -> "\\f" [] b \in 32..126 -> SubSeq(Printable, b - 31, b - 31) [] OTHER -> "~" \o ToString(b)
RECURSIVE Spelled(_), Written(_, _, _), Joined(_, _, _, _), Named(_, _, _)
Spelled(s) == IF s = << >> THEN "" ELSE Letter1(s[1]) \o Spelled(Tail(s))
Joined(g, ns, sep, e) ==
  IF ns = << >> THEN "" ELSE Named(g, ns[1], e) \o (IF Len(ns) > 1 THEN sep ELSE "") \o Joined(g, Tail(ns), sep, e)
RECURSIVE NamesOf(_, _)
NamesOf(g, ns) == IF ns = << >> THEN "" ELSE g.nodes[ns[1]].r \o (IF Len(ns) > 1 THEN "," ELSE "") \o NamesOf(g, Tail(ns))
\* within others: with its name or label
Named(g, n, e) ==
  LET l == IF e THEN g.nodes[n].l ELSE Label(g, n) IN
  (IF IsRule(g, n) THEN g.nodes[n].r \o ": " ELSE IF l # "" THEN l \o ":" ELSE "") \o Written(g, n, e)
Written(g, n, e) ==
  LET nd == g.nodes[n] IN
  CASE nd.t = "str" -> "'" \o Spelled(nd.s) \o "'"
    [] nd.t \in {"cls", "rx"} -> "/(" \o nd.src \o ")/g"
    [] nd.t = "ref" -> g.nodes[nd.ref].r
    [] nd.t = "gone" -> nd.txt
    [] nd.t = "seq" -> "(" \o Joined(g, nd.k, " ", e) \o ")"
    [] nd.t = "choice" -> "(" \o Joined(g, nd.k, " | ", e) \o ")"
    [] nd.t = "opt" -> Named(g, nd.k[1], e) \o "?"
    [] nd.t = "not" -> "!" \o Named(g, nd.k[1], e)
    [] nd.t = "look" -> "(?" \o Named(g, nd.k[1], e) \o ")"
    [] nd.t = "rank" -> "Rank(" \o NamesOf(g, nd.k) \o ")"
    [] nd.t = "pat" -> Named(g, nd.k[1], e) \o "*" \o (IF nd.j = 0 THEN "" ELSE Named(g, nd.j, e)) \o
         (IF nd.mn < 0 /\ nd.mx < 0 THEN ""
          ELSE "{" \o (IF nd.mn < 0 THEN "" ELSE ToString(nd.mn)) \o "," \o (IF nd.mx < 0 THEN "" ELSE ToString(nd.mx)) \o "}")

Row(g, n, id) ==
  <<g.nodes[n].r, id, IF Captured(g, n) THEN "y" ELSE "n", Label(g, n), Commas(Labels(g, n)),
    IF Home(g, n) = g.top THEN "__grammar__" ELSE g.nodes[Home(g, n)].r,
    Written(g, n, FALSE)>>
Table(g) == LET ns == InOrder(g, g.top) IN [i \in 1..Len(ns) |-> Row(g, ns[i], i - 1)]
Listed(g) == LET ns == InOrder(g, g.top) IN [i \in 1..Len(ns) |-> <<g.nodes[ns[i]].r, i - 1, Written(g, ns[i], TRUE)>>]

(* Walk visits the rules in order, then the top rank, each with all that is  *)
(* in it; Pre comes before what is within, Post after it.  Where Pre stops,  *)
(* neither what is within is visited nor Post called.  0 is the grammar.     *)
Whole(g) == "GRAMMAR{" \o Named(g, g.top, FALSE) \o "}"
Inside(g, n) ==
  IF n = 0 THEN InOrder(g, g.top) \o <<g.top>>
  ELSE LET nd == g.nodes[n] IN
    CASE nd.t = "rank" -> nd.ir \o nd.k
      [] nd.t = "pat" -> nd.k \o (IF nd.j = 0 THEN << >> ELSE <<nd.j>>)
      [] OTHER -> nd.k
Called(g, n) == IF n = 0 THEN Whole(g) ELSE Named(g, n, FALSE)
RECURSIVE Visits(_, _, _, _), VisitAll(_, _, _, _, _)
\* the visits, with how many calls of Pre there were; every stop-th stops
Visits(g, n, parent, acc) ==
  LET pre == [v |-> Append(acc.v, <<"pre", Called(g, n), parent>>), k |-> acc.k + 1, stop |-> acc.stop] IN
  IF acc.stop > 0 /\ pre.k % acc.stop = 0 THEN pre
  ELSE LET in == VisitAll(g, Inside(g, n), 1, Called(g, n), pre) IN
       [in EXCEPT !.v = Append(@, <<"post", Called(g, n), parent>>)]
VisitAll(g, ns, i, parent, acc) ==
  IF i > Len(ns) THEN acc ELSE VisitAll(g, ns, i + 1, parent, Visits(g, ns[i], parent, acc))
Walked(g, stop) == Visits(g, 0, "", [v |-> << >>, k |-> 0, stop |-> stop]).v

\* what is asked for and answered
Answer(g, opt, what) ==
  CASE what = "count" -> <<Len(InOrder(g, g.top))>>
    [] what = "text" -> <<Whole(g)>>
    [] what = "walk" -> Walked(g, 0)
    [] what = "walk3" -> Walked(g, 3)
    [] what = "ready" -> <<TRUE>>
    [] what = "table" -> IF opt.grammar THEN Table(g) ELSE << >>
    [] what = "loop" -> IF opt.loop THEN Listed(g) ELSE << >>
    [] what = "again" -> Table(g)  \* PrintRules
=============================================================================
