------------------------------- MODULE Small -------------------------------
(* A family of small grammars, all of which are looked at.  A grammar has a *)
(* top rank with the rule A, and a rule B besides.  The body of a rule is a *)
(* choice among sequences of items.                                         *)
EXTENDS Grammar, SequencesExt, FiniteSets

\* trees, from which the node table is made
Tree(t, kids) == [t |-> t, k |-> kids, l |-> "", s |-> << >>, to |-> "",
                  mn |-> -1, mx |-> -1, j |-> << >>, txt |-> ""]
StrTree(b) == [Tree("str", << >>) EXCEPT !.s = <<b>>]
ClsTree(b) == [Tree("cls", << >>) EXCEPT !.s = <<b>>, !.txt = IF b = 97 THEN "[a]" ELSE "[b]"]
RefTree(name) == [Tree("ref", << >>) EXCEPT !.to = name]
PatTree(kid, txt, mn, mx) == [Tree("pat", <<kid>>) EXCEPT !.txt = txt, !.mn = mn, !.mx = mx]
JoinTree(kid, join) == [Tree("pat", <<kid>>) EXCEPT !.txt = "*", !.j = <<join>>]

Item(x) ==
  CASE x = "a"  -> ClsTree(97)
    [] x = "b"  -> ClsTree(98)
    [] x = "'a" -> StrTree(97)
    [] x \in {"A", "B"} -> RefTree(x)
    [] x = "A?" -> Tree("opt", <<RefTree("A")>>)
    [] x = "B?" -> Tree("opt", <<RefTree("B")>>)
    [] x = "a?" -> Tree("opt", <<ClsTree(97)>>)
    [] x = "B*" -> PatTree(RefTree("B"), "*", -1, -1)
    [] x = "a*" -> PatTree(ClsTree(97), "*", -1, -1)
    [] x = "a+" -> PatTree(ClsTree(97), "+", 1, -1)
    [] x = "B*b" -> JoinTree(RefTree("B"), ClsTree(98))
    [] x = "!b" -> Tree("not", <<ClsTree(98)>>)
    [] x = "!B" -> Tree("not", <<RefTree("B")>>)
    [] x = "&B" -> Tree("look", <<RefTree("B")>>)
    [] x = "x:B" -> [RefTree("B") EXCEPT !.l = "x"]
    [] x = "y:a" -> [ClsTree(97) EXCEPT !.l = "y"]

Seq1(items) == IF Len(items) = 1 THEN Item(items[1]) ELSE Tree("seq", [i \in 1..Len(items) |-> Item(items[i])])
Body(alts) == IF Len(alts) = 1 THEN Seq1(alts[1]) ELSE Tree("choice", [i \in 1..Len(alts) |-> Seq1(alts[i])])

RECURSIVE Size(_), Sizes(_, _)
Size(tr) == 1 + Sizes(tr.k, 1) + Sizes(tr.j, 1)
Sizes(kids, i) == IF i > Len(kids) THEN 0 ELSE Size(kids[i]) + Sizes(kids, i + 1)

NodeOf(tr, kids, join, p, at) ==
  [t |-> tr.t, k |-> kids, l |-> tr.l, r |-> "", cb |-> "", sk |-> FALSE,
   s |-> IF tr.t = "str" THEN tr.s ELSE << >>,
   set |-> IF tr.t = "cls" THEN << <<tr.s[1], tr.s[1]>> >> ELSE << >>, neg |-> FALSE, rx |-> << >>,
   mn |-> tr.mn, mx |-> tr.mx, j |-> join, ref |-> IF tr.to = "" THEN 0 ELSE at[tr.to],
   u |-> FALSE, p |-> p, txt |-> tr.txt, par |-> 0, named |-> FALSE, ir |-> << >>,
   ifst |-> FALSE, dbg |-> FALSE, sl |-> FALSE]

RECURSIVE Flatten(_, _, _, _), FlattenAll(_, _, _, _, _)
\* the nodes of tr, the first of which gets index n; at: where the rules are
Flatten(tr, n, p, at) ==
  LET ks == [i \in 1..Len(tr.k) |-> n + 1 + Sizes(SubSeq(tr.k, 1, i - 1), 1)]
      jn == n + 1 + Sizes(tr.k, 1)
  IN <<NodeOf(tr, ks, IF tr.j = << >> THEN 0 ELSE jn, p, at)>>
     \o FlattenAll(tr.k, 1, n, at, ks) \o (IF tr.j = << >> THEN << >> ELSE Flatten(tr.j[1], jn, n, at))
FlattenAll(kids, i, p, at, ks) ==
  IF i > Len(kids) THEN << >> ELSE Flatten(kids[i], ks[i], p, at) \o FlattenAll(kids, i + 1, p, at, ks)

\* the grammar with rules A and B; sk: the rules which are SkipCache, cb: those with a parse function
MakeGrammar(a, b, sk, cb) ==
  LET ta == Body(a)
      tb == Body(b)
      na == 2
      nb == 2 + Size(ta)
      at == [x \in {"A", "B"} |-> IF x = "A" THEN na ELSE nb]
      top == [NodeOf(Tree("rank", << >>), <<na>>, 0, 0, at) EXCEPT !.ir = <<nb>>]
      mark(ns, name) == [ns EXCEPT ![1].r = name, ![1].named = TRUE, ![1].sk = name \in sk,
                                   ![1].cb = IF name \in cb THEN "wrap" ELSE ""]
  IN [nodes |-> <<top>> \o mark(Flatten(ta, na, 1, at), "A") \o mark(Flatten(tb, nb, 1, at), "B"),
      top |-> 1]

Texts(n) == UNION {[1..k -> {97, 98}] : k \in 0..n}
SeqsOver(items, n) == UNION {[1..k -> items] : k \in 1..n}
\* bodies: one or two alternatives, each of which is in alts
Bodies(alts) == {<<x>> : x \in alts} \cup {<<x, y>> : x \in alts, y \in alts}

============================================================================
