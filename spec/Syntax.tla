------------------------------- MODULE Syntax -------------------------------
(* The language in which rules are written.  Expr reads a text (bytes) and  *)
(* says which elements it stands for, as a tree; a text that is read to its *)
(* end is a rule.  Nothing here says how joeson reads it: joeson does so    *)
(* with a grammar of its own, written in itself.                            *)
EXTENDS Naturals, Integers, Sequences

SB(txt, p) == IF p < Len(txt) THEN txt[p + 1] ELSE -1  \* the byte at p
Blank(b) == b \in {32, 10}
Letter(b) == b \in (65..90) \cup (97..122) \cup {95, 46}
Digit(b) == b \in 48..57

RECURSIVE Ws(_, _), WordEnd(_, _), DigitsEnd(_, _)
Ws(txt, p) == IF Blank(SB(txt, p)) THEN Ws(txt, p + 1) ELSE p
WordEnd(txt, p) == IF Letter(SB(txt, p)) \/ Digit(SB(txt, p)) THEN WordEnd(txt, p + 1) ELSE p
DigitsEnd(txt, p) == IF Digit(SB(txt, p)) THEN DigitsEnd(txt, p + 1) ELSE p
RECURSIVE Number(_, _, _)
Number(txt, p, q) == IF p = q THEN 0 ELSE 10 * Number(txt, p, q - 1) + SB(txt, q - 1) - 48
Piece(txt, p, q) == SubSeq(txt, p + 1, q)

\* the length of the character at p
CharLen(txt, p) ==
  LET c(i) == SB(txt, p + i) \in 128..191
      b == SB(txt, p) IN
  CASE b \in 194..223 /\ c(1) -> 2
    [] b \in 224..239 /\ c(1) /\ c(2) -> 3
    [] b \in 240..244 /\ c(1) /\ c(2) /\ c(3) -> 4
    [] OTHER -> 1

\* reading at p gave tree v and led to e, or nothing
Read(v, e) == [ok |-> TRUE, v |-> v, e |-> e]
Nothing == [ok |-> FALSE, v |-> << >>, e |-> 0]
NoTree == [t |-> "?", k |-> << >>, l |-> << >>, s |-> << >>, mn |-> -1, mx |-> -1, j |-> << >>]
Elem(t, kids) == [NoTree EXCEPT !.t = t, !.k = kids]
Leaf(t, s) == [NoTree EXCEPT !.t = t, !.s = s]

\* what is quoted from p on, up to the byte that ends it; a backslash takes
\* the special meaning from the next character (keep: but is itself kept)
RECURSIVE Quoted(_, _, _, _, _)
Quoted(txt, p, end, keep, acc) ==
  IF p >= Len(txt) THEN Nothing
  ELSE IF SB(txt, p) = end THEN Read(acc, p + 1)
  ELSE IF SB(txt, p) = 92 /\ p + 1 < Len(txt)
       THEN LET n == CharLen(txt, p + 1) IN
            Quoted(txt, p + 1 + n, end, keep, acc \o (IF keep THEN <<92>> ELSE << >>) \o Piece(txt, p + 1, p + 1 + n))
  ELSE LET n == CharLen(txt, p) IN Quoted(txt, p + n, end, keep, acc \o Piece(txt, p, p + n))

RECURSIVE Expr(_, _), Choice(_, _), More(_, _, _), SequenceOf(_, _), Units(_, _, _), Labelled(_, _),
          Decorated(_, _), Primary(_, _), Pipes(_, _)

Primary(txt, p) ==
  LET b == SB(txt, p) IN
  CASE Letter(b) ->  \* a reference; a parameter in parentheses has no meaning
         LET q == WordEnd(txt, p)
             a == IF SB(txt, q) = 40 THEN Expr(txt, q + 1) ELSE Nothing
             param == a.ok /\ SB(txt, a.e) = 41
         IN Read([Leaf("ref", Piece(txt, p, q)) EXCEPT !.j = IF param THEN <<a.v>> ELSE << >>], IF param THEN a.e + 1 ELSE q)
    [] b = 40 ->
         LET q == WordEnd(txt, p + 1)
             strange == Letter(SB(txt, p + 1)) /\ SB(txt, q) = 58 /\ SB(txt, q + 1) = 32  \* (word: ...)
             a == Expr(txt, IF strange THEN q + 2 ELSE p + 1)
         IN IF a.ok /\ SB(txt, a.e) = 41 THEN Read(IF strange THEN NoTree ELSE a.v, a.e + 1) ELSE Nothing
    [] b = 39 -> LET r == Quoted(txt, p + 1, 39, FALSE, << >>) IN IF r.ok THEN Read(Leaf("str", r.v), r.e) ELSE Nothing
    [] b = 47 -> LET r == Quoted(txt, p + 1, 47, TRUE, << >>) IN IF r.ok THEN Read(Leaf("rx", r.v), r.e) ELSE Nothing
    [] b = 91 -> LET r == Quoted(txt, p + 1, 93, TRUE, << >>) IN
                 IF r.ok THEN Read(Leaf("cls", <<91>> \o r.v \o <<93>>), r.e) ELSE Nothing
    [] OTHER -> Nothing

\* {min,max}, each of which may be left out
Bounds(txt, p) ==
  LET a == Ws(txt, p + 1)
      b == DigitsEnd(txt, a)
      c == Ws(txt, b)
      d == Ws(txt, c + 1)
      e == DigitsEnd(txt, d)
      f == Ws(txt, e)
  IN IF SB(txt, p) = 123 /\ SB(txt, c) = 44 /\ SB(txt, f) = 125
     THEN Read(<<IF a = b THEN -1 ELSE Number(txt, a, b), IF d = e THEN -1 ELSE Number(txt, d, e)>>, f + 1)
     ELSE Nothing

Decorated(txt, p) ==
  LET b == SB(txt, p) IN
  IF b = 33 THEN LET x == Primary(txt, p + 1) IN IF x.ok THEN Read(Elem("not", <<x.v>>), x.e) ELSE Nothing
  ELSE IF b = 63 THEN LET x == Expr(txt, p + 1) IN IF x.ok THEN Read(Elem("look", <<x.v>>), x.e) ELSE Nothing
  ELSE LET x == Primary(txt, p) IN
    IF ~x.ok THEN Nothing
    ELSE LET c == SB(txt, x.e)
             join == IF Blank(SB(txt, x.e + 1)) THEN Nothing ELSE Primary(txt, x.e + 1)
             q == IF join.ok THEN join.e ELSE x.e + 1
             rng == Bounds(txt, q)
             pat(mn, mx, e) == Read([Elem("pat", <<x.v>>) EXCEPT !.mn = mn, !.mx = mx,
                                       !.j = IF join.ok THEN <<join.v>> ELSE << >>], e)
         IN CASE c = 63 -> Read(Elem("opt", <<x.v>>), x.e + 1)
              [] c = 42 -> IF rng.ok THEN pat(rng.v[1], rng.v[2], rng.e) ELSE pat(-1, -1, q)
              [] c = 43 -> pat(1, -1, q)
              [] OTHER  -> LET r == Bounds(txt, x.e) IN
                           IF r.ok THEN Read([Elem("pat", <<x.v>>) EXCEPT !.mn = r.v[1], !.mx = r.v[2]], r.e) ELSE x

Labelled(txt, p) ==
  LET q == IF SB(txt, p) \in {38, 64} THEN p + 1
           ELSE IF Letter(SB(txt, p)) THEN WordEnd(txt, p) ELSE p
  IN IF q > p /\ SB(txt, q) = 58
     THEN LET x == Decorated(txt, q + 1) IN IF x.ok THEN Read([x.v EXCEPT !.l = Piece(txt, p, q)], x.e)
                                            ELSE Decorated(txt, p)
     ELSE Decorated(txt, p)

Units(txt, p, acc) ==
  LET x == Labelled(txt, Ws(txt, p)) IN
  IF x.ok THEN Units(txt, x.e, Append(acc, x.v)) ELSE Read(acc, p)
SequenceOf(txt, p) ==
  LET u == Units(txt, p, << >>) IN
  IF u.v = << >> THEN Nothing
  ELSE Read(IF Len(u.v) = 1 THEN u.v[1] ELSE Elem("seq", u.v), u.e)

Pipes(txt, p) == IF SB(txt, Ws(txt, p)) = 124 THEN Pipes(txt, Ws(txt, p) + 1) ELSE p
More(txt, p, acc) ==  \* alternatives after the first
  LET q == Ws(txt, p)
      s == SequenceOf(txt, q + 1)
  IN IF SB(txt, q) = 124 /\ s.ok THEN More(txt, s.e, Append(acc, s.v)) ELSE Read(acc, p)
Choice(txt, p) ==
  LET p1 == Pipes(txt, p)
      s1 == SequenceOf(txt, p1)
      m  == More(txt, s1.e, <<s1.v>>)
  IN IF ~s1.ok THEN Nothing
     ELSE IF Len(m.v) > 1 THEN Read(Elem("choice", m.v), Pipes(txt, m.e))
     ELSE IF p1 = p THEN s1 ELSE Nothing
Expr(txt, p) == LET x == Choice(txt, p) IN IF x.ok THEN Read(x.v, Ws(txt, x.e)) ELSE Nothing

\* the rule that a text stands for
Rule(txt) == LET x == Expr(txt, 0) IN IF x.ok /\ x.e = Len(txt) THEN x ELSE Nothing

---------------------------------------------------------------------------
(* How the elements of a rule are shown                                     *)
RECURSIVE Shown(_), ShownAll(_, _, _), Decimal(_), Escaped(_)
Escaped(s) ==
  IF s = << >> THEN << >>
  ELSE (CASE s[1] = 92 -> <<92, 92>>
          [] s[1] = 10 -> <<92, 110>>
          [] s[1] = 9 -> <<92, 116>>
          [] s[1] = 13 -> <<92, 114>>
          [] s[1] = 7 -> <<92, 97>>
          [] s[1] = 8 -> <<92, 98>>
          [] s[1] = 11 -> <<92, 118>>
          [] s[1] = 12 -> <<92, 102>>
          [] OTHER -> <<s[1]>>) \o Escaped(Tail(s))
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
\* regular expressions are shown with line ends and tabs escaped only
RECURSIVE OneLined(_)
OneLined(s) ==
  IF s = << >> THEN << >>
  ELSE (CASE s[1] = 10 -> <<92, 110>> [] s[1] = 9 -> <<92, 116>> [] s[1] = 13 -> <<92, 114>>
          [] OTHER -> <<s[1]>>) \o OneLined(Tail(s))
ShownAll(trees, i, sep) ==
  IF i > Len(trees) THEN << >>
  ELSE (IF i > 1 THEN sep ELSE << >>) \o Shown(trees[i]) \o ShownAll(trees, i + 1, sep)
Shown(x) ==
  (IF x.l = << >> THEN << >> ELSE x.l \o <<58>>) \o
  CASE x.t = "str" -> <<39>> \o Escaped(x.s) \o <<39>>
    [] x.t = "ref" -> x.s
    [] x.t \in {"cls", "rx"} -> <<47, 40>> \o OneLined(x.s) \o <<41, 47, 103>>
    [] x.t = "seq" -> <<40>> \o ShownAll(x.k, 1, <<32>>) \o <<41>>
    [] x.t = "choice" -> <<40>> \o ShownAll(x.k, 1, <<32, 124, 32>>) \o <<41>>
    [] x.t = "opt" -> Shown(x.k[1]) \o <<63>>
    [] x.t = "not" -> <<33>> \o Shown(x.k[1])
    [] x.t = "look" -> <<40, 63>> \o Shown(x.k[1]) \o <<41>>
    [] x.t = "pat" -> Shown(x.k[1]) \o <<42>> \o (IF x.j = << >> THEN << >> ELSE Shown(x.j[1])) \o
         (IF x.mn < 0 /\ x.mx < 0 THEN << >>
          ELSE <<123>> \o (IF x.mn < 0 THEN << >> ELSE Decimal(x.mn)) \o <<44>> \o
               (IF x.mx < 0 THEN << >> ELSE Decimal(x.mx)) \o <<125>>)
    [] OTHER -> <<63>>

\* whether what is not described here occurs
RECURSIVE Described(_)
DescribedAll(trees) == \A i \in 1..Len(trees) : Described(trees[i])
Described(x) == x.t # "?" /\ DescribedAll(x.k) /\ DescribedAll(x.j)
=============================================================================
