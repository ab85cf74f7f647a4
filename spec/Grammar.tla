------------------------------ MODULE Grammar ------------------------------
(* A grammar is a table of nodes, see harness/node.go for the fields.  Here *)
(* is what joeson derives from it before anything is parsed: which elements *)
(* are captured, which labels they show to the sequence around them, and    *)
(* hence which kind of value each sequence yields.                          *)
EXTENDS Naturals, Integers, Sequences, Values

IsLabel(l) == l # "" /\ l # "@" /\ l # "&"

RECURSIVE Labels(_, _), LabelsOf(_, _, _)
LabelsOf(g, kids, i) ==
  IF i > Len(kids) THEN << >> ELSE Labels(g, kids[i]) \o LabelsOf(g, kids, i + 1)
\* the labels that node n shows to an enclosing sequence
Labels(g, n) ==
  LET nd == g.nodes[n] IN
  CASE nd.t = "seq" -> IF IsLabel(nd.l) THEN <<nd.l>> ELSE LabelsOf(g, nd.k, 1)
    [] nd.t = "opt" -> IF IsLabel(nd.l) THEN <<nd.l>> ELSE Labels(g, nd.k[1])
    [] nd.t = "ref" -> IF nd.l = "@" THEN Labels(g, nd.ref)
                       ELSE IF nd.l # "" THEN <<nd.l>> ELSE << >>
    [] OTHER        -> IF nd.l # "" THEN <<nd.l>> ELSE << >>

\* an optional element around labels gets merged into the enclosing sequence
Label(g, n) ==
  LET nd == g.nodes[n] IN
  IF nd.t = "opt" /\ nd.l = "" /\ Labels(g, n) # << >> THEN "@" ELSE nd.l

RECURSIVE CapturedAtFirst(_, _)
CapturedAtFirst(g, n) ==
  LET nd == g.nodes[n] IN
  CASE nd.t \in {"str", "not", "look"} -> FALSE
    [] nd.t \in {"ref", "gone"} -> ~nd.u
    [] nd.t = "pat" -> CapturedAtFirst(g, nd.k[1])
    [] OTHER -> TRUE

RECURSIVE Captured(_, _), Captures(_, _), CapturesOf(_, _, _)
\* how many values n contributes to an enclosing sequence without labels
Captures(g, n) ==
  LET nd == g.nodes[n] IN
  CASE nd.t = "seq" -> CapturesOf(g, nd.k, 1)
    [] nd.t = "opt" -> Captures(g, nd.k[1])
    [] OTHER -> IF Captured(g, n) THEN 1 ELSE 0
CapturesOf(g, kids, i) ==
  IF i > Len(kids) THEN 0 ELSE Captures(g, kids[i]) + CapturesOf(g, kids, i + 1)
Captured(g, n) ==
  LET nd == g.nodes[n] IN
  CASE nd.t \in {"choice", "rank"} -> \A i \in 1..Len(nd.k) : Captured(g, nd.k[i])
    [] nd.t = "opt" -> Captures(g, nd.k[1]) > 0
    [] OTHER -> CapturedAtFirst(g, n)

Kind(g, n) ==
  LET nd == g.nodes[n] IN
  IF nd.t # "seq" THEN ""
  ELSE IF LabelsOf(g, nd.k, 1) # << >> THEN "map"
  ELSE IF CapturesOf(g, nd.k, 1) > 1 THEN "array" ELSE "single"

\* n looks after the labels of its children itself
RECURSIVE Handles(_, _)
Handles(g, n) ==
  IF n = 0 THEN FALSE
  ELSE CASE g.nodes[n].t = "seq" -> TRUE
         [] g.nodes[n].t = "opt" -> Handles(g, g.nodes[n].p)
         [] OTHER -> FALSE

\* a label which nobody else looks after turns the value into a map
Standalone(g, n) ==
  Label(g, n) # "" /\ g.nodes[n].p # 0 /\ ~Handles(g, g.nodes[n].p)

\* (a:e)? in a sequence is merged, so the value of e has to become a map
OptWrap(g, n) ==
  LET nd == g.nodes[n] IN
  IF nd.t = "opt" /\ Label(g, n) = "@" /\ IsLabel(Label(g, nd.k[1])) /\ Handles(g, n)
  THEN Label(g, nd.k[1]) ELSE ""

\* everything about node n that parsing looks at
Attr(g, n) ==
  [label |-> Label(g, n), cap |-> Captured(g, n), kind |-> Kind(g, n),
   own |-> Standalone(g, n), wrap |-> OptWrap(g, n)]
AttrTable(g) == [n \in 1..Len(g.nodes) |-> Attr(g, n)]

IsRule(g, n) == g.nodes[n].r # ""

---------------------------------------------------------------------------
(* Terminals.  A text is a sequence of bytes, a position counts from 0.     *)
At(txt, p, s) == p + Len(s) <= Len(txt) /\ \A i \in 1..Len(s) : txt[p + i] = s[i]
Slice(txt, p, q) == SubSeq(txt, p + 1, q)

Cont(b) == b \in 128..191
\* the code point at p and its length; what is no UTF-8 counts as U+FFFD
Decode(txt, p) ==
  LET b(i) == IF p + i <= Len(txt) THEN txt[p + i] ELSE 0 IN
  CASE b(1) < 128 -> <<b(1), 1>>
    [] b(1) \in 194..223 /\ Cont(b(2)) -> <<(b(1) - 192) * 64 + b(2) - 128, 2>>
    [] b(1) \in 224..239 /\ Cont(b(2)) /\ Cont(b(3))
       /\ (b(1) = 224 => b(2) >= 160) /\ (b(1) = 237 => b(2) <= 159)
       -> <<(b(1) - 224) * 4096 + (b(2) - 128) * 64 + b(3) - 128, 3>>
    [] b(1) \in 240..244 /\ Cont(b(2)) /\ Cont(b(3)) /\ Cont(b(4))
       /\ (b(1) = 240 => b(2) >= 144) /\ (b(1) = 244 => b(2) <= 143)
       -> <<(b(1) - 240) * 262144 + (b(2) - 128) * 4096 + (b(3) - 128) * 64 + b(4) - 128, 4>>
    [] OTHER -> <<65533, 1>>

\* the length of what class c matches at p, 0 if it does not match
ClassAt(txt, p, c) ==
  IF p >= Len(txt) THEN 0
  ELSE LET d == Decode(txt, p)
           in == \E i \in 1..Len(c.set) : c.set[i][1] <= d[1] /\ d[1] <= c.set[i][2]
       IN IF in # c.neg THEN d[2] ELSE 0

RECURSIVE RunItem(_, _, _, _)
\* the position after greedily repeating item it, having k repetitions at p; -1 if too few
RunItem(txt, p, it, k) ==
  LET m == ClassAt(txt, p, it) IN
  IF (it.mx >= 0 /\ k >= it.mx) \/ m = 0 THEN (IF k >= it.mn THEN p ELSE -1)
  ELSE RunItem(txt, p + m, it, k + 1)
RECURSIVE RunItems(_, _, _, _)
RunItems(txt, p, rx, i) ==
  IF p < 0 \/ i > Len(rx) THEN p ELSE RunItems(txt, RunItem(txt, p, rx[i], 0), rx, i + 1)

(* A regular expression is a sequence of items.  An item is a class of      *)
(* characters (set, neg) or a choice of regular expressions (a), repeated   *)
(* mn to mx times (mx < 0: any number), as often as possible or (lz) as     *)
(* seldom as possible; or it is an assertion (z).                           *)
(* It sees the text from position b on, as if nothing stood before.         *)
WordChar(txt, p) == p < Len(txt) /\ LET c == txt[p + 1] IN c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Boundary(txt, p, b) == (p > b /\ WordChar(txt, p - 1)) # WordChar(txt, p)
Asserted(txt, p, b, z) ==
  CASE z = "^" -> p = b
    [] z = "$" -> p = Len(txt)
    [] z = "m^" -> p = b \/ txt[p] = 10
    [] z = "m$" -> p = Len(txt) \/ txt[p + 1] = 10
    [] z = "b" -> Boundary(txt, p, b)
    [] z = "B" -> ~Boundary(txt, p, b)
RECURSIVE RxTry(_, _, _, _, _), RxEither(_, _, _, _, _, _, _)
\* Where the first way to match rx at p ends, alternatives being tried in order; q = -1: there is none.
\* seen is what was tried in vain: it need not be tried again.
RxTry(txt, p, b, rx, seen) ==
  IF rx = << >> THEN [q |-> p, seen |-> seen]
  ELSE IF <<p, rx>> \in seen THEN [q |-> -1, seen |-> seen]
  ELSE LET it == Head(rx)
           rest == Tail(rx)
           again == <<[it EXCEPT !.mn = IF @ > 0 THEN @ - 1 ELSE 0, !.mx = IF @ < 0 THEN @ ELSE @ - 1]>> \o rest
           m == ClassAt(txt, p, it)
           no(s) == [q |-> -1, seen |-> s]
           more(s) == IF it.mx = 0 THEN no(s)
                      ELSE IF it.a # << >> THEN RxEither(txt, p, b, it.a, 1, again, s)
                      ELSE IF m = 0 THEN no(s) ELSE RxTry(txt, p + m, b, again, s)
           enough(s) == IF it.mn > 0 THEN no(s) ELSE RxTry(txt, p, b, rest, s)
           now == seen \cup {<<p, rx>>}
           first == IF it.lz THEN enough(now) ELSE more(now)
       IN IF it.z # "" THEN (IF Asserted(txt, p, b, it.z) THEN RxTry(txt, p, b, rest, now) ELSE no(now))
          ELSE IF first.q >= 0 THEN first
          ELSE IF it.lz THEN more(first.seen) ELSE enough(first.seen)
RxEither(txt, p, b, alts, i, rest, seen) ==
  IF i > Len(alts) THEN [q |-> -1, seen |-> seen]
  ELSE LET e == RxTry(txt, p, b, alts[i] \o rest, seen) IN
       IF e.q >= 0 THEN e ELSE RxEither(txt, p, b, alts, i + 1, rest, e.seen)

\* where rx ends at p, -1 if it does not match there; items that need no backtracking are run
RxEnd(txt, p, rx) ==
  IF \E i \in 1..Len(rx) : rx[i].bt THEN RxTry(txt, p, p, rx, {}).q ELSE RunItems(txt, p, rx, 1)
RECURSIVE RxNull(_)
\* it may match nothing
RxNull(rx) ==
  \A i \in 1..Len(rx) :
     rx[i].z # "" \/ rx[i].mn = 0 \/ \E j \in 1..Len(rx[i].a) : RxNull(rx[i].a[j])

IsTerminal(nd) == nd.t \in {"str", "cls", "rx"}
\* [ok, v, p]: whether it matched, the value, the position afterwards
Terminal(nd, txt, p) ==
  CASE nd.t = "str" -> IF At(txt, p, nd.s) THEN [ok |-> TRUE, v |-> Str(nd.s), p |-> p + Len(nd.s)]
                       ELSE [ok |-> FALSE, v |-> Undef, p |-> p]
    [] nd.t = "cls" -> LET m == ClassAt(txt, p, nd) IN
                       IF m = 0 THEN [ok |-> FALSE, v |-> Undef, p |-> p]
                       ELSE [ok |-> TRUE, v |-> Str(Slice(txt, p, p + m)), p |-> p + m]
    [] nd.t = "rx"  -> LET q == RxEnd(txt, p, nd.rx) IN
                       IF q < 0 THEN [ok |-> FALSE, v |-> Undef, p |-> p]
                       ELSE [ok |-> TRUE, v |-> Str(Slice(txt, p, q)), p |-> q]

\* line and column of a position, both counting from 0
LineStarts(txt) == {0} \cup {i \in 1..Len(txt) : txt[i] = 10}
LineOf(txt, p) == Len(SelectSeq([i \in 1..p |-> i], LAMBDA i : txt[i] = 10))
ColOf(txt, p) ==
  LET starts == {q \in LineStarts(txt) : q <= p} IN
  p - (CHOOSE q \in starts : \A r \in starts : r <= q)
---------------------------------------------------------------------------
(* Left recursion                                                           *)
RECURSIVE NullStep(_, _)
Nullable1(g, n, null) ==
  LET nd == g.nodes[n] IN
  CASE nd.t \in {"opt", "not", "look"} -> TRUE
    [] nd.t = "pat" -> nd.mn <= 0 \/ nd.k[1] \in null
    [] nd.t = "seq" -> \A i \in 1..Len(nd.k) : nd.k[i] \in null
    [] nd.t \in {"choice", "rank"} -> \E i \in 1..Len(nd.k) : nd.k[i] \in null
    [] nd.t = "ref" -> nd.ref \in null
    [] nd.t = "str" -> nd.s = << >>
    [] nd.t = "rx" -> RxNull(nd.rx)
    [] OTHER -> FALSE
NullStep(g, null) ==
  LET more == {n \in 1..Len(g.nodes) : Nullable1(g, n, null)} IN
  IF more \subseteq null THEN null ELSE NullStep(g, null \cup more)
\* what may be evaluated at the same position as node n
LeftOf(g, n, null) ==
  LET nd == g.nodes[n] IN
  CASE nd.t = "seq" -> {nd.k[i] : i \in {j \in 1..Len(nd.k) : \A q \in 1..(j - 1) : nd.k[q] \in null}}
    [] nd.t = "ref" -> {nd.ref}
    [] nd.t = "pat" -> {nd.k[1]} \cup (IF nd.j # 0 /\ nd.k[1] \in null THEN {nd.j} ELSE {})
    [] OTHER -> {nd.k[i] : i \in 1..Len(nd.k)}
RECURSIVE ReachL(_, _, _, _)
ReachL(g, null, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new == (UNION {LeftOf(g, n, null) : n \in todo}) \ seen IN ReachL(g, null, seen \cup new, new)
\* the nodes that may be evaluated at the same position after n was entered
After(g, null, n) == ReachL(g, null, {}, {n})
LeftRecursive(g) ==
  LET null == NullStep(g, {}) IN
  {n \in 1..Len(g.nodes) : g.nodes[n].r # "" /\ n \in After(g, null, n)}
============================================================================
