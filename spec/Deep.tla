-------------------------------- MODULE Deep --------------------------------
(* Families of grammars and texts of every size n.  What a parse comes to   *)
(* is given in closed form: how many values parse functions built, how deep *)
(* the result nests, how many leaves it has and of what length, and how     *)
(* many calls of parse functions it took; or where the error is.  For small *)
(* n the closed form is checked against the reference semantics.            *)
EXTENDS Peg, Json
Cases == ndJsonDeserialize("cases.ndjson")
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)

Parsed(built, depth, strs, bytes, calls) == <<"ok", built, depth, strs, bytes, calls>>
Error(p, line, col, calls) == <<"err", p, line, col, calls>>
Comes(f, n) ==
  CASE f = "nest"     -> Parsed(n + 1, n + 1, 1, 1, n + 1)          \* S: '(' S ')' | 'x'
    [] f = "unclosed" -> Error(n, 0, n, n)                          \*    one ) is missing
    [] f = "list"     -> Parsed(n + 1, 3, n, n, n + 1)              \* L: N*','
    [] f = "tokens"   -> Parsed(n + 1, 3, n, n, n + 1)              \*    as tokens, one a line
    [] f = "long"     -> Error(2 * n - 1, 0, 2 * n - 1, n + 1)      \*    followed by !
    [] f = "badtoken" -> Error(2 * n - 1, 2 * n - 1, 0, n + 1)      \*    both
    [] f = "left"     -> Parsed(2 * n, 2 * n, n, n, 2 * n + 1)      \* E: E '+' N | N
    [] f = "right"    -> Parsed(2 * n, 2 * n, n, n, 2 * n)          \* R: N ',' R | N
    [] f = "again"    -> Parsed(2 * n + 2, 2 * n + 2, 1, 1, 2 * n + 2)  \* S: A 'b' | A 'c' | A, A: '(' S ')' | 'x'
    [] f = "lines"    -> Error(2 * n, n, 0, n + 1)                  \* L: (W '\n')*, followed by !
    [] f = "chain"    -> Parsed(n, n, 1, 1, n)                      \* R1: R2, R2: R3, ..
    [] f = "alts"     -> Parsed(1, 1, 1, Digits(n) + 2, 1)          \* A: 'k0;' | 'k1;' | ..
    [] f = "postfix"  -> Parsed(2 * n + 1, 2 * n + 1, n + 1, n + 1, 3 * n + 2)  \* E: E '(' E ')' | 'x'
    [] f = "word"     -> Parsed(1, 2, n, n, 1)                      \* T: [a-z]+
    [] f = "literal"  -> Parsed(1, 2, 1, n, 1)                      \* T: x:'aa..'
    [] f = "exactly"  -> Parsed(1, 3, n, n, 1)                      \* T: x:'a'*{n,n}
    [] f = "fewer"    -> Error(0, 0, 0, 0)                          \*    for one less and b
    [] f = "more"     -> Error(n, 0, n, 1)                          \*    for one more and b
    [] f = "labels"   -> Parsed(1, 2, n, n - (n \div 3), 1)         \* T: l1:'a' l2:'a' l3:'b'? l4:'a' ..
    [] f = "far"      -> Parsed(7, 8, 3, 3, 8) \o <<2 * n + 4, 2 * n + 5, n>>  \* S: 'a\n'* e:E, E: E '+' N | N; where the last N begins and ends
    [] f = "cycle"    -> Parsed(3 * n + 4, 3 * n + 4, 1, 1, 4 * n + 5)  \* R0: R1 'x' | 'a', R1: R2, .. Rn: R0
    [] f = "mutual"   -> Parsed(7 * n + 2, 6 * n + 2, 2 * n + 1, 2 * n + 1, 8 * n + 3)  \* P: C | M | N, C: P '(' P ')', M: P '.' N
    [] f = "rules"    -> Parsed(2, 2, 1, 1, n + 1)                  \* S: R1 '!' | R2 '!' | .. | Rn
    [] f = "parens"   -> Parsed(1, 1, 1, 1, 1)                      \* T: ((..[x]..))

RECURSIVE Built(_), Depth(_), Strs(_), Bytes(_), Most(_), Total(_, _)
Kids(v) == CASE v[1] = "c" -> <<v[3]>> [] v[1] = "a" -> v[2]
             [] v[1] = "m" -> [i \in 1..Len(v[2]) |-> v[2][i][2]] [] OTHER -> << >>
Most(vs) == IF vs = << >> THEN 0 ELSE LET d == Depth(vs[1]) m == Most(Tail(vs)) IN IF d > m THEN d ELSE m
Depth(v) == IF v[1] \in {"s", "u"} THEN 0 ELSE 1 + Most(Kids(v))
Total(what, vs) ==
  IF vs = << >> THEN 0
  ELSE (CASE what = "built" -> Built(vs[1]) [] what = "strs" -> Strs(vs[1]) [] what = "bytes" -> Bytes(vs[1])) + Total(what, Tail(vs))
Built(v) == (IF v[1] = "c" THEN 1 ELSE 0) + Total("built", Kids(v))
Strs(v) == (IF v[1] \in {"s", "u"} THEN 1 ELSE 0) + Total("strs", Kids(v))
Bytes(v) == (IF v[1] = "s" THEN Len(v[2]) ELSE 0) + Total("bytes", Kids(v))

\* the closed form says of a small one what the reference semantics say
Agrees(c) ==
  LET op == c.ops[1]
      x == Comes(op.o, op.n)
      g == [nodes |-> c.g.nodes, top |-> c.g.top, lrs |-> LeftRecursive(c.g)]
      r == Parse(g, AttrTable(c.g), op.in)
  IN IF x[1] = "ok"
     THEN r.ok /\ r.p = Len(op.in) /\ <<Built(r.v), Depth(r.v), Strs(r.v), Bytes(r.v)>> = SubSeq(x, 2, 5)
     ELSE ~(r.ok /\ r.p = Len(op.in))

VARIABLES c, k
vars == <<c, k>>
Init == c \in 1..Len(Cases) /\ k = 0
Next ==
  IF k = 0
  THEN LET op == Cases[c].ops[1]
           x == Comes(op.o, op.n) IN
       /\ op.in # << >> => Assert(Agrees(Cases[c]), <<"closed form", op.o, op.n>>)
       /\ IF x = op.r THEN TRUE ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, 1, "size", x>>))
       /\ k' = 1 /\ UNCHANGED c
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
