-------------------------------- MODULE Peg --------------------------------
(* Reference semantics: what an element matches at a position, and the      *)
(* value it yields, as a function of the grammar and the text alone.  There *)
(* is no memo table, no history and no trace of attempts that failed.       *)
(*                                                                          *)
(* sd gives the results of left-recursive rules under evaluation, by        *)
(* <<rule node, position>>: a bounded left recursion starts from failure    *)
(* and is repeated as long as the match gets longer.                        *)
EXTENDS Grammar, FiniteSets, TLC

Fail(p) == [ok |-> FALSE, v |-> Undef, p |-> p]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

RECURSIVE Eval(_, _, _, _, _, _), Body(_, _, _, _, _, _), Raw(_, _, _, _, _, _),
          Alternatives(_, _, _, _, _, _, _), InSeq(_, _, _, _, _, _, _, _),
          Repeat(_, _, _, _, _, _, _, _), Grow(_, _, _, _, _, _, _)

\* the value of n at p, after its label and parse function
Prepared(g, a, n, r) ==
  IF ~r.ok THEN r
  ELSE LET nd == g.nodes[n]
           v  == IF a[n].own THEN <<"m", << <<a[n].label, r.v>> >> >> ELSE r.v
       IN IF nd.cb = "" THEN Ok(v, r.p)
          ELSE LET c == ApplyCb(nd.cb, nd.r, v, r.p) IN
               IF c.ok THEN Ok(c.v, r.p) ELSE Fail(r.p)

Body(g, a, txt, n, p, sd) == Prepared(g, a, n, Raw(g, a, txt, n, p, sd))

Grow(g, a, txt, n, p, sd, best) ==
  LET r == Body(g, a, txt, n, p, (<<n, p>> :> best) @@ sd) IN
  IF r.ok /\ r.p > best.p THEN Grow(g, a, txt, n, p, sd, r) ELSE best

Eval(g, a, txt, n, p, sd) ==
  IF ~IsRule(g, n) THEN Body(g, a, txt, n, p, sd)
  ELSE IF <<n, p>> \in DOMAIN sd THEN sd[<<n, p>>]
  ELSE LET first == Body(g, a, txt, n, p, (<<n, p>> :> Fail(p)) @@ sd) IN
       IF first.ok /\ n \in g.lrs THEN Grow(g, a, txt, n, p, sd, first) ELSE first

Alternatives(g, a, txt, kids, p, sd, i) ==
  IF i > Len(kids) THEN Fail(p)
  ELSE LET r == Eval(g, a, txt, kids[i], p, sd) IN
       IF r.ok THEN r ELSE Alternatives(g, a, txt, kids, p, sd, i + 1)

\* the elements of sequence n from the i-th on; acc is what was collected
InSeq(g, a, txt, n, p, sd, i, acc) ==
  LET nd == g.nodes[n] IN
  IF i > Len(nd.k) THEN Ok(IF a[n].kind = "array" THEN Arr(acc) ELSE acc, p)
  ELSE LET k == nd.k[i]
           r == Eval(g, a, txt, k, p, sd) IN
       IF ~r.ok THEN r
       ELSE InSeq(g, a, txt, n, r.p, sd, i + 1,
                  CASE a[n].kind = "map"    -> Collect(acc, a[k].label, r.v)
                    [] a[n].kind = "array"  -> IF a[k].cap THEN Append(acc, r.v) ELSE acc
                    [] a[n].kind = "single" -> IF a[k].cap THEN r.v ELSE acc)

\* repetition n, having matched vals up to p
Repeat(g, a, txt, n, p, sd, p0, vals) ==
  LET nd == g.nodes[n]
      enough == Len(vals) >= nd.mn
      done(q) == IF enough THEN Ok(Arr(vals), q) ELSE Fail(p0)
  IN IF nd.mx >= 0 /\ Len(vals) >= nd.mx THEN done(p)
     ELSE LET j == IF nd.j = 0 \/ vals = << >> THEN Ok(Undef, p) ELSE Eval(g, a, txt, nd.j, p, sd) IN
          IF ~j.ok THEN done(p)
          ELSE LET r == Eval(g, a, txt, nd.k[1], j.p, sd) IN
               IF ~r.ok THEN done(p)
               \* no progress: going on would never end
               ELSE IF nd.mx < 0 /\ r.p = p /\ vals # << >> /\ enough THEN done(p)
               ELSE Repeat(g, a, txt, n, r.p, sd, p0, Append(vals, r.v))

Raw(g, a, txt, n, p, sd) ==
  LET nd == g.nodes[n] IN
  CASE IsTerminal(nd) -> Terminal(nd, txt, p)
    [] nd.t \in {"choice", "rank"} -> Alternatives(g, a, txt, nd.k, p, sd, 1)
    [] nd.t = "seq"  -> InSeq(g, a, txt, n, p, sd, 1, IF a[n].kind = "array" THEN << >> ELSE Undef)
    [] nd.t = "opt"  -> LET r == Eval(g, a, txt, nd.k[1], p, sd) IN
                        IF ~r.ok THEN Ok(Undef, p)
                        ELSE IF a[n].wrap # "" THEN Ok(<<"m", << <<a[n].wrap, r.v>> >> >>, r.p) ELSE r
    [] nd.t = "not"  -> IF Eval(g, a, txt, nd.k[1], p, sd).ok THEN Fail(p) ELSE Ok(Undef, p)
    [] nd.t = "look" -> LET r == Eval(g, a, txt, nd.k[1], p, sd) IN IF r.ok THEN Ok(r.v, p) ELSE Fail(p)
    [] nd.t = "pat"  -> Repeat(g, a, txt, n, p, sd, p, << >>)
    [] nd.t = "ref"  -> Eval(g, a, txt, nd.ref, p, sd)

\* the whole text against the grammar
Parse(g, a, txt) == Eval(g, a, txt, g.top, 0, << >>)
============================================================================
