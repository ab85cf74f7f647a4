---------------------------- MODULE SyntaxCheck ----------------------------
(* Texts of rules read by the real joeson, by several generations of its    *)
(* grammar, are judged by the definition of the rule language.              *)
EXTENDS Syntax, Json, TLC, SequencesExt
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES n, done
\* regular expressions other than those known to be valid are left aside
RECURSIVE Known(_, _)
Known(x, good) ==
  /\ x.t \in {"cls", "rx"} => \E i \in 1..Len(good) : good[i] = x.s
  /\ x.t # "?"
  /\ \A i \in 1..Len(x.k) : Known(x.k[i], good)
  /\ \A i \in 1..Len(x.j) : Known(x.j[i], good)
Judge(c) ==
  LET r == Rule(c.ops[1].s) IN
  IF ~r.ok THEN <<"no">> ELSE IF ~Known(r.v, c.good) THEN <<"?">> ELSE <<"yes", Shown(r.v)>>
\* labels of other rules may be asked for
RECURSIVE Asks(_)
Asks(x) == x.l = <<64>> \/ (\E i \in 1..Len(x.k) : Asks(x.k[i])) \/ (\E i \in 1..Len(x.j) : Asks(x.j[i]))
Check(c) ==
  LET x == Judge(c) IN
  \A i \in 1..Len(c.ops) :
    LET op == c.ops[i]
        \* a grammar can be built with it if it is a rule
        y == IF op.o = "rule" \/ x = <<"?">> THEN x
             ELSE IF x = <<"no">> THEN <<"refused">>
             ELSE IF Asks(Rule(op.s).v) THEN <<"?">> ELSE <<"built">> IN
    IF y = <<"?">> \/ op.r = y THEN TRUE
    ELSE PrintT(ToJson(<<"MISMATCH", c.id, i, IF op.o = "build" THEN "build" ELSE IF op.gen = 0 THEN "rule" ELSE "again", y>>))
Init == n \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ Check(Cases[n]) /\ done' = TRUE /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
