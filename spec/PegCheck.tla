------------------------------ MODULE PegCheck ------------------------------
(* Validates recorded parses against the reference semantics.               *)
EXTENDS Peg, Json

Cases == ndJsonDeserialize("cases.ndjson")
Attrs == [c \in 1..Len(Cases) |-> AttrTable(Cases[c].g)]
Gram(c) == [nodes |-> Cases[c].g.nodes, top |-> Cases[c].g.top, lrs |-> IF Cases[c].lr THEN LeftRecursive(Cases[c].g) ELSE {}]

VARIABLES c, i, res
vars == <<c, i, res>>

Txt == Cases[c].inputs[i].in
Out == Cases[c].inputs[i].out

\* What the parse has to come to, seen from outside.  A text that is not
\* matched as a whole is an error; where it is reported is not looked at here.
Expected(r) ==
  IF r.ok /\ r.p = Len(Txt) THEN <<"ok", r.v>>
  ELSE IF ~r.ok /\ Txt = << >> THEN <<"nil">> ELSE <<"err">>
Init == /\ c \in 1..Len(Cases)
        /\ i \in 1..Len(Cases[c].inputs)
        /\ res = << >>
Judge == /\ res = << >>
         /\ LET e == Expected(Parse(Gram(c), Attrs[c], Txt))
                d == IF Out[1] = "panic" /\ Cases[c].panics THEN "" ELSE Difference(e, Out) IN
            /\ res' = e
            /\ IF d = "" THEN TRUE ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, i, d, e>>))
         /\ UNCHANGED <<c, i>>
Done == res # << >> /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
