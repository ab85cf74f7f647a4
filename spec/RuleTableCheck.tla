--------------------------- MODULE RuleTableCheck ---------------------------
EXTENDS RuleTable, Json
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, k
vars == <<c, k>>
Init == c \in 1..Len(Cases) /\ k = 0
Next ==
  IF k < Len(Cases[c].ops)
  THEN LET op == Cases[c].ops[k + 1]
           x == Answer(Cases[c].g, Cases[c].topt, op.o) IN
       /\ IF x = op.r THEN TRUE ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, k + 1, op.o, x>>))
       /\ k' = k + 1 /\ UNCHANGED c
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
