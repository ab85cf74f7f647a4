---------------------------- MODULE PackratCheck ----------------------------
(* Validates recorded parses, and the calls of parse functions during them, *)
(* against the parsing machine.                                             *)
EXTENDS Packrat, Stream, Json

Cases == ndJsonDeserialize("cases.ndjson")
Tables == [c \in 1..Len(Cases) |-> AttrTable(Cases[c].g)]
CaseGrammar(j) == Cases[j[1]].g
CaseAttrs(j) == Tables[j[1]]
CaseText(j) == Cases[j[1]].inputs[j[2]].in
\* of tokens, the place in the original text
CasePlace(j, p) ==
  LET i == Cases[j[1]].inputs[j[2]] IN
  IF "st" \in DOMAIN i THEN <<PosToLine(i.st, p), PosToCol(i.st, p)>> ELSE <<LineOf(i.in, p), ColOf(i.in, p)>>

VARIABLES
  li,   \* how many calls of parse functions there were
  bad   \* the first call that differs
vars == <<mvars, li, bad>>

Rec == Cases[job[1]].inputs[job[2]]

Init == /\ \E c \in 1..Len(Cases) : \E i \in 1..Len(Cases[c].inputs) : Begin(<<c, i>>)
        /\ li = 0 /\ bad = << >>

n == li + 1
CallDiff ==
  CASE bad # << >> -> bad
    [] last' # << >> /\ n > Len(Rec.log) -> <<"extra call", n, last'>>
    [] last' # << >> /\ Rec.log[n] # last' -> <<"call", n, last'>>
    [] mode'[1] = "halt" /\ li' < Len(Rec.log) -> <<"missing call", n>>
    [] OTHER -> << >>
Report(what, more) == PrintT(ToJson(<<"MISMATCH", Cases[job[1]].id, job[2], what, more>>))
Next ==
  \/ /\ Step
     /\ li' = IF last' # << >> THEN li + 1 ELSE li
     /\ bad' = CallDiff
     /\ IF bad' # bad THEN Report(bad'[1], bad') ELSE TRUE
     /\ IF mode'[1] = "halt"
        THEN LET d == Difference(mode'[2], Rec.out) IN
             IF d # "" THEN Report(d, mode'[2]) ELSE TRUE
        ELSE TRUE
  \/ Halted /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
