---------------------------- MODULE StreamCheck ----------------------------
(* Validates recorded histories of code streams.                            *)
EXTENDS Stream, Json, TLC
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, k, pos
vars == <<c, k, pos>>
Init == c \in 1..Len(Cases) /\ k = 0 /\ pos = 0
Op == Cases[c].ops[k + 1]
\* a needle that is not there: the documentation of CodeStream says "" and stay,
\* the streams read everything; nothing else will do
Absent == Op.o = "until" /\ ~Has(Cases[c].st.work, pos, Op.s)
Outcomes == IF Absent
            THEN LET w == Cases[c].st.work IN {[r |-> Text(Slice(w, pos, Len(w))), p |-> Len(w)], Same(Text(<< >>), pos)}
            ELSE {Do(Cases[c].st, pos, Op)}
Next ==
  IF k < Len(Cases[c].ops)
  THEN /\ IF [r |-> Op.r, p |-> Op.p] \in Outcomes THEN TRUE
          ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, k + 1, Op.o, Outcomes>>))
       /\ k' = k + 1 /\ pos' = Op.p /\ UNCHANGED c
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
