---------------------------- MODULE NativeCheck ----------------------------
(* Validates recorded histories of native values.                           *)
EXTENDS Native, Json, TLC
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, k, store
vars == <<c, k, store>>
Init == c \in 1..Len(Cases) /\ k = 0 /\ store = << >>
Op == Cases[c].ops[k + 1]
Next ==
  IF k < Len(Cases[c].ops)
  THEN LET e == Do(store, Op) IN
       /\ IF e.r = Op.r THEN TRUE
          ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, k + 1, Op.o, e.r>>))
       /\ k' = k + 1 /\ store' = e.st /\ UNCHANGED c
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
