------------------------------ MODULE LispCheck ------------------------------
(* Sessions with the real REPL of examples/lisp-repl, line by line; the rest *)
(* is skipped when several have not ended.                                   *)
EXTENDS Lisp, Json
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, i, m
vars == <<c, i, m>>
Init == c \in 1..Len(Cases) /\ i = 0 /\ m = Fresh
Next ==
  /\ i < Len(Cases[c].ops)
  /\ LET op == Cases[c].ops[i + 1]
         a == Answer(op.s, m, 60) IN
     /\ IF op.r = <<"skipped">> \/ a.say = op.r \/ a.say = <<"?">> THEN TRUE
        ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, i + 1, op.r[1], a.say>>))
     /\ m' = a.m
     /\ i' = IF a.say = <<"?">> THEN Len(Cases[c].ops) ELSE i + 1
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
