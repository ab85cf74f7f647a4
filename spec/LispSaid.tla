------------------------------ MODULE LispSaid ------------------------------
(* What the other modules leave aside because it is known to go wrong: not,  *)
(* a list where a number is wanted, and several lines typed at once.         *)
EXTENDS Lisp, Json
Lines == << <<"not 0">>, <<"not 1">>, <<"(not (< 1 2))">>, <<"(not (> 1 2))">>, <<"if (not 0) 7 8">>, <<"not (not 5)">>,
            <<"+ (1 2) 3">>, <<"% (1) 2">>, <<"if () 1 2">>,
            <<"+ 1 2", "+ 3 4">>, <<"define (f x) (+ x 1)", "f 2", "f 3">> >>
RECURSIVE Answers(_, _)
Answers(ls, m) ==
  IF ls = << >> THEN << >>
  ELSE LET a == Answer(ls[1], m, 60) IN <<a.say>> \o Answers(Tail(ls), a.m)
RECURSIVE Together(_)
Together(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "|" \o Together(Tail(ls))
VARIABLE i
Init == i = 0
Next == /\ i < Len(Lines)
        /\ i' = i + 1
        /\ PrintT(ToJson(<<"STEP", [ops |-> <<[o |-> "said", s |-> Together(Lines[i']), x |-> Answers(Lines[i'], Fresh)]>>]>>))
Spec == Init /\ [][Next]_i
=============================================================================
