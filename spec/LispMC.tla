------------------------------- MODULE LispMC -------------------------------
(* Every line made of a few pieces, given to a fresh machine; of the refused *)
(* ones, which end the REPL, every so many.                                  *)
EXTENDS Lisp, Json
CONSTANTS MaxLen, Alphabet, Every
Pieces ==
  CASE Alphabet = 1 -> << "(", ")", " ", "12", "-", "+", "a", "\"", "?", "\t", "<", "=", "!" >>
    [] Alphabet = 2 -> << "(", ") ", "+ ", "not ", "car ", "cdr ", "if ", "cond ", "and ", "or ", "list? ", "1 ", "0 ", "-3 ", "\"x\" ", "y ", "else ", "<= ", "!= ", "% " >>
VARIABLE text
RECURSIVE Glue(_)
Glue(is) == IF is = << >> THEN "" ELSE Pieces[is[1]] \o Glue(Tail(is))
RECURSIVE Sum(_)
Sum(is) == IF is = << >> THEN 0 ELSE is[1] + 3 * Sum(Tail(is))
Init == text = << >>
Next ==
  /\ Len(text) < MaxLen
  /\ \E i \in 1..Len(Pieces) : text' = Append(text, i)
  /\ LET s == Glue(text')
         a == Answer(s, Fresh, 60).say IN
     IF a = <<"?">> \/ (a = <<"refused">> /\ Sum(text') % Every # 0) THEN TRUE
     ELSE PrintT(ToJson(<<"STEP", [ops |-> <<[o |-> "line", s |-> s, x |-> a]>>]>>))
Spec == Init /\ [][Next]_text
=============================================================================
