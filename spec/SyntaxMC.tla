------------------------------ MODULE SyntaxMC ------------------------------
(* Every short text made of some pieces: whether it is a rule, and which.   *)
EXTENDS Syntax, Json, TLC, SequencesExt
CONSTANTS MaxLen, Alphabet
Pieces ==
  CASE Alphabet = 1 -> << <<97>>, <<39, 120, 39>>, <<40>>, <<41>>, <<124>>, <<42>>, <<63>>, <<33>>, <<97, 58>>, <<32>>, <<123, 49, 44, 125>> >>
    [] Alphabet = 2 -> << <<97>>, <<39>>, <<91>>, <<93>>, <<47>>, <<92>>, <<32>>, <<43>>, <<44>>, <<123>>, <<125>>, <<50>> >>
    [] Alphabet = 3 -> << <<97>>, <<98, 58>>, <<38, 58>>, <<64, 58>>, <<91, 99, 93>>, <<124>>, <<10>>, <<63>>, <<43>>, <<40, 63>>, <<41>>, <<45, 62, 123, 125>> >>
VARIABLE ix
RECURSIVE Glue(_)
Glue(is) == IF is = << >> THEN << >> ELSE Pieces[is[1]] \o Glue(Tail(is))
\* texts with expressions in / or [ ] are left to the other checks, except [c]
RECURSIVE Plain(_)
Plain(x) ==
  /\ x.t = "cls" => x.s = <<91, 99, 93>>
  /\ x.t # "rx" /\ x.t # "?"
  /\ \A i \in 1..Len(x.k) : Plain(x.k[i])
  /\ \A i \in 1..Len(x.j) : Plain(x.j[i])
\* every byte in every place
Around == << << <<97>>, <<98>> >>, << <<97>>, << >> >>, << << >>, <<97>> >>, << <<97, 58>>, <<98>> >>,      \* a_b a_ _a a:_b
             << <<39>>, <<39>> >>, << <<39, 92>>, <<39>> >>, << <<97, 32>>, <<32, 98>> >>,                   \* '_' '\_' a _ b
             << <<97, 42, 123, 49>>, <<44, 50, 125>> >>, << <<97, 42, 123, 49, 44>>, <<50, 125>> >>,       \* a*{1_,2} a*{1,_2}
             << <<97, 124>>, <<98>> >>, << <<97, 124, 98>>, <<124, 99>> >>, << <<40>>, <<97, 41>> >>,        \* a|_b a|b_|c (_a)
             << <<97, 42>>, <<98>> >>, << <<40, 97, 41>>, <<98>> >>, << <<97, 98>>, <<58, 99>> >>, << <<33>>, <<97>> >>, \* a*_b (a)_b ab_:c !_a
             << <<97, 63>>, << >> >>, << <<97, 32, 45>>, <<123, 125>> >>, << <<40, 63>>, <<97, 41>> >> >>       \* a?_ a -_{} (?_a)
Judged(txt) ==
  LET r == Rule(txt) IN
  IF ~r.ok THEN <<"no">> ELSE IF ~Plain(r.v) THEN <<"?">> ELSE <<"yes", Shown(r.v)>>
Init == ix = << >>
Told(txt) == IF Judged(txt) # <<"?">> THEN PrintT(ToJson(<<"STEP", [ops |-> <<[o |-> "rule", s |-> txt, x |-> Judged(txt)]>>]>>)) ELSE TRUE
Bytes == /\ Alphabet = 0 /\ ix = << >>
         /\ \E i \in 1..Len(Around), b \in 0..255 : ix' = <<i, b>> /\ Told(Around[i][1] \o <<b>> \o Around[i][2])
Texts == /\ Alphabet > 0 /\ Len(ix) < MaxLen
         /\ \E i \in 1..Len(Pieces) : ix' = Append(ix, i)
         /\ Told(Glue(ix'))
Next == Bytes \/ Texts
Spec == Init /\ [][Next]_ix
=============================================================================
