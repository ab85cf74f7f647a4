------------------------------- MODULE Lines -------------------------------
(* How rules are declared: O(..) and I(..) take a rule (its text, or a name *)
(* with a text, with lines or with a parser), then functions and options in *)
(* any number and order.  Anything else is refused while the grammar is     *)
(* being built.  Every declaration with few arguments is one behaviour.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxMore

\* first arguments: whether they name the rule, and whether they are a rule
Firsts == << "text", "named text", "named lines", "named deep lines", "parser", "named parser",
             "bad text", "named bad text", "named bad lines", "bad regex", "named bad regex", "deep bad lines",
             "lines", "i", "number", "option", "function", "nothing", "named i", "named number", "no name", "line list of texts" >>
Named == {"named text", "named lines", "named deep lines", "named parser",
          "named bad text", "named bad lines", "named bad regex", "deep bad lines", "named i", "named number", "line list of texts"}
IsRule(f) == f \in {"text", "named text", "named lines", "named deep lines", "parser", "named parser", "no name"}
\* further arguments
Mores == << "f1", "f2", "f3", "skip", "debug", "skiplog", "text", "lines", "o", "i", "number", "parser", "wrong f", "named" >>
Functions == {"f1", "f2", "f3"}
Options == {"skip", "debug", "skiplog"}

Fine(d) ==
  /\ IsRule(d.first)
  /\ d.kind = "i" => d.first \in Named  \* nothing could refer to it
  /\ \A i \in 1..Len(d.more) : d.more[i] \in Functions \cup Options
\* the function that the rule has: the last one given
RECURSIVE FunctionOf(_)
FunctionOf(more) ==
  IF more = << >> THEN ""
  ELSE IF more[Len(more)] \in Functions THEN more[Len(more)] ELSE FunctionOf(SubSeq(more, 1, Len(more) - 1))
Expected(d) == IF Fine(d) THEN <<"built", FunctionOf(d.more)>> ELSE <<"refused">>

VARIABLE d
\* nested: the declaration is among the lines of another rule
Say == \A nested \in BOOLEAN :
         PrintT(ToJson(<<"STEP", [ops |-> <<[o |-> d'.kind, first |-> d'.first, more |-> d'.more, nested |-> nested,
                                             named |-> d'.first \in Named, x |-> Expected(d')]>>]>>))
Init == d = [kind |-> "", first |-> "", more |-> << >>]
Next ==
  \/ /\ d.kind = ""
     /\ \E k \in {"o", "i"}, f \in 1..Len(Firsts) : d' = [kind |-> k, first |-> Firsts[f], more |-> << >>]
     /\ Say
  \/ /\ d.kind # "" /\ d.first # "nothing" /\ Len(d.more) < MaxMore
     /\ \E m \in 1..Len(Mores) : d' = [d EXCEPT !.more = Append(@, Mores[m])]
     /\ Say
Spec == Init /\ [][Next]_d
=============================================================================
