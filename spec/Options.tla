------------------------------ MODULE Options -------------------------------
(* The trace options that the environment variable TRACE (or trace) and the *)
(* functions giving options stand for.  Every short value of the variable   *)
(* is one behaviour.                                                        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANT MaxItems

Quiet == [stack |-> FALSE, loop |-> FALSE, grammar |-> FALSE, line |-> -1, skip |-> FALSE]
Loud == [Quiet EXCEPT !.stack = TRUE, !.grammar = TRUE, !.skip = TRUE]
Succinct == [Quiet EXCEPT !.grammar = TRUE, !.skip = TRUE]  \* when nothing is said
Bad == [Quiet EXCEPT !.line = -2]

\* an item of the variable, and what it does to the options so far
Items == << "none", "stack", "loop", "skipsetup", "grammar", "all", "line=2", "filterline=0", "line=-1",
            "line=x", "line=", "line=1=2", "", "STACK", " loop", "lines=2", "line", "stackloop", "verbose" >>
Does(item, o) ==
  CASE item = "none" -> Quiet
    [] item = "stack" -> [o EXCEPT !.stack = TRUE]
    [] item = "loop" -> [o EXCEPT !.loop = TRUE]
    [] item = "skipsetup" -> [o EXCEPT !.skip = TRUE]
    [] item = "grammar" -> [o EXCEPT !.grammar = TRUE]
    [] item = "all" -> Loud
    [] item = "line=2" -> [o EXCEPT !.line = 2]
    [] item = "filterline=0" -> [o EXCEPT !.line = 0]
    [] item = "line=-1" -> [o EXCEPT !.line = -1]
    [] OTHER -> Bad
RECURSIVE Told(_, _), Joined(_)
Told(items, o) == IF items = << >> \/ o = Bad THEN o ELSE Told(Tail(items), Does(items[1], o))
Joined(items) == IF Len(items) = 0 THEN "" ELSE IF Len(items) = 1 THEN items[1] ELSE items[1] \o "," \o Joined(Tail(items))

\* the options that function f gives when the environment says nothing
Given(f, d) ==
  CASE f = "mute" -> Quiet
    [] f = "verbose" -> Loud
    [] f \in {"default", "gram"} -> Succinct
    [] f = "gramnil" -> Quiet     \* a grammar built with options that do not say
    [] f = "or" -> d
Shown(o) == IF o = Bad THEN <<"panic">> ELSE <<o.stack, o.loop, o.grammar, o.line, o.skip>>
Gives(f, items, d) ==
  IF f \in {"default", "or", "gram"} /\ Joined(items) # "" THEN Shown(Told(items, Quiet)) ELSE Shown(Given(f, d))

Others == << Quiet, Loud, Succinct, [Quiet EXCEPT !.loop = TRUE, !.line = 3] >>
Fs == << "mute", "verbose", "default", "or", "gram", "gramnil" >>

VARIABLE items
\* one behaviour for each function; v: whether the variable is TRACE ("1"),
\* trace ("2"), or both, with TRACE mattering ("3")
Op(f, v, is, d) == [o |-> f, v |-> v, env |-> Joined(is), d |-> <<d.stack, d.loop, d.grammar, d.line, d.skip>>, x |-> Gives(f, is, d)]
Say(is) ==
  /\ \A v \in {1, 2, 3} :
       \A i \in 1..(IF Len(is) > 2 THEN 4 ELSE Len(Fs)) :  \* grammars take longer to build
         PrintT(ToJson(<<"STEP", [ops |-> <<Op(Fs[i], v, is, Others[((Len(is) + v) % 4) + 1])>>]>>))
  /\ TRUE
Start == \A i \in 1..Len(Others) : PrintT(ToJson(<<"STEP", [ops |-> <<Op("or", 1, << >>, Others[i])>>]>>))
Init == items = << >> /\ Say(items) /\ Start
Next == /\ Len(items) < MaxItems
        /\ \E i \in 1..Len(Items) : items' = Append(items, Items[i])
        /\ Say(items')
Spec == Init /\ [][Next]_items
=============================================================================
