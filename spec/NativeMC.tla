------------------------------ MODULE NativeMC ------------------------------
(* Every short history of one map and one array, to be replayed on the real *)
(* ones.                                                                    *)
EXTENDS Native, Json, TLC
CONSTANTS MaxOps
VARIABLES store, hist
vars == <<store, hist>>

A == <<97>>
B == <<98>>
NoOp == [o |-> "", obj |-> 1, k |-> << >>, v |-> << >>, n |-> 0]
M(name) == [NoOp EXCEPT !.o = name]
MK(name, k) == [NoOp EXCEPT !.o = name, !.k = <<k>>]
Arr(name) == [NoOp EXCEPT !.o = name, !.obj = 2]
Values == {<<"s", A>>, <<"i", 7>>, <<"u">>, <<"r", 2>>}
Changes == {[MK("set", k) EXCEPT !.v = <<v>>] : k \in {A, B}, v \in Values}
           \cup {[Arr("append") EXCEPT !.v = <<v>>] : v \in {<<"s", <<49>>>>, <<"u">>, <<"i", 0 - 3>>}}
Looks == {MK(x, k) : x \in {"get", "getexists", "getorpanic", "exists", "isundef", "getstring", "getint"}, k \in {A, B}}
         \cup {M(x) : x \in {"keys", "isempty", "concat", "string"}}
         \cup {[M("whichever") EXCEPT !.k = <<B, A>>]}
         \cup {Arr(x) : x \in {"length", "array", "concat", "string"}} \cup {[Arr("at") EXCEPT !.n = 1]}

WithX(op, r) == [x |-> r] @@ op
Init == /\ store = <<[t |-> "m", vs |-> << >>, kv |-> << >>], [t |-> "a", kv |-> << >>, vs |-> << >>]>>
        /\ hist = <<WithX(M("newmap"), <<"ok">>), WithX(M("newarr"), <<"ok">>)>>
Add(op) == LET e == Do(store, op) IN store' = e.st /\ hist' = Append(hist, WithX(op, e.r))
Change == /\ Len(hist) < MaxOps + 2
          /\ \E op \in Changes : Add(op)
\* a look ends the history
Ended == hist[Len(hist)].o \notin {"newmap", "newarr", "set", "append"}
Look == /\ \E op \in Looks : Add(op)
        /\ PrintT(ToJson(<<"STEP", [ops |-> hist']>>))
Next == \/ ~Ended /\ (Change \/ Look)
        \/ Ended /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

NoDuplicates == \A i \in Maps(store) : LET kv == store[i].kv IN \A a, b \in 1..Len(kv) : kv[a][1] = kv[b][1] => a = b
=============================================================================
