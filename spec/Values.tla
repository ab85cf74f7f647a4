------------------------------ MODULE Values ------------------------------
(* What a parse yields, and the operations the grammar elements perform on  *)
(* it.  A value is a tuple whose first component tells what it is:          *)
(*   <<"s", bytes>>   text            <<"i", n>>        integer             *)
(*   <<"u">>          undefined       <<"a", values>>   array               *)
(*   <<"m", << <<key, value>>, .. >> >>                 map, in key order   *)
(*   <<"c", rule, value>>   what the parse function of a rule built         *)
(*   <<"e", message>>       a parse error made by a parse function          *)
EXTENDS Naturals, Integers, Sequences

Undef == <<"u">>
Str(bytes) == <<"s", bytes>>
Arr(vals) == <<"a", vals>>
IsUndef(v) == v[1] = "u"

EmptyMap == <<"m", << >> >>
MapKeys(m) == {m[2][i][1] : i \in 1..Len(m[2])}
\* a key that is there keeps its place, a new one comes last
MapSet(m, k, v) ==
  IF k \in MapKeys(m)
  THEN <<"m", [i \in 1..Len(m[2]) |-> IF m[2][i][1] = k THEN <<k, v>> ELSE m[2][i]]>>
  ELSE <<"m", Append(m[2], <<k, v>>)>>

RECURSIVE MapSetAll(_, _, _)
MapSetAll(m, kvs, i) ==
  IF i > Len(kvs) THEN m ELSE MapSetAll(MapSet(m, kvs[i][1], kvs[i][2]), kvs, i + 1)

\* base extended with what is in extra
Merge(base, extra) == IF IsUndef(extra) THEN base ELSE MapSetAll(base, extra[2], 1)

\* A sequence with labels accumulates one child after the other.
Collect(acc, label, v) ==
  CASE label = ""  -> acc
    [] label = "@" -> IF IsUndef(acc) THEN v ELSE Merge(acc, v)
    [] label = "&" -> IF IsUndef(acc) THEN v
                      ELSE IF IsUndef(v) THEN acc ELSE Merge(v, acc)
    [] OTHER       -> MapSet(IF IsUndef(acc) THEN EmptyMap ELSE acc, label, v)

---------------------------------------------------------------------------
(* The parse functions used by the harness: what rule r returns for value v *)
(* ending at position p.  [ok |-> FALSE] makes the rule fail.               *)
Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> Undef]
ApplyCb(cb, r, v, p) ==
  CASE cb = "wrap"     -> Yes(<<"c", r, v>>)
    [] cb = "nest"     -> Yes(<<"c", r, v>>)
    [] cb = "id"       -> Yes(v)
    [] cb = "probe"    -> Yes(v)
    [] cb = "str"      -> Yes(Str(<<107>>))
    [] cb = "int"      -> Yes(<<"i", p>>)
    [] cb = "undef"    -> Yes(Undef)
    [] cb = "nil"      -> No
    [] cb = "nilodd"   -> IF p % 2 = 1 THEN No ELSE Yes(<<"c", r, v>>)
    [] cb = "nileven"  -> IF p % 2 = 0 THEN No ELSE Yes(v)
    [] cb = "nilundef" -> IF IsUndef(v) THEN No ELSE Yes(v)
    [] cb = "err"      -> Yes(<<"e", "E" \o r>>)
    [] cb = "panic2"   -> Yes(v)
    [] cb = "panic"    -> Yes(v)
Panics(cb, p) == cb = "panic" \/ (cb = "panic2" /\ p >= 2)

---------------------------------------------------------------------------
(* How an observed outcome differs from the expected one: "" if it does not. *)
(* Outcomes are <<"ok", value>>, <<"nil">>, <<"err", position, line, column>> *)
(* (or just <<"err">> when it does not matter where), <<"panic", message>>,  *)
(* and, never expected, <<"crash", message>> and <<"dead", reason>>.         *)
Difference(exp, out) ==
  CASE out[1] = "dead" /\ out[2] = "skipped" -> ""
    [] out[1] \in {"crash", "dead"} -> "crash"
    [] exp[1] # out[1] -> "match"
    [] exp[1] = "ok" -> IF exp[2] = out[2] THEN "" ELSE "value"
    [] exp[1] = "panic" -> IF exp[2] = out[2] THEN "" ELSE "panic"
    [] exp[1] = "err" /\ Len(exp) > 1 ->
         IF exp[2] # out[2] THEN "errpos" ELSE IF exp = out THEN "" ELSE "linecol"
    [] OTHER -> ""
============================================================================
