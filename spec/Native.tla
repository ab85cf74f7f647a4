------------------------------- MODULE Native -------------------------------
(* The values that grammars without parse functions yield, as objects: maps *)
(* in the order in which their keys were first set, and arrays.  Both are   *)
(* shared by reference.                                                     *)
(*                                                                          *)
(*   store: objects, << [t |-> "m", kv |-> << <<key, value>>, .. >>] or     *)
(*                      [t |-> "a", vs |-> <<value, .. >>], .. >>           *)
(* A value is <<"s", bytes>>, <<"i", n>>, <<"u">> or <<"r", object>>; keys  *)
(* are bytes as well.                                                       *)
EXTENDS Naturals, Integers, Sequences

RECURSIVE Digits(_), Less(_, _)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)
Less(a, b) ==
  CASE b = << >> -> FALSE
    [] a = << >> -> TRUE
    [] a[1] # b[1] -> a[1] < b[1]
    [] OTHER -> Less(Tail(a), Tail(b))

\* the number that s spells, or <<"bad">>
IsDigits(s) == s # << >> /\ \A i \in 1..Len(s) : s[i] \in 48..57
RECURSIVE Number(_, _)
Number(s, n) == IF s = << >> THEN n ELSE Number(Tail(s), 10 * n + s[1] - 48)
RECURSIVE Bare(_)
Bare(s) == IF s # << >> /\ s[1] = 48 THEN Bare(Tail(s)) ELSE s \* without leading zeros
\* numbers have 64 bits; those of ten digits or more are <<"j", as written>>
Largest == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48>> \* the largest is this and 7 (or -8)
Fits(t, last) ==
  \/ Len(t) < 19
  \/ Len(t) = 19 /\ ~Less(Append(Largest, last), t)
ToInt(s) ==
  LET neg == s # << >> /\ s[1] = 45
      t == IF s # << >> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      d == Bare(t) IN
  IF ~IsDigits(t) THEN <<"panic">>
  ELSE IF Len(d) < 10 THEN <<"i", IF neg THEN 0 - Number(d, 0) ELSE Number(d, 0)>>
  ELSE IF ~Fits(d, IF neg THEN 56 ELSE 55) THEN <<"panic">>
  ELSE <<"j", IF neg THEN <<45>> \o d ELSE d>>

Index(kv, k) == {i \in 1..Len(kv) : kv[i][1] = k}
Exists(kv, k) == Index(kv, k) # {}
Lookup(kv, k) == kv[CHOOSE i \in Index(kv, k) : TRUE][2]
Store(kv, k, v) ==
  IF Exists(kv, k) THEN [kv EXCEPT ![CHOOSE i \in Index(kv, k) : TRUE] = <<k, v>>] ELSE Append(kv, <<k, v>>)
RECURSIVE Sorted(_)
Sorted(kv) ==
  IF kv = << >> THEN << >>
  ELSE LET i == CHOOSE i \in 1..Len(kv) : \A j \in 1..Len(kv) : j = i \/ Less(kv[i][1], kv[j][1])
       IN <<kv[i]>> \o Sorted(SubSeq(kv, 1, i - 1) \o SubSeq(kv, i + 1, Len(kv)))

RECURSIVE Join(_, _, _), Shown(_, _), Concat(_, _), Flat(_, _)
Join(parts, sep, i) ==
  IF i > Len(parts) THEN << >> ELSE (IF i > 1 THEN sep ELSE << >>) \o parts[i] \o Join(parts, sep, i + 1)
UndefName == <<60, 78, 97, 116, 105, 118, 101, 85, 110, 100, 101, 102, 105, 110, 101, 100, 62>> \* <NativeUndefined>
MapName == <<78, 97, 116, 105, 118, 101, 77, 97, 112>>                                          \* NativeMap
\* how a value is printed
Shown(st, v) ==
  CASE v[1] = "s" -> v[2]
    [] v[1] = "i" -> Decimal(v[2])
    [] v[1] = "j" -> v[2]
    [] v[1] = "u" -> UndefName
    [] v[1] = "r" -> LET o == st[v[2]] IN
         IF o.t = "a" THEN <<91>> \o Join([i \in 1..Len(o.vs) |-> Shown(st, o.vs[i])], <<44>>, 1) \o <<93>>
         ELSE MapName \o <<123>> \o Join([i \in 1..Len(o.kv) |-> o.kv[i][1] \o <<58>> \o Shown(st, o.kv[i][2])], <<44, 32>>, 1)
              \o <<125>>
\* what is left of a value when only texts are kept; in an array a map shows whole
Flat(st, v) ==
  CASE v[1] = "u" -> << >>
    [] v[1] = "r" /\ st[v[2]].t = "a" -> Concat(st, v[2])
    [] OTHER -> Shown(st, v)
Concat(st, o) ==
  IF st[o].t = "a" THEN Join([i \in 1..Len(st[o].vs) |-> Flat(st, st[o].vs[i])], << >>, 1)
  ELSE Join([i \in 1..Len(st[o].kv) |->
              LET v == st[o].kv[i][2] IN IF v[1] = "r" THEN Concat(st, v[2]) ELSE Flat(st, v)], << >>, 1)

AsText(st, v) ==
  CASE v[1] = "s" -> v
    [] v[1] = "r" /\ st[v[2]].t = "a" -> <<"s", Concat(st, v[2])>>
    [] OTHER -> <<"panic">>
AsInt(st, v) ==
  CASE v[1] \in {"i", "j"} -> v
    [] v[1] = "s" -> ToInt(v[2])
    [] v[1] = "r" /\ st[v[2]].t = "a" -> ToInt(Concat(st, v[2]))
    [] OTHER -> <<"panic">>

\* operation op = [o, obj, k: keys, v: values, n]: [r |-> result, st |-> store afterwards]
Do(st, op) ==
  LET ob == st[op.obj]
      kv == ob.kv
      key == op.k[1]
      has == Exists(kv, key)
      is(r) == [r |-> r, st |-> st]
      bool(b) == is(<<"b", b>>)
      text(b) == is(<<"s", b>>)
  IN
  CASE op.o = "newmap" -> [r |-> <<"ok">>, st |-> Append(st, [t |-> "m", vs |-> << >>,
                             kv |-> Sorted([i \in 1..Len(op.k) |-> <<op.k[i], op.v[i]>>])])]
    [] op.o = "newarr" -> [r |-> <<"ok">>, st |-> Append(st, [t |-> "a", kv |-> << >>, vs |-> op.v])]
    \* maps
    [] op.o = "set" -> [r |-> <<"ok">>, st |-> [st EXCEPT ![op.obj].kv = Store(@, key, op.v[1])]]
    [] op.o = "get" -> is(IF has THEN Lookup(kv, key) ELSE <<"nil">>)
    [] op.o = "getexists" -> is(IF has THEN Lookup(kv, key) ELSE <<"nil">>)
    [] op.o = "getorpanic" -> is(IF has THEN Lookup(kv, key) ELSE <<"panic">>)
    [] op.o = "whichever" -> LET there == {i \in 1..Len(op.k) : Exists(kv, op.k[i])} IN
         is(IF there = {} THEN <<"panic">> ELSE Lookup(kv, op.k[CHOOSE i \in there : \A j \in there : i <= j]))
    [] op.o = "exists" -> bool(has)
    [] op.o = "isundef" -> bool(~has \/ Lookup(kv, key) = <<"u">>)
    [] op.o = "getstring" -> is(IF has THEN AsText(st, Lookup(kv, key)) ELSE <<"nil">>)
    [] op.o = "getint" -> is(IF has THEN AsInt(st, Lookup(kv, key)) ELSE <<"nil">>)
    [] op.o = "keys" -> is(<<"k", [i \in 1..Len(kv) |-> kv[i][1]]>>)
    [] op.o = "isempty" -> bool(kv = << >>)
    \* arrays
    [] op.o = "append" -> [r |-> <<"ok">>, st |-> [st EXCEPT ![op.obj].vs = Append(@, op.v[1])]]
    [] op.o = "at" -> is(IF op.n < Len(ob.vs) THEN ob.vs[op.n + 1] ELSE <<"panic">>)
    [] op.o = "length" -> is(<<"i", Len(ob.vs)>>)
    [] op.o = "array" -> is(<<"l", ob.vs>>)
    \* both
    [] op.o = "concat" -> text(Concat(st, op.obj))
    [] op.o = "string" -> text(Shown(st, <<"r", op.obj>>))
    \* conversions of a value
    [] op.o = "vstring" -> text(Shown(st, op.v[1]))
    [] op.o = "intfrom" -> is(AsInt(st, op.v[1]))
    [] op.o = "stringfrom" -> is(IF op.v[1][1] \in {"i", "j"} THEN <<"s", Shown(st, op.v[1])>> ELSE AsText(st, op.v[1]))
    [] op.o = "undef" -> bool(op.v[1] = <<"u">>)
    [] op.o = "bool" -> bool(op.v[1][1] = "j" \/ op.v[1][2] # 0)
    [] op.o = "frombool" -> is(<<"i", IF op.n = 0 THEN 0 ELSE 1>>)

Maps(st) == {i \in 1..Len(st) : st[i].t = "m"}
Arrays(st) == {i \in 1..Len(st) : st[i].t = "a"}
Keyless == {"newmap", "newarr", "append", "at", "length", "array", "concat", "string", "vstring", "intfrom", "stringfrom",
            "undef", "bool", "frombool", "keys", "isempty"}
=============================================================================
