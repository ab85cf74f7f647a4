-------------------------------- MODULE Lisp --------------------------------
(* The lisp of examples/lisp-repl: how a line is read, and what it comes to. *)
(* A machine has functions, some of which the user defined, and aliases of   *)
(* functions.  Arguments are passed unevaluated.                             *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANT Strict  \* FALSE: what is known to go wrong counts as not specified

Ch(s, p) == IF p <= Len(s) THEN SubSeq(s, p, p) ELSE ""  \* the p-th character
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z", ".", "_"}
DigitOf == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
Digits == DOMAIN DigitOf
Space == {" ", "\t", "\n"}

Num(n) == <<"n", n>>
Str(s) == <<"s", s>>
Op(o) == <<"o", o>>
List(l) == <<"l", l>>
Bool(b) == Num(IF b THEN 1 ELSE 0)

---------------------------------------------------------------------------
(* Reading.  Read(s, p) gives the expression that starts at p, and where it  *)
(* ends, or nothing.                                                         *)
Got(v, e) == [ok |-> TRUE, v |-> v, e |-> e]
Nothing == [ok |-> FALSE, v |-> Num(0), e |-> 0]
RECURSIVE Blanks(_, _), WordEnd(_, _), DigitsEnd(_, _), Value(_, _, _), QuoteAt(_, _), Read(_, _), Elements(_, _, _)
Blanks(s, p) == IF Ch(s, p) \in Space THEN Blanks(s, p + 1) ELSE p
WordEnd(s, p) == IF Ch(s, p) \in Letters \cup Digits \cup {"?"} THEN WordEnd(s, p + 1) ELSE p
DigitsEnd(s, p) == IF Ch(s, p) \in Digits THEN DigitsEnd(s, p + 1) ELSE p
Value(s, p, q) == IF p = q THEN 0 ELSE 10 * Value(s, p, q - 1) + DigitOf[Ch(s, q - 1)]
QuoteAt(s, p) == IF Ch(s, p) \in {"", "\""} THEN p ELSE QuoteAt(s, p + 1)
Two == {">=", "<=", "!=", "=="}
One == {"+", "-", "*", "/", "%", "<", ">", "="}
Read(s, p) ==
  LET c == Ch(s, p)
      d == IF c = "-" THEN p + 1 ELSE p
      e == DigitsEnd(s, d)
      two == SubSeq(s, p, p + 1)
  IN CASE c = "" -> Nothing
       [] c = "(" -> LET x == Elements(s, Blanks(s, p + 1), << >>)
                         q == Blanks(s, x.e)
                     IN IF Ch(s, q) = ")" THEN Got(List(x.v), q + 1) ELSE Nothing
       [] c = "\"" -> LET q == QuoteAt(s, p + 1) IN
                      IF Ch(s, q) = "" THEN Nothing ELSE Got(Str(SubSeq(s, p + 1, q - 1)), q + 1)
       [] e > d -> Got(Num(IF d > p THEN 0 - Value(s, d, e) ELSE Value(s, d, e)), e)
       [] c \in Letters -> Got(Op(SubSeq(s, p, WordEnd(s, p) - 1)), WordEnd(s, p))
       [] p < Len(s) /\ two \in Two -> Got(Op(two), p + 2)
       [] c \in One -> Got(Op(c), p + 1)
       [] OTHER -> Nothing
\* elements separated by white space
Elements(s, p, acc) ==
  LET q == IF acc = << >> THEN p ELSE Blanks(s, p)
      x == IF acc # << >> /\ q = p THEN Nothing ELSE Read(s, q)
  IN IF x.ok THEN Elements(s, x.e, Append(acc, x.v)) ELSE [v |-> acc, e |-> p]
\* a line, which may lack its outer parentheses
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF Ch(s, 1) = " " THEN TrimLeft(SubSeq(s, 2, Len(s))) ELSE s
TrimRight(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " " THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Line(text) ==
  LET t == TrimRight(TrimLeft(text))
      s == IF Ch(t, 1) = "(" THEN t ELSE "(" \o t \o ")"
      x == Read(s, Blanks(s, 1))
  IN IF x.ok /\ Blanks(s, x.e) > Len(s) THEN x ELSE Nothing

---------------------------------------------------------------------------
(* Evaluation.  Each result is [k, v, m]: k is "ok", "no" when the           *)
(* expression is refused, "?" when it is not specified what it comes to.     *)
(* m is the machine afterwards: [f: functions, a: aliases].                  *)
Ok(v, m) == [k |-> "ok", v |-> v, m |-> m]
No == [k |-> "no", v |-> Num(0), m |-> << >>]
Unknown == [k |-> "?", v |-> Num(0), m |-> << >>]

Builtin(b) == [b |-> b, args |-> << >>, body |-> Num(0)]
Builtins == {"add", "sub", "mul", "car", "cdr", "alias", "define", "lt", "le", "gt", "ge", "eq", "neq",
             "and", "or", "not", "if", "cond", "list?", "%"}
Fresh == [f |-> [n \in Builtins |-> Builtin(n)],
          a |-> "+" :> "add" @@ "-" :> "sub" @@ "*" :> "mul" @@ "<" :> "lt" @@ ">" :> "gt" @@ ">=" :> "ge" @@ "<=" :> "le"
             @@ "==" :> "eq" @@ "eq?" :> "eq" @@ "neq?" :> "neq" @@ "!=" :> "neq"]

Small(n) == n \in (-30000)..30000
IsOp(e) == e[1] = "o"
IsList(e) == e[1] = "l"
Calls(e) == IsList(e) /\ e[2] # << >> /\ IsOp(e[2][1])
IsName(e) == e[1] \in {"o", "s"}
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Rem(x, y) == IF x < 0 THEN 0 - (Abs(x) % Abs(y)) ELSE x % Abs(y)
Compare(f, x, y) ==
  CASE f = "lt" -> x < y [] f = "le" -> x <= y [] f = "gt" -> x > y
    [] f = "ge" -> x >= y [] f = "eq" -> x = y [] f = "neq" -> x # y

RECURSIVE Subst(_, _)
Subst(e, args) ==
  IF IsOp(e) THEN (IF e[2] \in DOMAIN args THEN args[e[2]] ELSE e)
  ELSE IF IsList(e) THEN List([i \in 1..Len(e[2]) |-> Subst(e[2][i], args)]) ELSE e
RECURSIVE Bind(_, _, _)
Bind(names, vals, i) == IF i > Len(names) THEN << >> ELSE Bind(names, vals, i + 1) @@ (names[i] :> vals[i])

RECURSIVE Eval(_, _, _), Number(_, _, _), Fold(_, _, _, _, _, _), Chain(_, _, _, _, _, _), Logic(_, _, _, _, _),
          Cond(_, _, _, _), Call(_, _, _, _), Nested(_, _, _)
\* fuel: what is nested deeper is left aside
Eval(e, m, fuel) ==
  IF fuel = 0 THEN Unknown
  ELSE IF ~Calls(e) THEN Ok(e, m)
  ELSE LET name == e[2][1][2]
           op == IF name \in DOMAIN m.a THEN m.a[name] ELSE name
       IN IF op \notin DOMAIN m.f THEN No ELSE Call(m.f[op], Tail(e[2]), m, fuel)
\* a number is wanted
Number(e, m, fuel) ==
  IF e[1] = "n" THEN Ok(e, m)
  ELSE IF ~Calls(e) THEN IF IsList(e) /\ ~Strict THEN Unknown ELSE No
  ELSE LET r == Eval(e, m, fuel) IN IF r.k # "ok" THEN r ELSE IF fuel = 0 THEN Unknown ELSE Number(r.v, r.m, fuel - 1)
\* acc combined with the arguments from the i-th on
Fold(f, args, i, acc, m, fuel) ==
  IF i > Len(args) THEN Ok(Num(acc), m)
  ELSE LET r == Number(args[i], m, fuel) IN
       IF r.k # "ok" THEN r
       ELSE IF ~Small(acc) \/ ~Small(r.v[2]) THEN Unknown
       ELSE Fold(f, args, i + 1, CASE f = "add" -> acc + r.v[2] [] f = "sub" -> acc - r.v[2] [] f = "mul" -> acc * r.v[2], r.m, fuel)
\* x compared to the i-th argument, that one to the next, and so on
Chain(f, args, i, x, m, fuel) ==
  IF i > Len(args) THEN Ok(Bool(TRUE), m)
  ELSE LET r == Number(args[i], m, fuel) IN
       IF r.k # "ok" THEN r
       ELSE IF ~Compare(f, x, r.v[2]) THEN Ok(Bool(FALSE), r.m)
       ELSE Chain(f, args, i + 1, r.v[2], r.m, fuel)
\* until one of them decides
Logic(decides, args, i, m, fuel) ==
  IF i > Len(args) THEN Ok(Bool(~decides), m)
  ELSE IF args[i] = List(<< >>) THEN Unknown
  ELSE LET r == Number(args[i], m, fuel) IN
       IF r.k # "ok" THEN r
       ELSE IF (r.v[2] # 0) = decides THEN Ok(Bool(decides), r.m) ELSE Logic(decides, args, i + 1, r.m, fuel)
Cond(args, i, m, fuel) ==
  IF i > Len(args) THEN Ok(List(<< >>), m)
  ELSE IF ~IsList(args[i]) THEN No
  ELSE LET b == args[i][2] IN
    IF Len(b) # 2 THEN No
    ELSE IF b[1] = Op("else") THEN Eval(b[2], m, fuel - 1)
    ELSE LET r == Number(b[1], m, fuel) IN
         IF r.k # "ok" THEN r
         ELSE IF r.v[2] # 0 THEN Eval(b[2], r.m, fuel - 1) ELSE Cond(args, i + 1, r.m, fuel)
\* the list that car and cdr work on
Nested(args, m, fuel) ==
  IF Len(args) # 1 THEN No
  ELSE IF ~IsList(args[1]) THEN No
  ELSE IF args[1][2] = << >> THEN Unknown
  ELSE LET r == Eval(args[1], m, fuel - 1) IN
       IF r.k # "ok" THEN r ELSE IF ~IsList(r.v) THEN No ELSE r

Call(def, args, m, fuel) ==
  LET f == def.b
      n == Len(args) IN
  CASE f = "user" ->
         IF n # Len(def.args) THEN No ELSE Eval(Subst(def.body, Bind(def.args, args, 1)), m, fuel - 1)
    [] f = "add" -> Fold(f, args, 1, 0, m, fuel - 1)
    [] f = "mul" -> Fold(f, args, 1, 1, m, fuel - 1)
    [] f = "sub" -> IF n < 2 THEN No
                    ELSE LET r == Number(args[1], m, fuel - 1) IN
                         IF r.k # "ok" THEN r ELSE Fold(f, args, 2, r.v[2], r.m, fuel - 1)
    [] f = "%" -> IF n # 2 THEN No
                  ELSE LET x == Number(args[1], m, fuel - 1)
                           y == Number(args[2], x.m, fuel - 1) IN
                       IF x.k # "ok" THEN x ELSE IF y.k # "ok" THEN y
                       ELSE IF y.v[2] = 0 THEN Unknown ELSE Ok(Num(Rem(x.v[2], y.v[2])), y.m)
    [] f \in {"lt", "le", "gt", "ge", "eq", "neq"} ->
         IF n < 2 THEN No
         ELSE LET r == Number(args[1], m, fuel - 1) IN
              IF r.k # "ok" THEN r ELSE Chain(f, args, 2, r.v[2], r.m, fuel - 1)
    [] f = "and" -> Logic(FALSE, args, 1, m, fuel - 1)
    [] f = "or" -> Logic(TRUE, args, 1, m, fuel - 1)
    [] f = "not" -> IF n # 1 THEN No
                    ELSE LET r == Number(args[1], m, fuel - 1) IN
                         IF r.k # "ok" THEN r ELSE IF ~Strict THEN Unknown ELSE Ok(Bool(r.v[2] = 0), r.m)
    [] f = "if" -> IF n # 3 THEN No
                   ELSE LET r == Number(args[1], m, fuel - 1) IN
                        IF r.k # "ok" THEN r ELSE Eval(IF r.v[2] # 0 THEN args[2] ELSE args[3], r.m, fuel - 1)
    [] f = "cond" -> Cond(args, 1, m, fuel - 1)
    [] f = "list?" -> IF n # 1 THEN No ELSE Ok(Bool(IsList(args[1])), m)
    [] f = "car" -> LET r == Nested(args, m, fuel) IN
                    IF r.k # "ok" THEN r ELSE IF r.v[2] = << >> THEN No ELSE Ok(r.v[2][1], r.m)
    [] f = "cdr" -> LET r == Nested(args, m, fuel) IN
                    IF r.k # "ok" THEN r ELSE Ok(List(IF r.v[2] = << >> THEN << >> ELSE Tail(r.v[2])), r.m)
    [] f = "alias" -> IF n # 2 THEN No
                      ELSE IF ~IsName(args[1]) \/ ~IsName(args[2]) THEN No
                      ELSE IF args[2][2] \notin DOMAIN m.f THEN No
                      ELSE Ok(List(<< >>), [m EXCEPT !.a = (args[1][2] :> args[2][2]) @@ @])
    [] f = "define" ->
         IF n # 2 THEN No
         ELSE IF ~IsList(args[1]) THEN No
         ELSE LET d == args[1][2] IN
              IF d = << >> \/ \E i \in 1..Len(d) : ~IsName(d[i]) THEN No
              ELSE LET name == d[1][2]
                       def1 == [b |-> "user", args |-> [i \in 1..(Len(d) - 1) |-> d[i + 1][2]], body |-> args[2]]
                   IN Ok(List(<< >>), [f |-> (name :> def1) @@ m.f, a |-> [x \in DOMAIN m.a \ {name} |-> m.a[x]]])

RECURSIVE Shown(_), ShownAll(_, _)
ShownAll(l, i) == IF i > Len(l) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o Shown(l[i]) \o ShownAll(l, i + 1)
Shown(e) ==
  CASE e[1] = "n" -> ToString(e[2]) \o ".000000"
    [] e[1] = "s" -> "\"" \o e[2] \o "\""
    [] e[1] = "o" -> e[2]
    [] e[1] = "l" -> "(" \o ShownAll(e[2], 1) \o ")"

\* what the machine answers to a line: [say, m]
Answer(text, m, fuel) ==
  LET x == Line(text) IN
  IF ~x.ok THEN [say |-> <<"parse error">>, m |-> m]
  ELSE LET r == Eval(x.v, m, fuel) IN
       CASE r.k = "ok" -> [say |-> <<"value", Shown(r.v)>>, m |-> r.m]
         [] r.k = "no" -> [say |-> <<"refused">>, m |-> Fresh]  \* and begins anew
         [] r.k = "?"  -> [say |-> <<"?">>, m |-> m]
=============================================================================
