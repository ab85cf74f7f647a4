------------------------------- MODULE Helpers ------------------------------
(* The functions of package helpers, the colours, and lazy values.  Texts are*)
(* bytes.  What enumerates: texts out of a few pieces with all small numbers,*)
(* lists of small numbers, and all short lives of a lazy value.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPieces, MaxList, MaxLife

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Flat(_), Repeat(_, _)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Tail(ss))
Repeat(s, n) == IF n <= 0 THEN << >> ELSE s \o Repeat(s, n - 1)
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Last(s, n) == SubSeq(s, Max(1, Len(s) - n + 1), Len(s))

\* runes, in bytes; what is not UTF-8 counts byte by byte
Pieces == << <<97>>, <<195, 169>>, <<226, 130, 172>>, <<255>>, <<239, 191, 189>>, <<240, 159, 152, 128>>, <<10>>, <<92>> >>
Runes == {Pieces[i] : i \in 1..Len(Pieces)}

\* as String.slice of JavaScript
Slice(s, from, to) ==
  LET Place(n) == IF n < 0 THEN Max(n + Len(s), 0) ELSE Min(n, Len(s))
  IN SubSeq(s, Place(from) + 1, Place(to))
Escaped(b) ==
  CASE b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>> [] b = 92 -> <<92, 92>>
    [] b = 7 -> <<92, 97>> [] b = 12 -> <<92, 102>> [] b = 8 -> <<92, 98>> [] b = 11 -> <<92, 118>> [] OTHER -> <<b>>
Escape(s) == Flat([i \in 1..Len(s) |-> Escaped(s[i])])
Blanks(n) == Repeat(<<32>>, n)
Colours == << "Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White" >>
Dyed(code, s) == <<27, 91>> \o code \o <<109>> \o s \o <<27, 91, 48, 109>>
Colour(c, bold, s) == Dyed((IF bold THEN <<49, 59>> ELSE << >>) \o <<51, 47 + c>>, s)  \* 30 is black
Bold(s) == Dyed(<<49>>, s)

\* where n goes in the ascending list a: before, or after what equals it
Left(a, n) == Cardinality({i \in 1..Len(a) : a[i] < n})
Right(a, n) == Cardinality({i \in 1..Len(a) : a[i] <= n})
With(a, at, n) == SubSeq(a, 1, at) \o <<n>> \o SubSeq(a, at + 1, Len(a))
Ascending(a) == \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
\* the numbers of a list in order, once each
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})

---------------------------------------------------------------------------
(* A lazy value: set to a value, or with a function that is called when the  *)
(* value is wanted for the first time, or neither.                           *)
\* the k-th function gives 10 k the first time it is called, and something else later
Nobody == [set |-> FALSE, v |-> 0, f |-> 0]
Live(z, op, k) ==
  CASE op = "new"   -> [z |-> Nobody, x |-> <<"done">>]
    [] op = "value" -> [z |-> [Nobody EXCEPT !.set = TRUE, !.v = k], x |-> <<"done">>]
    [] op = "func"  -> [z |-> [Nobody EXCEPT !.f = k], x |-> <<"done">>]
    [] op = "set"   -> [z |-> [z EXCEPT !.set = TRUE, !.v = k], x |-> <<"done">>]
    [] op = "lazy"  -> [z |-> [z EXCEPT !.f = k], x |-> <<"done">>]
    [] op = "clear" -> [z |-> Nobody, x |-> <<"done">>]
    [] op = "isset" -> [z |-> z, x |-> <<z.set>>]
    [] op = "get"   -> IF z.set THEN [z |-> z, x |-> <<z.v>>]
                       ELSE IF z.f = 0 THEN [z |-> z, x |-> <<"panic">>]
                       ELSE [z |-> [z EXCEPT !.set = TRUE, !.v = 10 * z.f], x |-> <<10 * z.f>>]
Begin == {"new", "value", "func"}
Later == {"set", "lazy", "clear", "isset", "get"}

---------------------------------------------------------------------------
VARIABLES what, list, life, z
vars == <<what, list, life, z>>
Op(o, s, a, n, m, x) == [o |-> o, s |-> s, a |-> a, n |-> n, m |-> m, x |-> x]
Say(ops) == PrintT(ToJson(<<"STEP", [ops |-> ops]>>))
Numbers(n) == (-n - 1)..(n + 1)
Text(is) == Flat([i \in 1..Len(is) |-> Pieces[is[i]]])
SayText(is) ==
  LET s == Text(is)
      runes == [i \in 1..Len(is) |-> Pieces[is[i]]] IN
  /\ \A n \in Numbers(Len(s)), m \in Numbers(Len(s)) : Say(<<Op("SliceString", s, << >>, n, m, Slice(s, n, m))>>)
  /\ \A n \in Numbers(Len(s)) :
       Say(<< Op("LastNRunes", s, << >>, n, 0, Flat(Last(runes, n))),
              Op("LastNRunesReversed", s, << >>, n, 0, Flat(Reversed(Last(runes, n)))),
              Op("PadLeft", s, << >>, n, 0, s \o Blanks(n - Len(s))),
              Op("PadRight", s, << >>, n, 0, Blanks(n - Len(s)) \o s) >>)
  /\ Say(<< Op("Escape", s, << >>, 0, 0, Escape(s)), Op("EscapeButKeepNonAscii", s, << >>, 0, 0, Escape(s)), Op("StripAnsi", s, << >>, 0, 0, s),
            Op("Bold", s, << >>, 0, 0, Bold(s)), Op("StripAnsi", Bold(s) \o Colour(2, FALSE, s) \o s, << >>, 0, 0, s \o s \o s) >>)
  /\ \A c \in 1..8 : Say(<< Op(Colours[c], s, << >>, 0, 0, Colour(c, FALSE, s)), Op("Bold" \o Colours[c], s, << >>, 0, 0, Colour(c, TRUE, s)),
                            Op("StripAnsi", Colour(c, TRUE, s) \o s, << >>, 0, 0, s \o s) >>)
SayBytes == \A b \in 0..255 : Say(<<Op("Escape", <<b>>, << >>, 0, 0, Escaped(b)), Op("EscapeButKeepNonAscii", <<b, b>>, << >>, 0, 0, Escaped(b) \o Escaped(b))>>)
SayList(a) ==
  /\ \A n \in 0..5 :
       IF ~Ascending(a) THEN TRUE
       ELSE Say(<< Op("BisectLeft", << >>, a, n, 0, <<Left(a, n)>>), Op("BisectRight", << >>, a, n, 0, <<Right(a, n)>>),
                   Op("InsortLeft", << >>, a, n, 0, With(a, Left(a, n), n)), Op("InsortRight", << >>, a, n, 0, With(a, Right(a, n), n)) >>)
  /\ LET inorder == InOrder({a[i] : i \in 1..Len(a)}) IN
     Say(<< Op("SortIntKeys", << >>, a, 0, 0, inorder), Op("SortStringKeys", << >>, a, 0, 0, inorder) >>)
SayNumbers == \A n \in -3..3 : /\ \A m \in -3..3 : Say(<<Op("Min", << >>, << >>, n, m, <<Min(n, m)>>), Op("Max", << >>, << >>, n, m, <<Max(n, m)>>)>>)
                               /\ n < -1 \/ Say(<<Op("Indent", << >>, << >>, n, 0, Blanks(2 * n))>>)
                               /\ Say(<<Op("BoolToString", << >>, << >>, n, 0, IF n > 0 THEN <<121>> ELSE <<110>>)>>)
Init == what \in {"text", "list", "life"} /\ list = << >> /\ life = << >> /\ z = Nobody
        /\ SayText(<< >>) /\ SayList(<< >>) /\ SayBytes /\ SayNumbers
NextText == what = "text" /\ Len(list) < MaxPieces /\ (\E i \in 1..Len(Pieces) : list' = Append(list, i)) /\ SayText(list') /\ UNCHANGED <<life, z>>
NextList == what = "list" /\ Len(list) < MaxList /\ (\E n \in 1..4 : list' = Append(list, n)) /\ SayList(list') /\ UNCHANGED <<life, z>>
NextLife == /\ what = "life" /\ Len(life) < MaxLife
            /\ \E op \in IF life = << >> THEN Begin ELSE Later :
                 LET l == Live(z, op, Len(life) + 1) IN
                 /\ z' = l.z
                 /\ life' = Append(life, Op(op, << >>, << >>, Len(life) + 1, 0, l.x))
            /\ Len(life') < MaxLife \/ Say(life')
            /\ UNCHANGED list
Next == UNCHANGED what /\ (NextText \/ NextList \/ NextLife)
Spec == Init /\ [][Next]_vars
=============================================================================
