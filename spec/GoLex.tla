------------------------------- MODULE GoLex -------------------------------
(* The lexical grammar of Go, as far as the harness uses it: identifiers,   *)
(* keywords, decimal numbers, strings, raw strings, runes, operators,       *)
(* comments, and semicolons inserted at the ends of lines.                  *)
EXTENDS Stream

Byte(txt, p) == IF p < Len(txt) THEN txt[p + 1] ELSE -1
LetterAt(txt, p) ==
  p < Len(txt) /\ LET c == Decode(txt, p)[1] IN
    c = 95 \/ c \in 65..90 \/ c \in 97..122 \/ c \in 192..687 \/ c \in 880..1023 \/ c \in 19968..40959
DigitAt(txt, p) == Byte(txt, p) \in 48..57
Lf == 10

RECURSIVE WordEnd(_, _), DigitsEnd(_, _)
WordEnd(txt, p) ==
  IF LetterAt(txt, p) THEN WordEnd(txt, p + Decode(txt, p)[2])
  ELSE IF DigitAt(txt, p) THEN WordEnd(txt, p + 1) ELSE p
DigitsEnd(txt, p) == IF DigitAt(txt, p) THEN DigitsEnd(txt, p + 1) ELSE p
Err == -1
HexAt(txt, p) == Byte(txt, p) \in (48..57) \cup (65..70) \cup (97..102)
\* digits, with underscores between them
RECURSIVE DigitRun(_, _, _)
DigitRun(txt, p, hex) ==
  LET d(i) == IF hex THEN HexAt(txt, i) ELSE DigitAt(txt, i) IN
  IF d(p) \/ (Byte(txt, p) = 95 /\ d(p + 1)) THEN DigitRun(txt, p + 1, hex) ELSE p
\* a number: decimal, perhaps with a fraction and an exponent, or hexadecimal; i makes it imaginary
NumberEnd(txt, p) ==
  LET hex == Byte(txt, p) = 48 /\ Byte(txt, p + 1) \in {88, 120}
      q == IF hex THEN DigitRun(txt, p + 2, TRUE) ELSE DigitRun(txt, p, FALSE)
      f == IF Byte(txt, q) = 46 THEN DigitRun(txt, q + 1, FALSE) ELSE q
      sign == IF Byte(txt, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      e == IF Byte(txt, f) \in {69, 101} THEN DigitRun(txt, sign, FALSE) ELSE f
      bad == IF hex THEN q = p + 2 \/ f > q ELSE e # f /\ e = sign
      end == IF hex THEN q ELSE e
  IN IF bad \/ Byte(txt, end) = 95 THEN Err ELSE IF Byte(txt, end) = 105 THEN end + 1 ELSE end

\* where the escape ends whose backslash is at p; quote q can be escaped
EscapeEnd(txt, p, q) ==
  LET b == Byte(txt, p + 1)
      hex(n) == IF \A i \in 1..n : HexAt(txt, p + 1 + i) THEN p + 2 + n ELSE Err IN
  CASE b \in {97, 98, 102, 110, 114, 116, 118, 92, q} -> p + 2
    [] b = 120 -> hex(2)
    [] b = 117 -> hex(4)
    [] b = 85 -> hex(8)
    [] b \in 48..51 -> IF Byte(txt, p + 2) \in 48..55 /\ Byte(txt, p + 3) \in 48..55 THEN p + 4 ELSE Err
    [] OTHER -> Err
\* after a string that has quote character q, from p on; Err if it is none
RECURSIVE StringEnd(_, _, _, _)
StringEnd(txt, p, q, n) ==
  LET b == Byte(txt, p) IN
  CASE b = -1 \/ b = Lf -> Err
    [] b = q -> IF q = 39 /\ n # 1 THEN Err ELSE p + 1
    [] b = 92 -> LET e == EscapeEnd(txt, p, q) IN IF e = Err THEN Err ELSE StringEnd(txt, e, q, n + 1)
    [] OTHER -> StringEnd(txt, p + Decode(txt, p)[2], q, n + 1)
RECURSIVE RawEnd(_, _), LineEnd(_, _), CommentEnd(_, _)
RawEnd(txt, p) == CASE Byte(txt, p) = -1 -> Err [] Byte(txt, p) = 96 -> p + 1 [] OTHER -> RawEnd(txt, p + 1)
LineEnd(txt, p) == IF Byte(txt, p) \in {-1, Lf} THEN p ELSE LineEnd(txt, p + 1)
CommentEnd(txt, p) ==
  CASE Byte(txt, p) = -1 -> Err
    [] Byte(txt, p) = 42 /\ Byte(txt, p + 1) = 47 -> p + 2
    [] OTHER -> CommentEnd(txt, p + 1)
\* the first line end in p..q-1, or Err
NewlineIn(txt, p, q) ==
  LET s == {i \in p..(q - 1) : txt[i + 1] = Lf} IN IF s = {} THEN Err ELSE CHOOSE i \in s : \A k \in s : i <= k

Operators == {
  <<43>>, <<45>>, <<42>>, <<47>>, <<37>>, <<38>>, <<124>>, <<94>>, <<60>>, <<62>>, <<61>>, <<33>>, <<126>>,  \* + - * / % & | ^ < > = ! ~
  <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<59>>, <<46>>, <<58>>,                          \* ( ) [ ] { } , ; . :
  <<60, 60>>, <<62, 62>>, <<38, 94>>, <<43, 61>>, <<45, 61>>, <<42, 61>>, <<47, 61>>, <<37, 61>>, <<38, 61>>,
  <<124, 61>>, <<94, 61>>, <<38, 38>>, <<124, 124>>, <<60, 45>>, <<43, 43>>, <<45, 45>>, <<61, 61>>, <<33, 61>>,
  <<60, 61>>, <<62, 61>>, <<58, 61>>,
  <<60, 60, 61>>, <<62, 62, 61>>, <<38, 94, 61>>, <<46, 46, 46>>}
OpsAt(txt, p) == {o \in Operators : At(txt, p, o)}
OpAt(txt, p) == CHOOSE o \in OpsAt(txt, p) : \A q \in OpsAt(txt, p) : Len(q) <= Len(o)

\* keywords after which no semicolon is inserted
Keywords == {
  <<102, 117, 110, 99>>, <<118, 97, 114>>, <<103, 111>>,  \* func var go
  <<105, 102>>, <<114, 97, 110, 103, 101>>, <<116, 121, 112, 101>>,  \* if range type
  <<101, 108, 115, 101>>, <<102, 111, 114>>, <<115, 119, 105, 116, 99, 104>>,  \* else for switch
  <<99, 97, 115, 101>>, <<100, 101, 102, 97, 117, 108, 116>>, <<100, 101, 102, 101, 114>>,  \* case default defer
  <<99, 104, 97, 110>>, <<109, 97, 112>>, <<115, 116, 114, 117, 99, 116>>,  \* chan map struct
  <<105, 110, 116, 101, 114, 102, 97, 99, 101>>, <<115, 101, 108, 101, 99, 116>>, <<112, 97, 99, 107, 97, 103, 101>>,  \* interface select package
  <<105, 109, 112, 111, 114, 116>>, <<99, 111, 110, 115, 116>>, <<103, 111, 116, 111>>}  \* import const goto
EndsLine(s) ==
  \/ LetterAt(s, 0) /\ s \notin Keywords
  \/ DigitAt(s, 0) \/ (Len(s) > 1 /\ s[1] = 46 /\ DigitAt(s, 1))
  \/ s[1] \in {34, 39, 96}
  \/ s \in {<<43, 43>>, <<45, 45>>, <<41>>, <<93>>, <<125>>}

Semi == <<59>>
Bad == <<[s |-> << >>, o |-> Err]>>
\* the tokens from p on; semi: the end of a line is a semicolon
RECURSIVE Lex(_, _, _)
Take(txt, p, q) ==
  IF q = Err THEN Bad ELSE LET s == Slice(txt, p, q) IN <<[s |-> s, o |-> p]>> \o Lex(txt, q, EndsLine(s))
Lex(txt, p, semi) ==
  LET b == Byte(txt, p)
      c == Byte(txt, p + 1)
      auto(q) == <<[s |-> Semi, o |-> q]>>
  IN CASE b = -1 -> IF semi THEN auto(p) ELSE << >>
       [] b = Lf -> IF semi THEN auto(p) \o Lex(txt, p + 1, FALSE) ELSE Lex(txt, p + 1, FALSE)
       [] b \in {32, 9, 13} -> Lex(txt, p + 1, semi)
       [] LetterAt(txt, p) -> Take(txt, p, WordEnd(txt, p))
       [] DigitAt(txt, p) \/ (b = 46 /\ DigitAt(txt, p + 1)) -> Take(txt, p, NumberEnd(txt, p))
       [] b \in {34, 39} -> Take(txt, p, StringEnd(txt, p + 1, b, 0))
       [] b = 96 -> LET q == RawEnd(txt, p + 1) IN  \* carriage returns are no part of a raw string
                     IF q = Err THEN Bad
                     ELSE <<[s |-> SelectSeq(Slice(txt, p, q), LAMBDA x : x # 13), o |-> p]>> \o Lex(txt, q, TRUE)
       [] b = 47 /\ c = 47 -> Lex(txt, LineEnd(txt, p), semi)
       [] b = 47 /\ c = 42 ->
            LET q == CommentEnd(txt, p + 2) IN
            IF q = Err THEN Bad
            ELSE LET nl == NewlineIn(txt, p, q) IN
                 IF semi /\ nl # Err THEN auto(nl) \o Lex(txt, q, FALSE) ELSE Lex(txt, q, semi)
       [] OpsAt(txt, p) # {} -> Take(txt, p, p + Len(OpAt(txt, p)))
       [] OTHER -> Bad


---------------------------------------------------------------------------
(* The working text: the tokens one after the other, semicolons inserted at  *)
(* an end of line followed by one.  A word, number, string or semicolon that *)
(* is in the source, or a comma, is set off by a space from a letter, digit, *)
(* _ or = before it; so is any token that would be read as part of, or       *)
(* change, the one before it.                                                *)
Spelled(src, t) ==  \* at the end of the source and of a line there is no semicolon
  IF t.s = Semi /\ Byte(src, t.o) # 59 THEN <<59, Lf>> ELSE t.s
SetOff(prev, s) ==
  LET l == prev[Len(prev)] IN
  /\ l \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 61}
  /\ s # <<59, Lf>>
  /\ LetterAt(s, 0) \/ DigitAt(s, 0) \/ s[1] \in {34, 39, 96} \/ (s[1] = 46 /\ DigitAt(s, 1)) \/ s \in {<<59>>, <<44>>}
Merges(prev, s) ==
  LET both == prev \o s
      a == IF prev = <<59, Lf>> THEN Semi ELSE prev IN
  \/ Byte(both, 0) = 47 /\ Byte(both, 1) \in {42, 47}
  \/ Lex(both, 0, FALSE)[1].s # a
RECURSIVE Joined(_, _, _, _)
Joined(src, ts, i, prev) ==
  IF i > Len(ts) THEN << >>
  ELSE LET s == Spelled(src, ts[i]) IN
       (IF prev # << >> /\ (SetOff(prev, s) \/ Merges(prev, s)) THEN <<32>> ELSE << >>) \o s \o Joined(src, ts, i + 1, s)
WorkText(src) == Joined(src, Lex(src, 0, FALSE), 1, << >>)

RECURSIVE WellEncoded(_, _)
WellEncoded(txt, p) == p >= Len(txt) \/ (Valid(txt, p) /\ WellEncoded(txt, p + Decode(txt, p)[2]))
Tokens(txt) == Lex(txt, 0, FALSE)
HasError(txt) == ~WellEncoded(txt, 0) \/ 0 \in SeqSet(txt) \/ \E t \in SeqSet(Tokens(txt)) : t.o = Err
=============================================================================
