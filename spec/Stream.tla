------------------------------- MODULE Stream -------------------------------
(* A code stream: a text that is being parsed, and a cursor.  A token       *)
(* stream is parsed as its working text, the concatenation of its tokens,   *)
(* while lines and columns are those of the original text.                  *)
(*                                                                          *)
(*   st = [work, orig: bytes, toks: << [s, o, w], .. >>, tok: BOOLEAN]      *)
(*                                                                          *)
(* A token has bytes s, an offset o in the original and w in the working    *)
(* text.  Positions are byte offsets in the working text.                   *)
EXTENDS Grammar

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

\* the token that position w belongs to: the end belongs to the last one
RECURSIVE TokenAt(_, _, _)
TokenAt(toks, w, i) ==
  IF i = Len(toks) \/ w < toks[i].w + Len(toks[i].s) THEN i ELSE TokenAt(toks, w, i + 1)
Original(st, w) ==
  IF ~st.tok THEN w
  ELSE IF st.toks = << >> THEN 0
  ELSE LET t == st.toks[TokenAt(st.toks, w, 1)] IN t.o + w - t.w

LineOff(txt, o) == LineOf(txt, MinOf(o, Len(txt)))
ColOff(txt, o) == LET p == MinOf(o, Len(txt)) IN ColOf(txt, p) + o - p
PosToLine(st, w) == LineOff(st.orig, Original(st, w))
PosToCol(st, w) == ColOff(st.orig, Original(st, w))

Lines(txt) == LineOf(txt, Len(txt)) + 1
RECURSIVE StartOfLine(_, _, _)
StartOfLine(txt, l, p) ==
  IF l = 0 THEN p ELSE StartOfLine(txt, l - 1, (CHOOSE q \in p..(Len(txt) - 1) :
    txt[q + 1] = 10 /\ \A r \in p..(q - 1) : txt[r + 1] # 10) + 1)
EndOfLine(txt, l) == IF l = Lines(txt) - 1 THEN Len(txt) ELSE StartOfLine(txt, l + 1, 0) - 1

\* lines lo to hi counted from line l, as far as they exist
LineRange(txt, l, lo, hi) ==
  IF l + hi < 0 \/ l + lo >= Lines(txt) THEN << >>
  ELSE Slice(txt, StartOfLine(txt, MaxOf(0, l + lo), 0), EndOfLine(txt, MinOf(Lines(txt) - 1, l + hi)))

Valid(txt, p) == Decode(txt, p)[1] # 65533 \/ Decode(txt, p)[2] > 1
\* the length of the rune that ends at p
RuneBefore(txt, p) ==
  LET t == SubSeq(txt, 1, p)
      fits == {k \in 1..MinOf(4, p) : Decode(t, p - k)[2] = k /\ Valid(t, p - k)}
  IN IF fits = {} THEN 1 ELSE CHOOSE k \in fits : TRUE
RECURSIVE Backward(_, _, _), Forward(_, _, _)
Backward(txt, p, n) == IF n = 0 \/ p = 0 THEN p ELSE Backward(txt, p - RuneBefore(txt, p), n - 1)
Forward(txt, p, n) ==
  IF n = 0 \/ p >= Len(txt) THEN << >>
  ELSE LET d == Decode(txt, p) IN
       (IF Valid(txt, p) THEN Slice(txt, p, p + d[2]) ELSE <<239, 191, 189>>) \o Forward(txt, p + d[2], n - 1)

Has(txt, p, s) == \E q \in p..Len(txt) : At(txt, q, s)
Find(txt, p, s) == CHOOSE q \in p..Len(txt) : At(txt, q, s) /\ \A r \in p..(q - 1) : ~At(txt, r, s)

SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y
SetMax(s) == CHOOSE x \in s : \A y \in s : x >= y
SeqSet(s) == {s[i] : i \in 1..Len(s)}

\* what operation op of a stream at position p comes to: [r |-> result, p |-> position afterwards]
Same(r, p) == [r |-> r, p |-> p]
Text(b) == <<"s", b>>
Num(n) == <<"i", n>>
Do(st, p, op) ==
  LET w == st.work IN
  CASE op.o = "set"   -> IF op.n[1] \in 0..Len(w) THEN [r |-> <<"ok">>, p |-> op.n[1]] ELSE Same(<<"panic">>, p)
    [] op.o = "pos"   -> Same(Num(p), p)
    [] op.o = "line"  -> Same(Num(PosToLine(st, p)), p)
    [] op.o = "col"   -> Same(Num(PosToCol(st, p)), p)
    [] op.o = "ptl"   -> Same(Num(PosToLine(st, op.n[1])), p)
    [] op.o = "ptc"   -> Same(Num(PosToCol(st, op.n[1])), p)
    [] op.o = "len"   -> Same(Num(Len(st.orig)), p)
    [] op.o = "code"  -> Same(Text(st.orig), p)
    [] op.o = "until" -> LET q == Find(w, p, op.s) + Len(op.s) IN [r |-> Text(Slice(w, p, q)), p |-> q]
    [] op.o = "runes" -> Same(Text(IF op.n[1] <= 0 THEN Slice(w, Backward(w, p, 0 - op.n[1]), p)
                                   ELSE Forward(w, p, op.n[1])), p)
    [] op.o = "lines" -> LET s == IF op.n = << >> THEN {0}
                                  ELSE IF Len(op.n) = 1 THEN {op.n[1], 0} ELSE SeqSet(op.n)
                         IN Same(Text(LineRange(st.orig, PosToLine(st, p), SetMin(s), SetMax(s))), p)
    [] op.o = "str"   -> IF At(w, p, op.s) THEN [r |-> <<"yes", op.s>>, p |-> p + Len(op.s)]
                         ELSE Same(<<"no">>, p)
    [] op.o = "rx"    -> LET q == RxEnd(w, p, op.rx) IN
                         IF q < 0 THEN Same(<<"no">>, p) ELSE [r |-> <<"yes", Slice(w, p, q)>>, p |-> q]
    [] op.o = "rune"  -> LET m == ClassAt(w, p, op.rx[1]) IN
                         IF m = 0 THEN Same(<<"no">>, p)
                         ELSE [r |-> <<"rune", Decode(w, p)[1]>>, p |-> p + m]
Possible(st, p, op) ==
  CASE op.o = "until" -> Has(st.work, p, op.s)
    [] op.o \in {"ptl", "ptc"} -> op.n[1] \in 0..Len(st.work)
    [] OTHER -> TRUE
=============================================================================
