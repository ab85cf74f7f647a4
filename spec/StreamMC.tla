------------------------------ MODULE StreamMC ------------------------------
(* Every operation at every position of every short text, and of every      *)
(* token stream made of such texts.  Each step is printed to be replayed on *)
(* the real streams.                                                        *)
EXTENDS Stream, Json, TLC, SequencesExt, FiniteSets
CONSTANTS Symbols,  \* texts consist of these
          MaxLen,   \* symbols in a text
          StreamKind      \* "rune" or "tok"

Bytes(sym) == CASE sym = "a" -> <<97>> [] sym = "b" -> <<98>> [] sym = "nl" -> <<10>>
                [] sym = "eacute" -> <<195, 169>> [] sym = "bad" -> <<255>> [] sym = "cjk" -> <<228, 184, 150>>
Flat(ss) == FoldLeft(LAMBDA x, y : x \o Bytes(y), << >>, ss)
Strings(n) == UNION {[1..m -> Symbols] : m \in 0..n}
Texts == {Flat(s) : s \in Strings(MaxLen)}

RuneStreams == {[work |-> t, orig |-> t, toks |-> << >>, tok |-> FALSE] : t \in Texts}
\* tokens are cut from the original text, at increasing places; some grow
Cuts(t) == {q \in SUBSET (0..Len(t)) : Cardinality(q) \in {2, 4}}
RECURSIVE Tokens(_, _, _, _, _)
Tokens(t, q, i, w, grow) ==
  IF i >= Len(q) THEN << >>
  ELSE LET s == (IF grow /\ i > 1 THEN <<32>> ELSE << >>) \o Slice(t, q[i], q[i + 1]) IN
       <<[s |-> s, o |-> q[i], w |-> w]>> \o Tokens(t, q, i + 2, w + Len(s), grow)
Joined(toks) == FoldLeft(LAMBDA x, y : x \o y.s, << >>, toks)
TokStreams == {LET toks == Tokens(t, SetToSortSeq(q, <), 1, 0, grow)
               IN [work |-> Joined(toks), orig |-> t, toks |-> toks, tok |-> TRUE]
               : <<t, q, grow>> \in UNION {{t} \X Cuts(t) \X BOOLEAN : t \in Texts}}
Streams == IF StreamKind = "rune" THEN RuneStreams ELSE TokStreams

NoOp == [o |-> "", s |-> << >>, n |-> << >>, rx |-> << >>]
Item == [set |-> << >>, neg |-> FALSE, a |-> << >>, z |-> "", mn |-> 1, mx |-> 1, lz |-> FALSE, bt |-> FALSE]
Cls(set, neg) == [Item EXCEPT !.set = set, !.neg = neg]
Runs(set, mn, mx) == [Item EXCEPT !.set = set, !.mn = mn, !.mx = mx]
Bt(rx) == [i \in 1..Len(rx) |-> [rx[i] EXCEPT !.bt = TRUE]]
A == Cls(<< <<97, 97>> >>, FALSE)
B == Cls(<< <<98, 98>> >>, FALSE)
Nl == Cls(<< <<10, 10>> >>, FALSE)
NotNl == Cls(<< <<10, 10>> >>, TRUE)
Either(alts, mn, mx) == [Item EXCEPT !.a = alts, !.mn = mn, !.mx = mx]
Lazy(it) == [it EXCEPT !.lz = TRUE]
Holds(z) == [Item EXCEPT !.z = z]
Plain == {<<Runs(<< <<97, 97>> >>, 1, -1)>>, <<Runs(<< <<97, 97>> >>, 0, -1), B>>,
          <<Runs(<< <<10, 10>>, <<128, 255>> >>, 0, 1), Runs(<< <<98, 98>> >>, 0, 1)>>}
Twisted == {Bt(rx) : rx \in {
    <<Either(<< <<A>>, <<A, B>> >>, 1, 1)>>,
    <<Either(<< <<A>>, <<A, B>> >>, 1, 1), Nl>>,
    <<Either(<< <<B, A>>, <<B>>, << >> >>, 1, 1)>>,
    <<Either(<< <<A>>, <<B, B>>, <<B, A>> >>, 0, -1), B>>,
    <<[NotNl EXCEPT !.mn = 0, !.mx = -1], B>>,
    <<Lazy([NotNl EXCEPT !.mn = 0, !.mx = -1]), B>>,
    <<Lazy([A EXCEPT !.mx = 2])>>,
    <<[NotNl EXCEPT !.mn = 2, !.mx = 2], Holds("$")>>,
    <<Holds("^"), A>>, <<A, Holds("^"), B>>,
    <<Holds("b"), A>>, <<Holds("B"), NotNl>>, <<NotNl, Holds("b"), NotNl>>,
    <<[A EXCEPT !.mn = 0, !.mx = -1], Holds("m$")>>,
    <<[Nl EXCEPT !.mn = 0], Holds("m^"), A>>} }
Needles == {<<97>>, <<10>>, <<195, 169>>, <<97, 98>>, <<98, 10>>}
Ops(len) ==
  {[NoOp EXCEPT !.o = "set", !.n = <<i>>] : i \in {-1, 0, 1, len, len + 1}}
  \cup {[NoOp EXCEPT !.o = x] : x \in {"line", "col", "len", "code"}}
  \cup {[NoOp EXCEPT !.o = x, !.n = <<i>>] : x \in {"ptl", "ptc"}, i \in 0..len}
  \cup {[NoOp EXCEPT !.o = x, !.s = s] : x \in {"until", "str"}, s \in Needles \cup {<< >>}}
  \cup {[NoOp EXCEPT !.o = "runes", !.n = <<i>>] : i \in -3..3}
  \cup {[NoOp EXCEPT !.o = "lines", !.n = n] : n \in {<< >>, <<1>>, <<-1>>, <<-2, 1>>, <<1, 0, -1>>, <<2, 1>>, <<-1, -1>>}}
  \cup {[NoOp EXCEPT !.o = "rune", !.rx = <<c>>] :
          c \in {Cls(<< <<97, 97>> >>, FALSE), Cls(<< <<97, 97>> >>, TRUE), Cls(<< <<128, 65533>> >>, FALSE)}}
  \cup {[NoOp EXCEPT !.o = "rx", !.rx = r] : r \in Plain \cup Twisted}

VARIABLES st, pos, op
vars == <<st, pos, op>>
Init == st \in Streams /\ pos \in 0..Len(st.work) /\ op = NoOp
Next ==
  \/ /\ op = NoOp
     /\ \E o \in Ops(Len(st.work)) :
          /\ Possible(st, pos, o)
          /\ LET e == Do(st, pos, o) IN
             /\ op' = [x |-> e.r, px |-> e.p] @@ o
             /\ pos' = e.p
             /\ PrintT(ToJson(<<"STEP", [st |-> st, at |-> pos, ops |-> <<op'>>]>>))
     /\ UNCHANGED st
  \/ op # NoOp /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

InBounds == pos \in 0..Len(st.work)
\* line and column say where a position is in the original text
Coordinates ==
  \A p \in 0..Len(st.work) :
    LET l == PosToLine(st, p)
    IN l \in 0..(Lines(st.orig) - 1) /\ StartOfLine(st.orig, l, 0) + PosToCol(st, p) = Original(st, p)
Monotone == \A p, q \in 0..Len(st.work) : p < q => PosToLine(st, p) <= PosToLine(st, q)
\* running the items one after another is what trying all ways comes to, where they are disjoint
Running ==
  \A rx \in Plain : \A p \in 0..Len(st.work) : RunItems(st.work, p, rx, 1) = RxTry(st.work, p, p, rx, {}).q
=============================================================================
