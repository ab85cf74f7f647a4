----------------------------- MODULE GoLexCheck -----------------------------
(* Validates tokenizations of Go code: an error exactly when the source has *)
(* a lexical error, else a working text that has the same tokens, each of   *)
(* which is known to come from its place in the source.                     *)
EXTENDS GoLex, Json, TLC
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE

\* position w of the working text is said to be at offset o
Place(r, src, w, o) == r.places[w + 1] = <<LineOff(src, o), ColOff(src, o)>>
\* token i of the working text; a space inserted before it may count as part of it
PlacedAt(r, src, from, tok) ==
  LET gap == IF tok.o > 0 /\ r.work[tok.o] = 32 THEN {0, 1} ELSE {0}
      far == IF tok.s[1] = 96 /\ 13 \in SeqSet(src) THEN 0 ELSE Len(tok.s) - 1
  IN \E g \in gap : \A k \in 0..far : Place(r, src, tok.o + k, from.o + g + k)
Verdict(x) ==
  LET src == x.src
      r == x.ops[1]
  IN IF HasError(src) # r.err THEN "error"
     ELSE IF r.err THEN ""
     ELSE LET s == Tokens(src)
              w == Tokens(r.work)
          IN IF HasError(r.work) \/ [i \in 1..Len(w) |-> w[i].s] # [i \in 1..Len(s) |-> s[i].s] THEN "tokens"
             ELSE IF \E i \in 1..Len(s) : ~PlacedAt(r, src, s[i], w[i]) THEN "places"
             ELSE IF r.work # WorkText(src) THEN "text"
             ELSE IF r.code # src THEN "code" ELSE ""
Next == \/ /\ ~done
           /\ LET v == Verdict(Cases[c]) IN
              IF v = "" THEN TRUE
              ELSE PrintT(ToJson(<<"MISMATCH", Cases[c].id, 1, v, IF HasError(Cases[c].src) THEN << >> ELSE IF v = "text" THEN WorkText(Cases[c].src) ELSE Tokens(Cases[c].src)>>))
           /\ done' = TRUE /\ UNCHANGED c
        \/ done /\ UNCHANGED <<c, done>>
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
