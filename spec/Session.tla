------------------------------ MODULE Session ------------------------------
(* A process that builds several grammars and parses many texts with them:  *)
(* one after the other, with outcomes of any kind, and from within parse    *)
(* functions of a parse that is under way, with the same grammar or others. *)
(* Every parse runs on a machine of its own; what was going on before or    *)
(* goes on around it has no influence.                                      *)
(*                                                                          *)
(* Validates recorded sessions event by event: a parse begins, a parse      *)
(* function is called, a line is printed, a parse ends.                     *)
EXTENDS Trace, Stream, Json

Cases == ndJsonDeserialize("cases.ndjson")
Tables == [c \in 1..Len(Cases) |-> [g \in 1..Len(Cases[c].grams) |-> AttrTable(Cases[c].grams[g].g)]]
\* a job is <<case, grammar, text, options>>
SGrammar(j) == Cases[j[1]].grams[j[2]].g
SAttrs(j) == Tables[j[1]][j[2]]
SText(j) == Cases[j[1]].texts[j[3]].in
SPlace(j, p) ==
  LET i == Cases[j[1]].texts[j[3]] IN
  IF "st" \in DOMAIN i THEN <<PosToLine(i.st, p), PosToCol(i.st, p)>> ELSE <<LineOf(i.in, p), ColOf(i.in, p)>>
STopt(j) == Cases[j[1]].grams[j[2]].topt
SOpts(j) == Cases[j[1]].options[j[4]]

VARIABLES
  sx,     \* which of the parses of the script is under way
  outer,  \* parses that wait for one made by a parse function of theirs
  left,   \* how many such parses may still be made
  todo,   \* the parse to begin next
  ei,     \* how many events there were
  sbad    \* the first event that differs
svars == <<mvars, cnt, sx, outer, left, todo, ei, sbad>>

C == Cases[job[1]]
MaxNesting == 2

\* the parse that the call of a parse function makes
CalledRule == CHOOSE n \in 1..Len(Nodes) : Nodes[n].r = last'[2]
Makes ==
  IF last' = << >> \/ mode'[1] = "halt" THEN << >>
  ELSE LET plan == C.nest[job[2]] IN
       IF last'[1] = "cb" /\ Nodes[CalledRule].cb = "nest" /\ Len(outer) < MaxNesting /\ left > 0 /\ plan # << >>
       THEN <<job[1]>> \o plan[(last'[3] % Len(plan)) + 1] ELSE << >>

Event(i) == IF i > Len(C.log) THEN << >> ELSE C.log[i]
Fits(x, e) ==
  IF e = << >> THEN FALSE
  ELSE IF x[1] # e[1] THEN FALSE
  ELSE IF x[1] = "end" THEN Difference(x[2], e[2]) = "" ELSE x = e
RECURSIVE FirstBad(_, _)
FirstBad(evs, i) ==
  IF i > Len(evs) THEN 0 ELSE IF Fits(evs[i], Event(ei + i)) THEN FirstBad(evs, i + 1) ELSE i
\* the next events have to be these
Check(evs) ==
  /\ ei' = ei + Len(evs)
  /\ LET b == FirstBad(evs, 1) IN
     IF sbad # << >> \/ b = 0 THEN sbad' = sbad
     ELSE /\ sbad' = <<ei + b, evs[b]>>
          /\ PrintT(ToJson(<<"MISMATCH", C.id, ei + b, "event", evs[b]>>))

Saved == [job |-> job, pos |-> pos', mode |-> mode', ctl |-> ctl', heap |-> heap', table |-> table',
          rstack |-> rstack', last |-> << >>, cnt |-> cnt']

SInit ==
  /\ \E c \in 1..Len(Cases) :
       /\ job = <<c>> \o Cases[c].script[1]
       /\ todo = <<c>> \o Cases[c].script[1]
       /\ left = Cases[c].budget
  /\ pos = 0 /\ mode = <<"idle">> /\ ctl = << >> /\ heap = << >> /\ table = << >> /\ rstack = << >> /\ last = << >>
  /\ cnt = 0 /\ sx = 1 /\ outer = << >> /\ ei = 0 /\ sbad = << >>

BeginParse ==
  /\ todo # << >>
  /\ job' = todo /\ todo' = << >>
  /\ pos' = 0 /\ ctl' = << >> /\ heap' = << >> /\ table' = << >> /\ rstack' = << >> /\ last' = << >> /\ cnt' = 0
  /\ mode' = <<"call", SGrammar(todo).top>>
  /\ Check(<<<<"begin", todo[2], todo[3], todo[4]>>>>)
  /\ UNCHANGED <<sx, outer, left>>

\* the parse goes on; it is left behind when a parse function makes another one
GoOn ==
  /\ todo = << >> /\ mode[1] \notin {"idle", "halt"} /\ sbad = << >>
  /\ Step /\ Count
  /\ Check(Says \o (IF last' # << >> THEN <<last'>> ELSE << >>))
  /\ todo' = Makes
  /\ IF Makes = << >> THEN UNCHANGED <<outer, left>>
     ELSE outer' = Append(outer, Saved) /\ left' = left - 1
  /\ UNCHANGED sx

\* back to the parse whose parse function made this one
Resume ==
  /\ Halted /\ outer # << >> /\ todo = << >>
  /\ Check(<<<<"end", mode[2]>>>>)
  /\ LET o == Top(outer) IN
     /\ job' = o.job /\ pos' = o.pos /\ mode' = o.mode /\ ctl' = o.ctl /\ heap' = o.heap /\ table' = o.table
     /\ rstack' = o.rstack /\ last' = o.last /\ cnt' = o.cnt
  /\ outer' = Pop(outer)
  /\ UNCHANGED <<sx, left, todo>>

NextParse ==
  /\ Halted /\ outer = << >> /\ todo = << >>
  /\ Check(<<<<"end", mode[2]>>>>)
  /\ sx' = sx + 1
  /\ mode' = <<"idle">>
  /\ todo' = IF sx < Len(C.script) THEN <<job[1]>> \o C.script[sx + 1] ELSE << >>
  /\ UNCHANGED <<job, pos, ctl, heap, table, rstack, last, cnt, outer, left>>

Over ==
  /\ mode = <<"idle">> /\ todo = << >> /\ ei >= 0
  /\ IF ei < Len(C.log) /\ sbad = << >>
     THEN PrintT(ToJson(<<"MISMATCH", C.id, ei + 1, "extra event", Event(ei + 1)>>)) ELSE TRUE
  /\ ei' = -1
  /\ UNCHANGED <<mvars, cnt, sx, outer, left, todo, sbad>>

SNext == BeginParse \/ GoOn \/ Resume \/ NextParse \/ Over
SSpec == SInit /\ [][SNext]_svars
=============================================================================
