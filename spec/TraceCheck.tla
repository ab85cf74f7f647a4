---------------------------- MODULE TraceCheck ----------------------------
(* Validates what was printed during recorded parses, together with their   *)
(* outcomes and calls of parse functions.                                   *)
EXTENDS PackratCheck, Trace

CaseTopt(j) == Cases[j[1]].topt
CaseOpts(j) == Cases[j[1]].inputs[j[2]].opts

VARIABLES
  ti,   \* how many lines were printed
  tbad  \* the first line that differs
tvars == <<vars, cnt, ti, tbad>>

Lines_ == Rec.trace
RECURSIVE LineDiff(_, _)
LineDiff(said, i) ==
  IF i > Len(said) THEN << >>
  ELSE IF ti + i > Len(Lines_) THEN <<"missing line", ti + i, said[i]>>
  ELSE IF Lines_[ti + i] # said[i] THEN <<"line", ti + i, said[i]>>
  ELSE LineDiff(said, i + 1)

TInit == Init /\ cnt = 0 /\ ti = 0 /\ tbad = << >>
TNext ==
  \/ /\ Next /\ ~Halted
     /\ Count
     /\ ti' = ti + Len(Says)
     /\ tbad' = IF tbad # << >> THEN tbad
                ELSE IF LineDiff(Says, 1) # << >> THEN LineDiff(Says, 1)
                ELSE IF mode'[1] = "halt" /\ ti' < Len(Lines_) THEN <<"extra line", ti' + 1, Lines_[ti' + 1]>>
                ELSE << >>
     /\ IF mode'[1] = "halt" /\ ~Cases[job[1]].silent THEN Report("noise", << >>) ELSE TRUE
     /\ IF tbad' # tbad THEN Report(tbad'[1], tbad') ELSE TRUE
  \/ Halted /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
