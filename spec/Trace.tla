------------------------------- MODULE Trace -------------------------------
(* What tracing prints: one line when a rule is tried, and one that says    *)
(* what came of it (a remembered result, a new one, a step of a left        *)
(* recursion), each with the line and column of the position, the depth of  *)
(* the rule stack and, for a try, the number of evaluations so far.         *)
(* Tracing tells the steps of the parsing machine, and does not change      *)
(* them.                                                                    *)
EXTENDS Packrat

CONSTANTS ToptOf(_), \* the trace options of the grammar of a job
          OptsOf(_)  \* the options of a job

VARIABLE cnt  \* evaluations of rules (and of labels standing alone) so far

\* whether option o is on: of it and its opposite the last one counts
HasOpt(o, off) ==
  \E i \in 1..Len(OptsOf(job)) :
    OptsOf(job)[i] = o /\ \A j \in i + 1..Len(OptsOf(job)) : OptsOf(job)[j] # off
Shows(n_, p) ==
  /\ ToptOf(job).stack \/ HasOpt("debug", "nodebug") \/ Nodes[n_].dbg
  /\ ~HasOpt("skiplog", "log")
  /\ ToptOf(job).line = -1 \/ PlaceOf(job, p)[1] = ToptOf(job).line

Said(kind, n_, p, depth) ==
  IF Shows(n_, p) THEN <<<<kind>> \o PlaceOf(job, p) \o <<depth>> \o (IF kind = "*" THEN <<Nodes[n_].r, cnt>> ELSE << >>)>>
  ELSE << >>
Depth == Len(rstack)
\* the lines printed in this step
Says ==
  IF CallingRule THEN
    Said("*", mode[2], pos, Depth) \o
      (IF Nodes[mode[2]].sk \/ ~Known THEN << >>
       ELSE IF heap[FrameIx].stage > 0 THEN Said("base", mode[2], pos, Depth)
       ELSE IF heap[FrameIx].endp >= 0 THEN Said("hit", mode[2], pos, Depth)
       ELSE << >>)
  ELSE IF Returning /\ Top(ctl).ph # "raw" THEN
    LET r == Top(ctl).n
        kind == CASE Top(ctl).ph = "skip" -> "->"
                  [] Top(ctl).ph = "first" -> IF heap[Fr].stage = 1 THEN "set" ELSE IF Got.ok THEN "again" ELSE "no loop"
                  [] Top(ctl).ph = "grow" -> IF Got.ok /\ pos > heap[Fr].endp THEN "again" ELSE "done"
    IN Said(kind, r, IF kind = "done" THEN heap[Fr].endp ELSE pos, Depth - 1)
  ELSE << >>
Count == cnt' = IF mode'[1] = "body" /\ (IsRule(GrammarOf(job), mode'[2]) \/ Att[mode'[2]].own) THEN cnt + 1 ELSE cnt
=============================================================================
