------------------------------ MODULE Packrat ------------------------------
(* The parsing machine, one step at a time: a control stack of activations, *)
(* the rule stack, and a memo table of frames.  A rule that is entered at a *)
(* position where it is already being evaluated (left recursion) is seeded  *)
(* with failure and then grown as long as the match gets longer.            *)
(*                                                                          *)
(* Unlike Peg.tla this says in which order elements are evaluated, how      *)
(* often parse functions are called, where an error is reported, and what   *)
(* indirect and nested left recursion comes to.                             *)
EXTENDS Grammar, FiniteSets, TLC

CONSTANTS GrammarOf(_), AttrsOf(_), TextOf(_), \* of a job
          PlaceOf(_, _) \* line and column of a position

VARIABLES
  job,    \* what is parsed: never changes
  pos,    \* position in the text
  mode,   \* <<"call", n>>, <<"body", n>>, <<"ret", ok, v>> or <<"halt", outcome>>
  ctl,    \* activations, the innermost one last
  heap,   \* frames, in order of creation
  table,  \* the memo table: <<pos, rule>> -> index in heap
  rstack, \* the frames of the rules being evaluated
  last    \* the parse function called in this step, if any
mvars == <<job, pos, mode, ctl, heap, table, rstack, last>>

Nodes == GrammarOf(job).nodes
Att == AttrsOf(job)
Txt == TextOf(job)

NoFrame(p, n) == [pos |-> p, id |-> n, ok |-> FALSE, v |-> Undef, endp |-> -1, stage |-> 0, mask |-> {}]

Begin(j) ==
  /\ job = j /\ pos = 0 /\ ctl = << >> /\ heap = << >> /\ table = << >>
  /\ rstack = << >> /\ last = << >>
  /\ mode = <<"call", GrammarOf(j).top>>

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Ret(ok, v) == mode' = <<"ret", ok, v>>
Without(tb, p, ids) == [x \in {y \in DOMAIN tb : ~(y[1] = p /\ y[2] \in ids)} |-> tb[x]]

---------------------------------------------------------------------------
(* Entering an element                                                      *)

Calling == mode[1] = "call"
CallPlain ==  \* an element that is no rule
  /\ Calling /\ ~IsRule(GrammarOf(job), mode[2])
  /\ mode' = <<"body", mode[2]>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos, ctl, heap, table, rstack>>

\* the heap and table with a frame for rule n at the current position
Key == <<pos, mode[2]>>
Known == Key \in DOMAIN table
FrameIx == IF Known THEN table[Key] ELSE Len(heap) + 1
Heap1 == IF Known THEN heap ELSE Append(heap, NoFrame(pos, mode[2]))
Table1 == IF Known THEN table ELSE (Key :> FrameIx) @@ table
CallingRule == Calling /\ IsRule(GrammarOf(job), mode[2])

CallUncached ==
  /\ CallingRule /\ Nodes[mode[2]].sk
  /\ rstack' = Append(rstack, FrameIx) /\ heap' = Heap1 /\ table' = Table1
  /\ ctl' = Append(ctl, [n |-> mode[2], ph |-> "skip", fr |-> FrameIx])
  /\ mode' = <<"body", mode[2]>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos>>

CallEnter ==
  /\ CallingRule /\ ~Nodes[mode[2]].sk
  /\ Heap1[FrameIx].stage = 0 /\ Heap1[FrameIx].endp < 0
  /\ rstack' = Append(rstack, FrameIx) /\ table' = Table1
  /\ heap' = [Heap1 EXCEPT ![FrameIx].stage = 1, ![FrameIx].ok = FALSE]
  /\ ctl' = Append(ctl, [n |-> mode[2], ph |-> "first", fr |-> FrameIx])
  /\ mode' = <<"body", mode[2]>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos>>

CallHit ==
  /\ CallingRule /\ ~Nodes[mode[2]].sk
  /\ Heap1[FrameIx].stage = 0 /\ Heap1[FrameIx].endp >= 0
  /\ pos' = heap[FrameIx].endp
  /\ Ret(heap[FrameIx].ok, heap[FrameIx].v)
  /\ last' = << >>
  /\ UNCHANGED <<job, ctl, heap, table, rstack>>

RECURSIVE Involved(_, _)
\* the rules entered since rule f.id was entered at the position of f
Involved(f, i) ==
  IF i = 0 THEN {}
  ELSE LET g == heap[rstack[i]] IN
       IF g.pos < f.pos \/ g.id = f.id THEN {} ELSE {g.id} \cup Involved(f, i - 1)
CallSeed ==  \* recursion without progress
  /\ CallingRule /\ ~Nodes[mode[2]].sk /\ Known
  /\ heap[FrameIx].stage > 0
  /\ LET f == heap[FrameIx] IN
     /\ heap' = [heap EXCEPT ![FrameIx].stage = IF @ = 1 THEN 2 ELSE @,
                             ![FrameIx].mask = @ \cup Involved(f, Len(rstack))]
     /\ pos' = IF f.endp >= 0 THEN f.endp ELSE pos
     /\ Ret(f.ok, f.v)
  /\ last' = << >>
  /\ UNCHANGED <<job, ctl, table, rstack>>

---------------------------------------------------------------------------
(* The body of an element                                                   *)

\* what the parse function of a rule makes of w knows where it is from
Spanned(r, w, p) == <<"o", r, w, heap[Top(rstack)].pos, p, PlaceOf(job, p)[1], TRUE>>
\* element n came to ok, v at position p: apply its label and parse function
Finish(n, ok, v, p) ==
  LET nd == Nodes[n]
      w  == IF Att[n].own THEN <<"m", << <<Att[n].label, v>> >> >> ELSE v
  IN IF ~ok THEN Ret(FALSE, Undef) /\ last' = << >>
     ELSE IF nd.cb = "" THEN Ret(TRUE, w) /\ last' = << >>
     ELSE /\ last' = <<IF nd.cb = "probe" THEN "pr" ELSE "cb", nd.r, p,
                       IF nd.cb = "probe" THEN Undef ELSE w>>
          /\ IF Panics(nd.cb, p) THEN mode' = <<"halt", <<"panic", "P" \o nd.r>>>>
             ELSE IF nd.cb = "span" THEN Ret(TRUE, Spanned(nd.r, w, p))
             ELSE LET c == ApplyCb(nd.cb, nd.r, w, p) IN Ret(c.ok, c.v)

InBody == mode[1] = "body"
Push(n, rec) == ctl' = Append(ctl, [n |-> n, ph |-> "raw", p0 |-> pos] @@ rec)
BodyTerminal ==
  /\ InBody /\ IsTerminal(Nodes[mode[2]])
  /\ LET r == Terminal(Nodes[mode[2]], Txt, pos) IN
     pos' = r.p /\ Finish(mode[2], r.ok, r.v, r.p)
  /\ UNCHANGED <<job, ctl, heap, table, rstack>>

BodyComposite ==
  /\ InBody
  /\ LET n == mode[2]
         nd == Nodes[n] IN
     /\ ~IsTerminal(nd) /\ nd.t # "gone"
     /\ ~(nd.t = "pat" /\ nd.mx = 0)
     /\ Push(n, [i |-> 1, acc |-> IF nd.t = "pat" \/ Att[n].kind = "array" THEN << >> ELSE Undef,
                 joining |-> FALSE, p1 |-> pos])
     /\ mode' = <<"call", IF nd.t = "ref" THEN nd.ref ELSE nd.k[1]>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos, heap, table, rstack>>

BodyNone ==  \* a repetition with nothing to repeat
  /\ InBody
  /\ LET nd == Nodes[mode[2]] IN
     /\ nd.t = "pat" /\ nd.mx = 0
     /\ Finish(mode[2], nd.mn <= 0, Arr(<< >>), pos)
  /\ UNCHANGED <<job, pos, ctl, heap, table, rstack>>

BodyGone ==  \* a reference to a rule that does not exist is no failure to match
  /\ InBody /\ Nodes[mode[2]].t = "gone"
  /\ mode' = <<"halt", <<"panic", "U" \o Nodes[mode[2]].txt>>>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos, ctl, heap, table, rstack>>

---------------------------------------------------------------------------
(* Going on after a child came to something                                 *)

Returning == mode[1] = "ret" /\ ctl # << >>
Got == [ok |-> mode[2], v |-> mode[3]]
In(types) == Returning /\ Top(ctl).ph = "raw" /\ Nodes[Top(ctl).n].t \in types
Leave(ok, v, p) == pos' = p /\ ctl' = Pop(ctl) /\ Finish(Top(ctl).n, ok, v, p)
Rest == UNCHANGED <<job, heap, table, rstack>>
Again(rec, n) ==  \* evaluate n next
  /\ ctl' = [ctl EXCEPT ![Len(ctl)] = rec]
  /\ mode' = <<"call", n>> /\ last' = << >>

RetRef == In({"ref"}) /\ Leave(Got.ok, Got.v, pos) /\ Rest
RetNot == In({"not"}) /\ Leave(~Got.ok, Undef, Top(ctl).p0) /\ Rest
RetLook == In({"look"}) /\ Leave(Got.ok, Got.v, Top(ctl).p0) /\ Rest
RetOpt ==
  /\ In({"opt"})
  /\ LET w == Att[Top(ctl).n].wrap IN
     IF Got.ok THEN Leave(TRUE, IF w = "" THEN Got.v ELSE <<"m", << <<w, Got.v>> >> >>, pos)
     ELSE Leave(TRUE, Undef, Top(ctl).p0)
  /\ Rest
RetChoice ==
  /\ In({"choice", "rank"})
  /\ LET a == Top(ctl)
         nd == Nodes[a.n] IN
     IF Got.ok THEN Leave(TRUE, Got.v, pos)
     ELSE IF a.i = Len(nd.k) THEN Leave(FALSE, Undef, a.p0)
     ELSE pos' = a.p0 /\ Again([a EXCEPT !.i = @ + 1], nd.k[a.i + 1])
  /\ Rest
RetSeq ==
  /\ In({"seq"})
  /\ LET a  == Top(ctl)
         nd == Nodes[a.n]
         at == Att[a.n]
         k  == nd.k[a.i]
         ac == CASE at.kind = "map"    -> Collect(a.acc, Att[k].label, Got.v)
                 [] at.kind = "array"  -> IF Att[k].cap THEN Append(a.acc, Got.v) ELSE a.acc
                 [] at.kind = "single" -> IF Att[k].cap THEN Got.v ELSE a.acc
     IN IF ~Got.ok THEN Leave(FALSE, Undef, pos)
        ELSE IF a.i = Len(nd.k) THEN Leave(TRUE, IF at.kind = "array" THEN Arr(ac) ELSE ac, pos)
        ELSE UNCHANGED pos /\ Again([a EXCEPT !.i = @ + 1, !.acc = ac], nd.k[a.i + 1])
  /\ Rest
RetPat ==
  /\ In({"pat"})
  /\ LET a  == Top(ctl)
         nd == Nodes[a.n]
         ac == Append(a.acc, Got.v)
         \* stop at p with what was matched before
         stop(vals, p) == IF Len(vals) >= nd.mn THEN Leave(TRUE, Arr(vals), p)
                          ELSE Leave(FALSE, Undef, a.p0)
         next(vals) == \* the join, or the next one right away
           UNCHANGED pos /\ Again([a EXCEPT !.acc = vals, !.p1 = pos, !.joining = nd.j # 0],
                                  IF nd.j # 0 THEN nd.j ELSE nd.k[1])
     IN IF a.joining
        THEN IF Got.ok THEN UNCHANGED pos /\ Again([a EXCEPT !.joining = FALSE], nd.k[1])
             ELSE stop(a.acc, a.p1)
        ELSE IF ~Got.ok THEN stop(a.acc, a.p1)
        ELSE IF nd.mx < 0 /\ a.acc # << >> /\ pos = a.p1 /\ Len(a.acc) >= nd.mn
             THEN stop(a.acc, pos)  \* no progress: going on would never end
        ELSE IF nd.mx >= 0 /\ Len(ac) >= nd.mx THEN stop(ac, pos)
        ELSE next(ac)
  /\ Rest

---------------------------------------------------------------------------
(* Leaving a rule                                                           *)
AtRule(ph) == Returning /\ Top(ctl).ph = ph
Fr == Top(ctl).fr
Up == /\ ctl' = Pop(ctl) /\ rstack' = Pop(rstack) /\ last' = << >>

RuleUncached ==
  /\ AtRule("skip") /\ Up
  /\ UNCHANGED <<job, pos, mode, heap, table>>

RuleDone ==  \* not left-recursive
  /\ AtRule("first") /\ heap[Fr].stage = 1
  /\ heap' = [heap EXCEPT ![Fr].stage = 0, ![Fr].ok = Got.ok, ![Fr].v = Got.v, ![Fr].endp = pos]
  /\ Up
  /\ UNCHANGED <<job, pos, mode, table>>

RuleLoopFailed ==  \* left-recursive, and the seed did not match: nothing is kept
  /\ AtRule("first") /\ heap[Fr].stage = 2 /\ ~Got.ok
  /\ heap' = [heap EXCEPT ![Fr].stage = 0]
  /\ Up
  /\ UNCHANGED <<job, pos, mode, table>>

\* take the result as the best one so far, forget what was concluded from the
\* previous one (stashing it), and try again
RuleGrow ==
  /\ \/ AtRule("first") /\ heap[Fr].stage = 2 /\ Got.ok
     \/ AtRule("grow") /\ Got.ok /\ pos > heap[Fr].endp
  /\ LET f == heap[Fr]
         gone == {k \in DOMAIN table : k[1] = f.pos /\ k[2] \in f.mask} IN
     /\ table' = Without(table, f.pos, f.mask)
     /\ heap' = [heap EXCEPT ![Fr].stage = 3, ![Fr].ok = TRUE, ![Fr].v = Got.v, ![Fr].endp = pos]
     /\ ctl' = Append(Pop(ctl), [n |-> f.id, ph |-> "grow", fr |-> Fr,
                                 stash |-> [k \in gone |-> table[k]]])
     /\ mode' = <<"body", f.id>>
     /\ pos' = f.pos
  /\ last' = << >>
  /\ UNCHANGED <<job, rstack>>

RuleGrown ==  \* it got no longer
  /\ AtRule("grow") /\ (~Got.ok \/ pos <= heap[Fr].endp)
  /\ LET f == heap[Fr] IN
     /\ table' = Top(ctl).stash @@ Without(table, f.pos, f.mask)
     /\ heap' = [heap EXCEPT ![Fr].stage = 0]
     /\ pos' = f.endp
     /\ Ret(TRUE, f.v)
  /\ Up
  /\ UNCHANGED job

---------------------------------------------------------------------------
(* The end                                                                  *)

\* where a parse that stopped at p is said to have failed: the furthest
\* position at which some rule is known to match
Furthest(p) ==
  LET good == {k[1] : k \in {x \in DOMAIN table : heap[table[x]].ok}} IN
  IF \E q \in good : q > p THEN CHOOSE q \in good : \A r \in good : r <= q ELSE p
Outcome ==
  IF pos # Len(Txt)
  THEN LET e == Furthest(pos) IN <<"err", e>> \o PlaceOf(job, e)
  ELSE IF Got.ok THEN <<"ok", Got.v>> ELSE <<"nil">>
Halt ==
  /\ mode[1] = "ret" /\ ctl = << >>
  /\ mode' = <<"halt", Outcome>>
  /\ last' = << >>
  /\ UNCHANGED <<job, pos, ctl, heap, table, rstack>>
Halted == mode[1] = "halt"

Step ==
  \/ CallPlain \/ CallUncached \/ CallEnter \/ CallHit \/ CallSeed
  \/ BodyTerminal \/ BodyComposite \/ BodyNone \/ BodyGone
  \/ RetRef \/ RetNot \/ RetLook \/ RetOpt \/ RetChoice \/ RetSeq \/ RetPat
  \/ RuleUncached \/ RuleDone \/ RuleLoopFailed \/ RuleGrow \/ RuleGrown
  \/ Halt
============================================================================
