----------------------------- MODULE PackratMC -----------------------------
(* The parsing machine against the reference semantics, for every grammar   *)
(* of a family and every short text.                                        *)
EXTENDS Packrat, Small

P == INSTANCE Peg

CONSTANTS ItemsA, ItemsB, MaxSeq, MaxText, LR, MaxAltA, MaxAltB

VARIABLES
  evals,  \* the <<rule, position>> whose body was evaluated so far
  twice   \* those evaluated more than once
vars == <<mvars, evals, twice>>

Alts(items) == SeqsOver(items, MaxSeq)
BodiesOver(items, most) == {b \in Bodies(Alts(items)) : Len(b) <= most}

Suits(g) ==
  LET lr == LeftRecursive(g) IN
  CASE LR = "no" -> lr = {}
    [] LR = "direct" -> lr = {2} \* only A
    [] LR = "any" -> lr # {}

\* bodies that make a suitable grammar
Pairs == SetToSeq({p \in BodiesOver(ItemsA, MaxAltA) \X BodiesOver(ItemsB, MaxAltB) :
                     Suits(MakeGrammar(p[1], p[2], {}, {"A", "B"}))})
Skips == IF LR = "no" THEN << {}, {"A"}, {"B"}, {"A", "B"} >> ELSE << {} >>
\* a job is <<which pair, which rules are SkipCache, text>>
Grams == [p \in 1..Len(Pairs) |-> [k \in 1..Len(Skips) |->
            MakeGrammar(Pairs[p][1], Pairs[p][2], Skips[k], {"A", "B"})]]
AttrTabs == [p \in 1..Len(Pairs) |-> AttrTable(Grams[p][1])]
Lrs == [p \in 1..Len(Pairs) |-> LeftRecursive(Grams[p][1])]
JobGrammar(j) == Grams[j[1]][j[2]]
JobAttrs(j) == AttrTabs[j[1]]
JobText(j) == j[3]
JobPlace(j, p) == <<LineOf(j[3], p), ColOf(j[3], p)>>

Init ==
  /\ \E p \in 1..Len(Pairs), k \in 1..Len(Skips), t \in Texts(MaxText) : Begin(<<p, k, t>>)
  /\ evals = {} /\ twice = {}

Entered == IF mode[1] = "body" /\ IsRule(GrammarOf(job), mode[2]) THEN {<<mode[2], pos>>} ELSE {}
Next ==
  \/ /\ Step
     /\ evals' = evals \cup Entered
     /\ twice' = twice \cup (Entered \cap evals)
  \/ Halted /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Reference ==
  LET g == GrammarOf(job)
      r == P!Parse([nodes |-> g.nodes, top |-> g.top, lrs |-> Lrs[job[1]]], Att, Txt)
  IN IF r.ok /\ r.p = Len(Txt) THEN <<"ok", r.v>>
     ELSE IF ~r.ok /\ Txt = << >> THEN <<"nil">> ELSE <<"err">>
\* the machine comes to what the reference semantics says
AgreesWithReference ==
  Halted => IF mode[2][1] = "err" THEN Reference = <<"err">> ELSE mode[2] = Reference
\* an error is reported within the text, at a line and column that exist
ErrorInText ==
  Halted /\ mode[2][1] = "err" => /\ mode[2][2] \in 0..Len(Txt)
                                  /\ mode[2][3] >= 0 /\ mode[2][4] >= 0
                                  /\ mode[2][4] <= mode[2][2]
\* without left recursion a memoized rule is evaluated at most once per position
AtMostOnce == LR = "no" => \A e \in twice : Nodes[e[1]].sk
\* the rule stack and the control stack are left as they were found
Balanced == Halted => ctl = << >> /\ rstack = << >>
\* nothing stays marked as being evaluated
Settled == Halted => \A i \in 1..Len(heap) : heap[i].stage = 0
\* a table entry is about its own rule and position
TableSound == \A k \in DOMAIN table : heap[table[k]].pos = k[1] /\ heap[table[k]].id = k[2]
InText == pos \in 0..Len(Txt)
Terminates == <>Halted
============================================================================
