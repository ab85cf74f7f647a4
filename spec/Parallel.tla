------------------------------ MODULE Parallel ------------------------------
(* Parses in goroutines that share a grammar.  What belongs to one parse     *)
(* (its place, its remembered outcomes, its rule stack) is private; the only *)
(* things of a grammar that change after it was built are its lazy values    *)
(* (labels, captures, kind of a sequence), which are worked out by whoever   *)
(* asks first.  The model has each access to one, with the vector clocks     *)
(* that the Go memory model gives it, and every interleaving.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs,   \* the goroutines
          Cells,   \* 1..n, the lazy values; cell c is worked out from those in Needs(c)
          Sync     \* TRUE: cells are read and written atomically, as the library does

(* a grammar: a sequence of which two parts are sequences *)
Needs(c) == CASE c = 1 -> << >> [] c = 2 -> <<1>> [] OTHER -> <<1, 2>>
RECURSIVE Worth(_)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Worth(Head(s)) + Sum(Tail(s))
Worth(c) == 1 + Sum(Needs(c))          \* what any parse has to find in c
\* parses ask for different cells in different order
Script(p) == IF p % 2 = 1 THEN <<3, 2>> ELSE <<2, 1, 3>>

VARIABLES
  cell,    \* 0 unset
  stack,   \* of each goroutine: the cells being worked out, <<cell, next need, sum>>
  todo,    \* of each goroutine: what its parse still asks for
  got,     \* of each goroutine: what it was told
  clock,   \* vector clocks
  rel,     \* of each cell: the clock published by its last atomic store
  reads, writes,  \* of each cell: clock of the last plain access by each goroutine
  race
vars == <<cell, stack, todo, got, clock, rel, reads, writes, race>>

Zero == [q \in Procs |-> 0]
Join(a, b) == [q \in Procs |-> IF a[q] > b[q] THEN a[q] ELSE b[q]]
Before(t, q, c) == t <= c[q]           \* the access of q at its time t is before clock c

Init ==
  /\ cell = [c \in Cells |-> 0]
  /\ stack = [p \in Procs |-> << >>]
  /\ todo = [p \in Procs |-> Script(p)]
  /\ got = [p \in Procs |-> << >>]
  /\ clock = [p \in Procs |-> [Zero EXCEPT ![p] = 1]]
  /\ rel = [c \in Cells |-> Zero]
  /\ reads = [c \in Cells |-> Zero]
  /\ writes = [c \in Cells |-> Zero]
  /\ race = FALSE

Tick(p, c) == [c EXCEPT ![p] = @ + 1]
\* accesses of others to cell c which p does not know to be over
Clash(p, c, accesses) == \E q \in Procs \ {p} : accesses[c][q] > 0 /\ ~Before(accesses[c][q], q, clock[p])

LoadBy(p, c) ==
  IF Sync
  THEN /\ clock' = [clock EXCEPT ![p] = Tick(p, Join(@, rel[c]))]
       /\ UNCHANGED <<rel, reads, writes, race>>
  ELSE /\ race' = (race \/ Clash(p, c, writes))
       /\ reads' = [reads EXCEPT ![c][p] = clock[p][p]]
       /\ clock' = [clock EXCEPT ![p] = Tick(p, @)]
       /\ UNCHANGED <<rel, writes>>
StoreBy(p, c) ==
  IF Sync
  THEN /\ rel' = [rel EXCEPT ![c] = Join(@, clock[p])]
       /\ clock' = [clock EXCEPT ![p] = Tick(p, Join(@, rel[c]))]
       /\ UNCHANGED <<reads, writes, race>>
  ELSE /\ race' = (race \/ Clash(p, c, writes) \/ Clash(p, c, reads))
       /\ writes' = [writes EXCEPT ![c][p] = clock[p][p]]
       /\ clock' = [clock EXCEPT ![p] = Tick(p, @)]
       /\ UNCHANGED <<rel, reads>>

(* p is told v: by the cell being worked out that needs it, or by its parse *)
Told(p, st, v) ==
  IF st = << >>
  THEN got' = [got EXCEPT ![p] = Append(@, v)] /\ stack' = [stack EXCEPT ![p] = << >>]
  ELSE LET f == st[Len(st)] IN
       /\ stack' = [stack EXCEPT ![p] = SubSeq(st, 1, Len(st) - 1) \o << <<f[1], f[2] + 1, f[3] + v>> >>]
       /\ UNCHANGED got

Ask(p, c, st) ==                       \* Get: load, use it if set, else work it out
  /\ LoadBy(p, c)
  /\ UNCHANGED cell
  /\ IF cell[c] # 0 THEN Told(p, st, cell[c])
     ELSE stack' = [stack EXCEPT ![p] = Append(st, <<c, 1, 1>>)] /\ UNCHANGED got

Next == \E p \in Procs :
  IF stack[p] = << >>
  THEN /\ todo[p] # << >>
       /\ todo' = [todo EXCEPT ![p] = Tail(@)]
       /\ Ask(p, Head(todo[p]), << >>)
  ELSE LET f == stack[p][Len(stack[p])] IN
       /\ UNCHANGED todo
       /\ IF f[2] <= Len(Needs(f[1]))
          THEN Ask(p, Needs(f[1])[f[2]], stack[p])
          ELSE /\ StoreBy(p, f[1])
               /\ cell' = [cell EXCEPT ![f[1]] = f[3]]
               /\ Told(p, SubSeq(stack[p], 1, Len(stack[p]) - 1), f[3])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoRace == ~race
OnlyItsValue == \A c \in Cells : cell[c] \in {0, Worth(c)}
(* whatever the interleaving, a parse is told what it would be told alone *)
Alone == \A p \in Procs : \A i \in 1..Len(got[p]) : got[p][i] = Worth(Script(p)[i])
Kept == [][\A c \in Cells : cell[c] # 0 => cell'[c] = cell[c]]_vars
Ends == <>(\A p \in Procs : todo[p] = << >> /\ stack[p] = << >>)
=============================================================================
