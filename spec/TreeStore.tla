----------------------------- MODULE TreeStore ------------------------------
(***************************************************************************)
(* The tree that cinereus::Tree stores (an indextree arena and a root), as *)
(* a state machine over construction histories.  Nodes are named 1,2,3..   *)
(* in order of creation, 1 is the root.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES made,   \* number of nodes ever created
          dead,   \* names that were removed
          par,    \* name |-> parent, 0 = none
          kids    \* name |-> children in order
svars == <<made, dead, par, kids>>

Live == (1..made) \ dead
SRange(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* put the sequence t in s so that it starts at index i
Splice(s, i, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))

RECURSIVE PreSeq(_, _), PostSeq(_, _), Flat(_, _, _, _), HeightOf(_)
Flat(x, i, post, acc) == IF i > Len(kids[x]) THEN acc
                         ELSE Flat(x, i + 1, post, acc \o (IF post THEN PostSeq(kids[x][i], TRUE) ELSE PreSeq(kids[x][i], TRUE)))
PreSeq(x, d)  == <<x>> \o Flat(x, 1, FALSE, << >>)
PostSeq(x, d) == Append(Flat(x, 1, TRUE, << >>), x)
HeightOf(x) == IF kids[x] = << >> THEN 0
               ELSE LET H == {HeightOf(kids[x][i]) : i \in 1..Len(kids[x])} IN 1 + (CHOOSE h \in H : \A g \in H : g <= h)
Sub(x) == SRange(PreSeq(x, TRUE))
SibIndex(x) == IF par[x] = 0 THEN 0 ELSE IndexOf(kids[par[x]], x) - 1

SInit == made = 1 /\ dead = {} /\ par = <<0>> /\ kids = << << >> >>

\* kids and par with x taken out of its place
KidsOut(x) == IF par[x] = 0 THEN kids ELSE [kids EXCEPT ![par[x]] = Without(@, x)]

New(p) == /\ made' = made + 1 /\ UNCHANGED dead
          /\ par' = Append(par, p)
          /\ kids' = Append(IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = Append(@, made + 1)], << >>)
Detach(x) == /\ x \in Live /\ x # 1
             /\ kids' = KidsOut(x) /\ par' = [par EXCEPT ![x] = 0] /\ UNCHANGED <<made, dead>>
Attach(p, x, at(_)) ==   \* x becomes a child of p at index at(children of p without x)
  /\ p \in Live /\ x \in Live /\ x # 1 /\ p \notin Sub(x)
  /\ LET k == KidsOut(x) IN kids' = [k EXCEPT ![p] = Splice(@, at(@), <<x>>)]
  /\ par' = [par EXCEPT ![x] = p] /\ UNCHANGED <<made, dead>>
AppendTo(p, x)   == Attach(p, x, LAMBDA s : Len(s) + 1)
PrependTo(p, x)  == Attach(p, x, LAMBDA s : 1)
InsBefore(s0, x) == s0 # x /\ par[s0] # 0 /\ Attach(par[s0], x, LAMBDA s : IndexOf(s, s0))
InsAfter(s0, x)  == s0 # x /\ par[s0] # 0 /\ Attach(par[s0], x, LAMBDA s : IndexOf(s, s0) + 1)
RemoveSub(x) == /\ x \in Live /\ x # 1
                /\ kids' = KidsOut(x) /\ dead' = dead \cup Sub(x) /\ par' = [par EXCEPT ![x] = 0] /\ UNCHANGED made
Remove(x) ==   \* the children take the place of x
  /\ x \in Live /\ x # 1 /\ par[x] # 0
  /\ LET p == par[x]  i == IndexOf(kids[p], x) IN
     /\ kids' = [kids EXCEPT ![p] = Splice(Without(@, x), i, kids[x]), ![x] = << >>]
     /\ par' = [y \in 1..made |-> IF y = x THEN 0 ELSE IF par[y] = x THEN p ELSE par[y]]
  /\ dead' = dead \cup {x} /\ UNCHANGED made

(* What every history preserves *)
Forest == /\ par[1] = 0 /\ 1 \in Live
          /\ \A x \in Live : /\ par[x] = 0 \/ (par[x] \in Live /\ x \in SRange(kids[par[x]]))
                             /\ \A i, j \in 1..Len(kids[x]) : i # j => kids[x][i] # kids[x][j]
                             /\ \A i \in 1..Len(kids[x]) : par[kids[x][i]] = x /\ kids[x][i] \in Live

(* The answers that the queries have to give *)
NodeAnswer(x) == [par |-> par[x], kids |-> kids[x], cc |-> Len(kids[x]), pos |-> SibIndex(x),
                  ht |-> HeightOf(x), desc |-> PreSeq(x, TRUE), kind |-> x]
LiveSeq == SelectSeq([i \in 1..made |-> i], LAMBDA x : x \notin dead)
Answers == [root |-> 1, iter |-> PreSeq(1, TRUE), post |-> PostSeq(1, TRUE),
            nodes |-> [i \in 1..Len(LiveSeq) |-> NodeAnswer(LiveSeq[i])]]
=============================================================================
