----------------------------- MODULE EditScript -----------------------------
(***************************************************************************)
(* What an edit script is and does (cinereus/src/chawathe.rs and           *)
(* cinereus/CHAWATHE_SEMANTICS.md).                                        *)
(*                                                                         *)
(* State: the tree being edited (loc: where every node is; old nodes are   *)
(* 1..nA, an inserted new node y is nA+y), the contents of paired nodes,   *)
(* and the obligations that the matching creates and the script has to     *)
(* discharge (ins, del, mov, txt, prp).  One action per operation kind.    *)
(*                                                                         *)
(* Displacement semantics: putting a node on an occupied index sets the    *)
(* occupant aside (Limbo); taking a node away leaves a gap; nothing shifts.*)
(***************************************************************************)
EXTENDS Forest

CONSTANT EA(_), EB(_)   \* case id |-> old tree, new tree
CONSTANT EM(_)          \* case id |-> the matching, old node |-> new node or 0

VARIABLES c, loc, text, prop, ins, del, mov, txt, prp
evars == <<c, loc, text, prop, ins, del, mov, txt, prp>>

A == EA(c)
B == EB(c)
m == EM(c)
nA == Len(A.par)
nB == Len(B.par)
W(y) == LET S == {x \in Nodes(A) : m[x] = y} IN IF S = {} THEN 0 ELSE MinOf(S)

Gone  == <<0 - 1, 0>>   \* deleted, or not inserted yet
Limbo == <<0 - 2, 0>>   \* set aside by a displacement
Top   == <<0, 0>>       \* the root

Image(y) == LET x == W(y) IN IF x # 0 THEN x ELSE nA + y

InitOf(i) ==
  LET a == EA(i)  b == EB(i)  mm == EM(i)
      oa == OpaqueDesc(a)  ob == OpaqueDesc(b)
      na == Len(a.par)     nb == Len(b.par)
      paired == {mm[x] : x \in Nodes(a)}
      PR == {x \in Nodes(a) \ oa : mm[x] # 0 /\ mm[x] \notin ob}
  IN
  /\ c = i
  /\ loc = [z \in 1..(na + nb) |->
              IF z > na \/ z \in oa THEN Gone ELSE <<a.par[z], a.pos[z]>>]
  /\ text = [x \in 1..na |-> a.txt[x]]
  /\ prop = [x \in 1..na |-> a.prp[x]]
  /\ ins = {y \in Nodes(b) \ ob : y \notin paired /\ b.par[y] # 0}
  /\ del = {x \in Nodes(a) \ oa : mm[x] = 0}
  /\ mov = {x \in PR : /\ a.par[x] # 0 /\ b.par[mm[x]] # 0
                       /\ mm[a.par[x]] # b.par[mm[x]] \/ a.pos[x] # b.pos[mm[x]]}
  /\ txt = {x \in PR : b.txt[mm[x]] # 0 /\ b.txt[mm[x]] # a.txt[x]}
  /\ prp = {x \in PR : PropsDiffer(a.prp[x], b.prp[mm[x]])}

Live(z) == loc[z] # Gone
Occupants(z, p, i) == {v \in DOMAIN loc : v # z /\ loc[v] = <<p, i>>}
Place(z, p, i) == [v \in DOMAIN loc |-> IF v = z THEN <<p, i>>
                                        ELSE IF loc[v] = <<p, i>> THEN Limbo ELSE loc[v]]

\* z and what it is below, as things are
RECURSIVE UpFrom(_, _)
UpFrom(z, fuel) == IF fuel = 0 \/ loc[z][1] <= 0 THEN {z} ELSE {z} \cup UpFrom(loc[z][1], fuel - 1)
Within(z, x) == x \in UpFrom(z, Len(loc))

\* When an operation may be emitted.
CanInsert(y) == y \in ins /\ B.par[y] \notin ins
CanMove(x)   == x \in mov /\ B.par[m[x]] \notin ins /\ ~Within(Image(B.par[m[x]]), x)
CanDelete(x) == x \in del /\ (Desc(A, x) \ {x}) \cap del = {} /\ Desc(A, x) \cap mov = {}
CanText(x)   == x \in txt
CanProps(x)  == x \in prp

\* What the operations do.
Insert(y) == /\ loc' = Place(nA + y, Image(B.par[y]), B.pos[y])
             /\ ins' = ins \ {y}
             /\ UNCHANGED <<c, text, prop, del, mov, txt, prp>>
Move(x)   == /\ loc' = Place(x, Image(B.par[m[x]]), B.pos[m[x]])
             /\ mov' = mov \ {x}
             /\ UNCHANGED <<c, text, prop, ins, del, txt, prp>>
Delete(x) == /\ loc' = [loc EXCEPT ![x] = Gone]
             /\ del' = del \ {x}
             /\ UNCHANGED <<c, text, prop, ins, mov, txt, prp>>
SetText(x) == /\ text' = [text EXCEPT ![x] = B.txt[m[x]]]
              /\ txt' = txt \ {x}
              /\ UNCHANGED <<c, loc, prop, ins, del, mov, prp>>
SetProps(x) == /\ prop' = [prop EXCEPT ![x] = B.prp[m[x]]]
               /\ prp' = prp \ {x}
               /\ UNCHANGED <<c, loc, text, ins, del, mov, txt>>

\* Any script the contract allows (used by the exhaustive model check).
EmitNext ==
  \/ \E y \in ins : CanInsert(y) /\ Insert(y)
  \/ \E x \in mov : CanMove(x) /\ Move(x)
  \/ \E x \in del : CanDelete(x) /\ Delete(x)
  \/ \E x \in txt : CanText(x) /\ SetText(x)
  \/ \E x \in prp : CanProps(x) /\ SetProps(x)

Discharged == ins = {} /\ del = {} /\ mov = {} /\ txt = {} /\ prp = {}

RootsPaired == m[1] = 1

\* Operations only ever refer to nodes that exist: the parent an operation names is in the tree.
ParentThere(y) == B.par[y] = 0 \/ Live(Image(B.par[y]))
\* Nothing that is still wanted sits below a node that is about to go.
NothingLost(x) == \A v \in DOMAIN loc : loc[v][1] # x

\* The edited tree is the new tree (new nodes inside opaque nodes are the caller's business).
Shape ==
  LET vis == Nodes(B) \ OpaqueDesc(B) IN
  /\ \A y \in vis : loc[Image(y)] = (IF y = 1 THEN Top ELSE <<Image(B.par[y]), B.pos[y]>>)
  /\ \A v \in DOMAIN loc : loc[v] # Limbo
  /\ \A x \in Nodes(A) : m[x] = 0 => loc[x] = Gone
Contents ==
  \A y \in Nodes(B) \ OpaqueDesc(B) : W(y) # 0 =>
     LET x == W(y) IN
     /\ A.kind[x] = B.kind[y]
     /\ (B.txt[y] # 0 => text[x] = B.txt[y])
     /\ Range(prop[x]) = Range(B.prp[y])
=============================================================================
