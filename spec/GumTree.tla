------------------------------- MODULE GumTree ------------------------------
(***************************************************************************)
(* The matching procedure of cinereus (cinereus/src/matching.rs) as a      *)
(* state machine: two phases, one action per decision the code takes.      *)
(*                                                                         *)
(* Constants of one run are the two trees, the similarity threshold th     *)
(* (percent) and the minimum height mh, all taken from variable c, which   *)
(* never changes during a run.                                             *)
(***************************************************************************)
EXTENDS Forest

CONSTANT CaseOf(_)        \* case id |-> [a |-> tree, b |-> tree, th |-> Nat, mh |-> Nat]

VARIABLES
  c,      \* the case id
  pc,     \* "start", "td" top-down, "bu1" internal nodes, "bu2" leaves, "done"
  stk,    \* top-down: stack of frames of candidate pairs
  cur,    \* bottom-up: next node of the old tree
  m,      \* old node |-> paired new node or 0
  w,      \* new node |-> paired old node or 0
  elig    \* bottom-up: new nodes that were unpaired and outside opaque nodes when the phase began

gvars == <<c, pc, stk, cur, m, w, elig>>

A  == CaseOf(c).a
B  == CaseOf(c).b
Th == CaseOf(c).th
Mh == CaseOf(c).mh

OpaqueEither(x, y) == A.opq[x] \/ B.opq[y]

InitCase(i) ==
  /\ c = i /\ pc = "start" /\ stk = << >> /\ cur = 1
  /\ m = [x \in Nodes(CaseOf(i).a) |-> 0]
  /\ w = [y \in Nodes(CaseOf(i).b) |-> 0]
  /\ elig = {}

(************************** top-down ***************************************)
\* Pair two equal subtrees node by node; stop at opaque nodes and at nodes that are taken.
RECURSIVE Subtrees(_, _, _), SubForest(_, _, _, _)
Subtrees(x, y, acc) ==
  IF acc.m[x] # 0 \/ acc.w[y] # 0 THEN acc
  ELSE LET acc1 == [m |-> [acc.m EXCEPT ![x] = y], w |-> [acc.w EXCEPT ![y] = x]] IN
       IF OpaqueEither(x, y) THEN acc1 ELSE SubForest(x, y, 1, acc1)
SubForest(x, y, i, acc) ==
  IF i > Len(A.ch[x]) \/ i > Len(B.ch[y]) THEN acc
  ELSE SubForest(x, y, i + 1, Subtrees(A.ch[x][i], B.ch[y][i], acc))

\* The code pushes the compatible pairs of children of x and y in document order and pops the last one
\* first.  A frame <<x, y, i, j>> stands for the pairs (i', j') of child indices that are still to be
\* popped, those lexicographically up to (i, j).  Taken, small or incompatible pairs are passed over here,
\* as the code passes over them when it pushes or pops them (a taken node never becomes free again).
Compatible(p, q) == A.hash[p] = B.hash[q] \/ A.kind[p] = B.kind[q]
RECURSIVE NextPair(_, _, _, _)
NextPair(x, y, i, j) ==
  IF i = 0 THEN <<0, 0>>
  ELSE LET p == A.ch[x][i]
           J == IF m[p] # 0 \/ A.ht[p] < Mh THEN {}
                ELSE {k \in 1..j : w[B.ch[y][k]] = 0 /\ Compatible(p, B.ch[y][k])}
       IN IF J # {} THEN <<i, MaxOf(J)>> ELSE NextPair(x, y, i - 1, Len(B.ch[y]))

\* Consider the pair (x, y) on top of the frames below.
Consider(x, y, below) ==
  IF A.hash[x] = B.hash[y] /\ A.kind[x] = B.kind[y]
    THEN LET acc == Subtrees(x, y, [m |-> m, w |-> w]) IN                \* identical subtrees
         stk' = below /\ m' = acc.m /\ w' = acc.w
  ELSE IF OpaqueEither(x, y)
    THEN /\ stk' = below                                                 \* atomic: pair, never enter
         /\ IF A.kind[x] = B.kind[y]
              THEN m' = [m EXCEPT ![x] = y] /\ w' = [w EXCEPT ![y] = x]
              ELSE UNCHANGED <<m, w>>
  ELSE /\ stk' = Append(below, <<x, y, Len(A.ch[x]), Len(B.ch[y])>>)     \* look at the children
       /\ UNCHANGED <<m, w>>

StartRoots ==
  /\ pc = "start" /\ pc' = "td"
  /\ IF A.ht[1] < Mh THEN UNCHANGED <<stk, m, w>> ELSE Consider(1, 1, << >>)
  /\ UNCHANGED <<c, cur, elig>>

TopDown ==
  /\ pc = "td" /\ stk # << >>
  /\ LET f == stk[Len(stk)]
         below == SubSeq(stk, 1, Len(stk) - 1)
         ij == NextPair(f[1], f[2], f[3], f[4])
     IN IF ij[1] = 0
          THEN stk' = below /\ UNCHANGED <<m, w>>
          ELSE Consider(A.ch[f[1]][ij[1]], B.ch[f[2]][ij[2]],
                        Append(below, <<f[1], f[2], ij[1], ij[2] - 1>>))
  /\ UNCHANGED <<c, pc, cur, elig>>

ToBottomUp ==
  /\ pc = "td" /\ stk = << >>
  /\ pc' = "bu1" /\ cur' = 1
  /\ elig' = {y \in Nodes(B) : w[y] = 0} \ OpaqueDesc(B)
  /\ UNCHANGED <<c, stk, m, w>>

(************************** bottom-up **************************************)
Ancestry(x, y) ==
  /\ (A.par[x] # 0 /\ m[A.par[x]] # 0) => y \in Desc(B, m[A.par[x]])
  /\ (B.par[y] # 0 /\ w[B.par[y]] # 0) => x \in Desc(A, w[B.par[y]])

Common(x, y)   == Cardinality({z \in Desc(A, x) : m[z] \in Desc(B, y)})
DiceDen(x, y)  == A.sz[x] + B.sz[y]
DiceOk(x, y)   == 200 * Common(x, y) >= Th * DiceDen(x, y)
\* strictly better score: 2c1/n1 > 2c2/n2
Better(x, y1, y2) == Common(x, y1) * DiceDen(x, y2) > Common(x, y2) * DiceDen(x, y1)

SamePlace(x) ==   \* free children of the paired parent with x's kind, position and similar properties
  IF A.par[x] = 0 \/ m[A.par[x]] = 0 THEN {}
  ELSE {y \in Kids(B, m[A.par[x]]) : /\ w[y] = 0 /\ B.kind[y] = A.kind[x] /\ B.pos[y] = A.pos[x]
                                     /\ Similar(A.prp[x], B.prp[y], Th)}
DiceSet(x) == {y \in elig : /\ w[y] = 0 /\ B.kind[y] = A.kind[x] /\ ~Leaf(B, y)
                            /\ Ancestry(x, y) /\ Similar(A.prp[x], B.prp[y], Th) /\ DiceOk(x, y)}
RootSet(x) == {y \in elig : /\ A.par[x] = 0 /\ B.par[y] = 0 /\ w[y] = 0 /\ B.kind[y] = A.kind[x]
                            /\ ~Leaf(B, y) /\ Similar(A.prp[x], B.prp[y], Th)}

\* the partner chosen for x among internal nodes, 0 = none
Pick1(x) ==
  LET P == SamePlace(x) IN
  IF P # {} THEN MinOf(P)
  ELSE LET D == DiceSet(x) IN
  IF D # {} THEN CHOOSE y \in D : \A z \in D : z # y => (IF z < y THEN Better(x, y, z) ELSE ~Better(x, z, y))
  ELSE LET R == RootSet(x) IN IF R # {} THEN MinOf(R) ELSE 0

Skip(x) == m[x] # 0 \/ x \in OpaqueDesc(A)

Pair(x, y) == IF y = 0 THEN UNCHANGED <<m, w>>
              ELSE m' = [m EXCEPT ![x] = y] /\ w' = [w EXCEPT ![y] = x]

BottomUp1 ==
  /\ pc = "bu1" /\ cur \in Nodes(A)
  /\ IF Skip(cur) THEN UNCHANGED <<m, w>> ELSE Pair(cur, Pick1(cur))
  /\ cur' = cur + 1
  /\ UNCHANGED <<c, pc, stk, elig>>

ToLeaves == pc = "bu1" /\ cur \notin Nodes(A) /\ pc' = "bu2" /\ cur' = 1 /\ UNCHANGED <<c, stk, m, w, elig>>

LocalLeaves(x) == {y \in Kids(B, m[A.par[x]]) : w[y] = 0 /\ Leaf(B, y) /\ B.kind[y] = A.kind[x]}
GlobalLeaves(x) == {y \in elig : w[y] = 0 /\ Leaf(B, y) /\ B.kind[y] = A.kind[x] /\ Ancestry(x, y)}

Pick2(x) ==
  IF A.par[x] # 0 /\ m[A.par[x]] # 0
  THEN LET L  == LocalLeaves(x)
           L1 == {y \in L : B.pos[y] = A.pos[x] /\ B.hash[y] = A.hash[x]}
           L2 == {y \in L : B.hash[y] = A.hash[x]}
           L3 == {y \in L : B.pos[y] = A.pos[x] /\ Similar(A.prp[x], B.prp[y], Th)}
       IN IF L1 # {} THEN MinOf(L1) ELSE IF L2 # {} THEN MinOf(L2) ELSE IF L3 # {} THEN MinOf(L3) ELSE 0
  ELSE LET G  == GlobalLeaves(x)
           G1 == {y \in G : B.hash[y] = A.hash[x]}
           G2 == {y \in G : Similar(A.prp[x], B.prp[y], Th)}
       IN IF G1 # {} THEN MinOf(G1) ELSE IF G2 # {} THEN MinOf(G2) ELSE 0

BottomUp2 ==
  /\ pc = "bu2" /\ cur \in Nodes(A)
  /\ IF Skip(cur) \/ ~Leaf(A, cur) THEN UNCHANGED <<m, w>> ELSE Pair(cur, Pick2(cur))
  /\ cur' = cur + 1
  /\ UNCHANGED <<c, pc, stk, elig>>

Finish == pc = "bu2" /\ cur \notin Nodes(A) /\ pc' = "done" /\ UNCHANGED <<c, stk, cur, m, w, elig>>

GumNext == StartRoots \/ TopDown \/ ToBottomUp \/ BottomUp1 \/ ToLeaves \/ BottomUp2 \/ Finish

(************************** properties of the design ***********************)
OneToOneOf(mm, ww) == /\ \A x \in DOMAIN mm : mm[x] # 0 => mm[x] \in DOMAIN ww /\ ww[mm[x]] = x
                      /\ \A y \in DOMAIN ww : ww[y] # 0 => ww[y] \in DOMAIN mm /\ mm[ww[y]] = y
KindKept(mm) == \A x \in DOMAIN mm : mm[x] # 0 => A.kind[x] = B.kind[mm[x]]

\* C04
DiceFinal(mm, x, y) == 200 * Cardinality({z \in Desc(A, x) : mm[z] \in Desc(B, y)}) >= Th * DiceDen(x, y)
Justified(mm, x) ==
  LET y == mm[x] IN
  (y # 0 /\ A.hash[x] # B.hash[y] /\ ~OpaqueEither(x, y)) =>
     /\ Similar(A.prp[x], B.prp[y], Th)
     /\ \/ A.par[x] # 0 /\ B.par[y] # 0 /\ mm[A.par[x]] = B.par[y] /\ A.pos[x] = B.pos[y]
        \/ A.par[x] = 0 /\ B.par[y] = 0
        \/ Leaf(A, x) /\ Leaf(B, y)
        \/ DiceFinal(mm, x, y)

\* C05
RECURSIVE Outermost(_, _)
Outermost(t, y) ==   \* the outermost opaque node strictly enclosing y
  LET S == {z \in Nodes(t) : t.opq[z] /\ z # y /\ y \in Desc(t, z)} IN MinOf(S)
OpaqueMatching(mm, ww) ==
  /\ \A x \in OpaqueDesc(A) : mm[x] = 0
  /\ \A y \in OpaqueDesc(B) : ww[y] # 0 =>
        LET o == Outermost(B, y) IN ww[o] # 0 /\ ~A.opq[ww[o]]

\* C02
Identical == SameTree(A, B) /\ A.hash = B.hash /\ A.opq = B.opq
Complete(mm) == Identical => \A x \in Nodes(A) \ OpaqueDesc(A) : mm[x] = x
=============================================================================
