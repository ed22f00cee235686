------------------------------- MODULE EditMC -------------------------------
(***************************************************************************)
(* Exhaustive check of the edit-script design: for every pair of trees     *)
(* with at most NA and NB nodes and every one-to-one kind-preserving       *)
(* matching that pairs the roots, every order of operations that the       *)
(* contract allows (parents inserted before children, children deleted     *)
(* before parents, moves out of a region before its deletion) turns the    *)
(* old tree into the new one, with nothing lost and nothing left aside.    *)
(* The contract does not ask for a phase order, so the properties do not.  *)
(***************************************************************************)
EXTENDS EditScript, TLC

CONSTANTS NA, NB, Kinds

\* ordered trees in document order: parent vectors in which par[i] is i-1 or an ancestor of i-1
RECURSIVE Anc(_, _)
Anc(p, x) == IF x = 0 THEN {} ELSE {x} \cup Anc(p, p[x])
RECURSIVE ParVecs(_)
ParVecs(n) == IF n = 1 THEN {<<0>>}
              ELSE UNION {{Append(p, q) : q \in Anc(p, n - 1)} : p \in ParVecs(n - 1)}
KidSeq(p, x) == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA y : p[y] = x)
RECURSIVE Size(_, _), Hgt(_, _)
Size(p, x) == LET RECURSIVE Sum(_)
                  Sum(s) == IF s = << >> THEN 0 ELSE Size(p, Head(s)) + Sum(Tail(s))
              IN 1 + Sum(KidSeq(p, x))
Hgt(p, x) == IF KidSeq(p, x) = << >> THEN 0 ELSE 1 + MaxOf({Hgt(p, y) : y \in Range(KidSeq(p, x))})
TreeOf(p, kd) == LET n == Len(p) IN
  [par |-> p, kind |-> kd,
   ch  |-> [x \in 1..n |-> KidSeq(p, x)],
   pos |-> [x \in 1..n |-> IF p[x] = 0 THEN 0 ELSE (CHOOSE i \in 1..n : i <= Len(KidSeq(p, p[x])) /\ KidSeq(p, p[x])[i] = x) - 1],
   sz  |-> [x \in 1..n |-> Size(p, x)], ht |-> [x \in 1..n |-> Hgt(p, x)],
   txt |-> [x \in 1..n |-> 0], opq |-> [x \in 1..n |-> FALSE], hash |-> [x \in 1..n |-> x],
   prp |-> [x \in 1..n |-> << >>]]
Trees(N) == UNION {{TreeOf(p, kd) : p \in ParVecs(n), kd \in [1..n -> Kinds]} : n \in 1..N}

CaseEA(i) == i.a
CaseEB(i) == i.b
CaseEM(i) == i.m

Matchings(a, b) == {mm \in [Nodes(a) -> 0..Len(b.par)] :
   /\ mm[1] = 1
   /\ \A x \in Nodes(a) : mm[x] # 0 => a.kind[x] = b.kind[mm[x]]
   /\ \A x, y \in Nodes(a) : (x # y /\ mm[x] # 0) => mm[x] # mm[y]}

Init == \E a \in Trees(NA), b \in Trees(NB) : \E mm \in Matchings(a, b) : InitOf([a |-> a, b |-> b, m |-> mm])
Next == EmitNext
Spec == Init /\ [][Next]_evars

\* nothing an operation refers to is ever missing
Referable == /\ \A y \in ins : CanInsert(y) => ParentThere(y)
             /\ \A x \in mov : CanMove(x) => ParentThere(m[x]) /\ Live(x)
             /\ \A x \in del : CanDelete(x) => Live(x) /\ NothingLost(x)
\* the script never gets stuck
Progress == Discharged \/ ENABLED EmitNext
Reproduces == Discharged => Shape /\ Contents
\* a set-aside node always has an obligation left
AsideIsTemporary == \A x \in Nodes(A) : loc[x] = Limbo => x \in mov \cup del
\* every node in the tree hangs from the root, or from a node that is set aside or still to be taken out: no node is below itself
Rooted == \A z \in DOMAIN loc : \E v \in UpFrom(z, Len(loc)) : loc[v] \in {Top, Limbo, Gone}
WellFormedInputs == WellFormed(A) /\ WellFormed(B)
=============================================================================
