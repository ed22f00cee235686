------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Ordered labelled trees, the data that cinereus diffs.                   *)
(*                                                                         *)
(* A tree t is a record of sequences indexed by node; nodes are numbered   *)
(* 1..n in document order (pre-order), so the root is 1 and the descendants*)
(* of x (x included) are the interval x..x+sz[x]-1.                        *)
(*   par  parent (0 for the root)      pos  index among siblings, from 0   *)
(*   ch   children, in order           sz   size of the subtree            *)
(*   ht   height (leaf = 0)            kind an integer                     *)
(*   txt  text, 0 = no text            opq  is the node opaque?            *)
(*   hash the structural hash the caller supplied                          *)
(*   prp  properties: sequence of <<key, value>>                           *)
(* par, kind, txt, opq, hash and prp are the data; pos, ch, sz and ht are  *)
(* redundant and WellFormed re-derives them.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nodes(t)   == 1..Len(t.par)
Desc(t, x) == x..(x + t.sz[x] - 1)
Range(s)   == {s[i] : i \in 1..Len(s)}
Kids(t, x) == Range(t.ch[x])
Leaf(t, x) == t.ch[x] = << >>
MaxOf(S)   == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S)   == CHOOSE x \in S : \A y \in S : x <= y

\* nodes strictly inside an opaque node
OpaqueDesc(t) == UNION {Desc(t, x) \ {x} : x \in {y \in Nodes(t) : t.opq[y]}}

WellFormed(t) ==
  LET n == Len(t.par) IN
  /\ n >= 1 /\ t.par[1] = 0 /\ t.pos[1] = 0
  /\ Len(t.pos) = n /\ Len(t.ch) = n /\ Len(t.sz) = n /\ Len(t.ht) = n /\ Len(t.kind) = n
  /\ Len(t.txt) = n /\ Len(t.opq) = n /\ Len(t.hash) = n /\ Len(t.prp) = n
  /\ \A x \in 2..n : /\ t.par[x] \in 1..(x - 1)
                     /\ x \in Desc(t, t.par[x])
                     /\ t.pos[x] + 1 \in 1..Len(t.ch[t.par[x]])
                     /\ t.ch[t.par[x]][t.pos[x] + 1] = x
  /\ t.sz[1] = n
  /\ \A x \in 1..n : LET c == t.ch[x] IN
       /\ \A i \in 1..Len(c) : t.par[c[i]] = x /\ t.pos[c[i]] = i - 1
       /\ IF c = << >>
            THEN t.sz[x] = 1 /\ t.ht[x] = 0
            ELSE /\ c[1] = x + 1
                 /\ \A i \in 1..(Len(c) - 1) : c[i + 1] = c[i] + t.sz[c[i]]
                 /\ c[Len(c)] + t.sz[c[Len(c)]] = x + t.sz[x]
                 /\ t.ht[x] = 1 + MaxOf({t.ht[y] : y \in Range(c)})
       /\ \A i, j \in 1..Len(t.prp[x]) : t.prp[x][i][1] = t.prp[x][j][1] => i = j

(***************************************************************************)
(* The Merkle contract on the hashes of two trees: equal hashes mean equal *)
(* kind, text and list of child hashes, and (WithProps) equal properties.  *)
(* Equal subtrees need not have equal hashes for the soundness properties, *)
(* only for the completeness ones (MerkleComplete).                        *)
(***************************************************************************)
ChildHashes(t, x) == [i \in 1..Len(t.ch[x]) |-> t.hash[t.ch[x][i]]]
Content(t, x)     == <<t.kind[x], t.txt[x], ChildHashes(t, x)>>
MerkleSound(ta, tb) ==
  /\ \A x \in Nodes(ta), y \in Nodes(tb) : ta.hash[x] = tb.hash[y] => Content(ta, x) = Content(tb, y)
  /\ \A t \in {ta, tb} : \A x, y \in Nodes(t) : t.hash[x] = t.hash[y] => Content(t, x) = Content(t, y)

(***************************************************************************)
(* Properties.  Similarity is a rational num/den with den > 0:             *)
(* 1 if both sets are empty, 0 if both give key 0 (the tag) different      *)
(* values or exactly one has it, else |common pairs| / max(|p|,|q|).       *)
(***************************************************************************)
PropSet(p) == Range(p)
KeyOf(p, k) == {e \in Range(p) : e[1] = k}
SimNum(p, q) ==
  IF p = << >> /\ q = << >> THEN 1
  ELSE IF KeyOf(p, 0) # KeyOf(q, 0) THEN 0
  ELSE Cardinality(Range(p) \cap Range(q))
SimDen(p, q) == IF p = << >> /\ q = << >> THEN 1
                ELSE IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
\* similarity >= th/100
Similar(p, q, th) == 100 * SimNum(p, q) >= th * SimDen(p, q)

\* the final property state that turns p into q: every property of q in order, flag TRUE = unchanged
PropDiff(p, q) == [i \in 1..Len(q) |-> <<q[i][1], q[i] \in Range(p), q[i][2]>>]
PropsDiffer(p, q) == Range(p) # Range(q)

\* equality of two trees as content (used for whole-tree comparisons)
SameTree(ta, tb) == /\ ta.par = tb.par /\ ta.kind = tb.kind /\ ta.txt = tb.txt
                    /\ \A x \in Nodes(ta) : Range(ta.prp[x]) = Range(tb.prp[x])
=============================================================================
