------------------------------ MODULE PatchMC -------------------------------
(***************************************************************************)
(* Design: every list of patches that keeps the rules of H02 (each place   *)
(* and node is there; an occupant goes to a free slot) from every small    *)
(* body.  No node is ever lost or doubled, and no place ever shifts.       *)
(***************************************************************************)
EXTENDS Patch
CONSTANTS N,        \* nodes of the body, without the body itself
          Slots,    \* highest slot
          Steps,    \* patches
          Names     \* tags
VARIABLES sl, gone, made, k, op
vars == <<sl, gone, made, k, op>>

El(n, c) == [g |-> "e", n |-> n, s |-> "h", t |-> "", a |-> << >>, c |-> c, i |-> 0, o |-> 0]
Tx       == [Fill EXCEPT !.t = "x"]
RECURSIVE Forests(_)
Forests(n) == IF n = 0 THEN {<< >>} ELSE
   UNION {{<<u>> \o f : u \in (IF m = 1 THEN {Tx} ELSE {}) \cup {El(t, g) : t \in Names, g \in Forests(m - 1)}, f \in Forests(n - m)} : m \in 1..n}
RECURSIVE Count(_)
Count(c) == IF c = << >> THEN 0 ELSE 1 + Count(Head(c).c) + Count(Tail(c))
RECURSIVE Give(_, _)
\* identities from f on, in preorder
Give(c, f) == IF c = << >> THEN << >> ELSE <<[Head(c) EXCEPT !.i = f, !.c = Give(@, f + 1)]>> \o Give(Tail(c), f + 1 + Count(Head(c).c))

RECURSIVE Paths(_)
Paths(x) == {<< >>} \cup UNION {{<<j - 1>> \o p : p \in Paths(x.c[j])} : j \in 1..Len(x.c)}
All  == UNION {{<<j>> \o p : p \in Paths(sl[j])} : j \in DOMAIN sl}
Els(s) == {p \in UNION {{<<j>> \o q : q \in Paths(s[j])} : j \in DOMAIN s} : Node(s, p).g = "e"}
Places(s) == {p \o <<j>> : p \in Els(s), j \in 0..N}
\* the slots that may take what is at p
Takers(s, p) == IF Occupied(s, p) THEN (1..Slots) \ DOMAIN s ELSE {-1}

Init == \E n \in 0..N : \E f \in Forests(n) :
          sl = (0 :> [El("body", Give(f, 2)) EXCEPT !.i = 1]) /\ gone = {} /\ made = 100 /\ k = 0 /\ op = << >>
Act(o) == k < Steps /\ k' = k + 1 /\ op' = o
Insert == \E p \in Places(sl) : \E s \in Takers(sl, p), t \in Names :
            /\ Act(<<"ins", p>>) /\ sl' = InsertAt(sl, p, [El(t, << >>) EXCEPT !.i = made], s)
            /\ made' = made + 1 /\ UNCHANGED gone
Remove == \E p \in All \ {<<0>>} : Act(<<"rm", p>>) /\ sl' = RemoveAt(sl, p) /\ gone' = gone \cup (Ids(Node(sl, p)) \ {0}) /\ UNCHANGED made
Move == \E p \in All \ {<<0>>} : \E q \in Places(TakeOut(sl, p)) : \E s \in Takers(TakeOut(sl, p), q) :
            Act(<<"mv", p, q>>) /\ sl' = MoveTo(sl, p, q, s) /\ UNCHANGED <<gone, made>>
Next == Insert \/ Remove \/ Move
Spec == Init /\ [][Next]_vars

RECURSIVE Times(_, _)
Times(c, i) == IF c = << >> THEN 0 ELSE (IF Head(c).i = i THEN 1 ELSE 0) + Times(Head(c).c, i) + Times(Tail(c), i)
RECURSIVE Total(_, _)
Total(S, i) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN Times(<<sl[j]>>, i) + Total(S \ {j}, i)
Ever == {i \in (1..N + 1) \cup (100..made - 1) : TRUE}
\* every node that was there or was made is in one place, unless it was removed
Kept ==
        \A i \in Ever : Total(DOMAIN sl, i) <= 1 /\ (i \in gone => Total(DOMAIN sl, i) = 0) /\ (i >= 100 /\ i \notin gone => Total(DOMAIN sl, i) = 1)
Body == 0 \in DOMAIN sl /\ sl[0].n = "body" /\ sl[0].i = 1
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* what is neither below nor above a place that the patch names stays where it is; a moved tree arrives as it was;
\* only named trees go
Still == [][/\ \A p \in All : (\A j \in 2..Len(op') : ~Prefix(p, op'[j]) /\ ~Prefix(op'[j], p)) => There(sl', p) /\ Node(sl', p) = Node(sl, p)
            /\ op'[1] = "mv" /\ ~Prefix(op'[2], op'[3]) => Node(sl', op'[3]) = Node(sl, op'[2])
            /\ UNION {Ids(sl[j]) : j \in DOMAIN sl} \ {0} \subseteq UNION {Ids(sl'[j]) : j \in DOMAIN sl'} \cup gone'
            /\ gone \subseteq gone']_vars
=============================================================================
