------------------------------- MODULE Patch --------------------------------
(***************************************************************************)
(* What a list of DOM patches means (hotmeal/src/diff.rs, applied by       *)
(* hotmeal/src/dom.rs and hotmeal-wasm/src/lib.rs).                        *)
(*                                                                         *)
(* State: slots, a function from slot numbers to trees.  Slot 0 is the     *)
(* body; a higher slot holds content that a patch displaced and a later    *)
(* patch takes back.  A path is a slot number followed by child indices    *)
(* (from 0).  Nothing ever shifts: taking a node away leaves an empty text *)
(* (Fill), and putting one on an occupied place sends the occupant to the  *)
(* slot that the patch names.                                              *)
(*                                                                         *)
(* A tree is [g, n, s, t, a, c, i, o]: kind of node (e t c), tag,          *)
(* namespace, text, attributes <<qualified, displayed, value>>, children,  *)
(* identity (0 = made by a patch), and how often OpaqueChanged named it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Annotate(_)
\* a tree from a recording, as one that has just been made
Annotate(x) == [g |-> x.g, n |-> x.n, s |-> x.s, t |-> x.t, a |-> x.a, i |-> 0, o |-> 0,
                c |-> [k \in 1..Len(x.c) |-> Annotate(x.c[k])]]
RECURSIVE Numbered(_)
\* a tree from a recording with the identities it has there
Numbered(x) == [g |-> x.g, n |-> x.n, s |-> x.s, t |-> x.t, a |-> x.a, i |-> x.i, o |-> 0,
                c |-> [k \in 1..Len(x.c) |-> Numbered(x.c[k])]]
\* The namespace of a new element n in a parent with namespace ps and tag pn: a patch gives only the tag, so it is the
\* one a parser would choose.
NsIn(ps, pn, n) ==
  LET html == \/ ps = "h"
              \/ ps = "s" /\ pn \in {"foreignObject", "desc", "title"}
              \/ ps = "m" /\ pn \in {"mi", "mo", "mn", "ms", "mtext"}
  IN IF n = "svg" /\ (html \/ pn = "annotation-xml") THEN "s"
     ELSE IF n = "math" /\ html THEN "m"
     ELSE IF html THEN "h" ELSE ps
RECURSIVE Typed(_, _, _)
\* inserted content x below an element with namespace ps and tag pn
Typed(x, ps, pn) == IF x.g # "e" THEN x ELSE
  LET s == NsIn(ps, pn, x.n) IN [x EXCEPT !.s = s, !.c = [k \in DOMAIN @ |-> Typed(@[k], s, x.n)]]
\* Is a tree's every namespace the one a parser would choose?
RECURSIVE WellTyped(_)
WellTyped(x) == \A k \in 1..Len(x.c) : x.c[k].g = "e" => x.c[k].s = NsIn(x.s, x.n, x.c[k].n) /\ WellTyped(x.c[k])
Fill == [g |-> "t", n |-> "", s |-> "h", t |-> "", a |-> << >>, c |-> << >>, i |-> 0, o |-> 0]
IsFill(x) == x.g = "t" /\ x.t = ""

Butlast(p) == SubSeq(p, 1, Len(p) - 1)
Last(p)    == p[Len(p)]

RECURSIVE Has(_, _), At(_, _), With(_, _, _)
Has(t, p)  == p = << >> \/ (Head(p) + 1 \in 1..Len(t.c) /\ Has(t.c[Head(p) + 1], Tail(p)))
At(t, p)   == IF p = << >> THEN t ELSE At(t.c[Head(p) + 1], Tail(p))
With(t, p, u) == IF p = << >> THEN u ELSE [t EXCEPT !.c[Head(p) + 1] = With(@, Tail(p), u)]

\* the same on a function of slots
There(sl, p)    == p # << >> /\ Head(p) \in DOMAIN sl /\ Has(sl[Head(p)], Tail(p))
Node(sl, p)     == At(sl[Head(p)], Tail(p))
Put(sl, p, u)   == [sl EXCEPT ![Head(p)] = With(@, Tail(p), u)]
DropSlot(sl, k) == [j \in DOMAIN sl \ {k} |-> sl[j]]

\* a place where something can be put: below a node that is there
Place(sl, p)    == Len(p) >= 2 /\ There(sl, Butlast(p)) /\ Node(sl, Butlast(p)).g = "e"
Occupied(sl, p) == Last(p) < Len(Node(sl, Butlast(p)).c)
\* u goes to place p; slot is where the occupant goes, if there is one
PutIn(sl, p, u, slot) ==
  LET par == Node(sl, Butlast(p))
      i   == Last(p) + 1
      len == Len(par.c)
      fills == [k \in 1..(IF i > len + 1 THEN i - len - 1 ELSE 0) |-> Fill]
      new == IF i <= len THEN [par EXCEPT !.c[i] = u] ELSE [par EXCEPT !.c = @ \o fills \o <<u>>]
      sl2 == Put(sl, Butlast(p), new)
  IN IF i <= len /\ slot >= 0 THEN (slot :> par.c[i]) @@ sl2 ELSE sl2
\* the node at p leaves: a slot's root takes the slot with it, any other node leaves a Fill
TakeOut(sl, p) == IF Len(p) = 1 THEN DropSlot(sl, Head(p)) ELSE Put(sl, p, Fill)

\* attribute lists
AttrOf(as, q) == {k \in 1..Len(as) : as[k][1] = q}
SetIn(as, q, d, v) == LET K == AttrOf(as, q) IN
   IF K = {} THEN Append(as, <<q, d, v>>) ELSE [as EXCEPT ![CHOOSE k \in K : \A j \in K : k <= j] = <<q, d, v>>]
Unset(as, q) == SelectSeq(as, LAMBDA e : e[1] # q)
\* a list of <<qualified, displayed, kept, value>> is the whole new list; kept values come from the old one
ValueIn(as, q) == LET K == AttrOf(as, q) IN IF K = {} THEN "" ELSE as[CHOOSE k \in K : TRUE][3]
Rebuilt(as, ch) == [k \in 1..Len(ch) |-> <<ch[k][1], ch[k][2], IF ch[k][3] THEN ValueIn(as, ch[k][1]) ELSE ch[k][4]>>]

\* Effects
InsertAt(sl, p, u, slot) == PutIn(sl, p, u, slot)
RemoveAt(sl, p)          == TakeOut(sl, p)
MoveTo(sl, from, to, slot) == LET u == Node(sl, from) IN PutIn(TakeOut(sl, from), to, u, slot)
TextAt(sl, p, t)         == Put(sl, p, [Node(sl, p) EXCEPT !.t = t])
AttrsAt(sl, p, as)       == Put(sl, p, [Node(sl, p) EXCEPT !.a = as])
OpaqueAt(sl, p)          == Put(sl, p, [Node(sl, p) EXCEPT !.o = @ + 1])

(***************************************************************************)
(* Comparisons                                                             *)
(***************************************************************************)
Real(c)    == SelectSeq(c, LAMBDA x : ~IsFill(x))
Opaque(x)  == x.g = "e" /\ \E k \in 1..Len(x.a) : x.a[k][2] = "data-hotmeal-opaque"
Label(x)   == <<x.g, x.n, x.s, x.t>>

\* exactly the same content
RECURSIVE Same(_, _)
Same(x, y) == /\ Label(x) = Label(y) /\ x.a = y.a /\ Len(x.c) = Len(y.c)
              /\ \A k \in 1..Len(x.c) : Same(x.c[k], y.c[k])
SameKids(x, y) == Len(x.c) = Len(y.c) /\ \A k \in 1..Len(x.c) : Same(x.c[k], y.c[k])

\* x is what y is, but for empty texts in x
RECURSIVE Becomes(_, _)
Becomes(x, y) == LET c == Real(x.c)  d == Real(y.c) IN
   /\ Label(x) = Label(y) /\ x.a = y.a /\ Len(c) = Len(d)
   /\ \A k \in 1..Len(c) : Becomes(c[k], d[k])

\* the specified tree x reaches y: like Becomes, with opaque nodes that were there before left alone
RECURSIVE Reaches(_, _)
Reaches(x, y) == LET c == Real(x.c)  d == Real(y.c) IN
   /\ Label(x) = Label(y) /\ x.a = y.a
   /\ (Opaque(x) /\ x.i # 0) \/ (Len(c) = Len(d) /\ \A k \in 1..Len(c) : Reaches(c[k], d[k]))

\* the native tree y is the specified tree x (what is below an opaque node that was named is judged at the end)
RECURSIVE Native(_, _)
Native(x, y) == /\ Label(x) = Label(y) /\ x.a = y.a
                /\ x.o > 0 \/ (Len(x.c) = Len(y.c) /\ \A k \in 1..Len(x.c) : Native(x.c[k], y.c[k]))
\* the page's tree y is the specified tree x
RECURSIVE Page(_, _)
Page(x, y) == /\ Label(x) = Label(y) /\ x.a = y.a
              /\ Len(x.c) = Len(y.c) /\ \A k \in 1..Len(x.c) : Page(x.c[k], y.c[k])
\* the page's tree x is what y is, but for empty texts
RECURSIVE Page2(_, _)
Page2(x, y) == LET c == Real(x.c)  d == Real(y.c) IN
   /\ Label(x) = Label(y) /\ x.a = y.a /\ Len(c) = Len(d)
   /\ \A k \in 1..Len(c) : Page2(c[k], d[k])
PageKids(x, y) == LET d == Real(y.c) IN Len(x.c) = Len(d) /\ \A k \in 1..Len(d) : Page2(x.c[k], d[k])
\* nodes that were there before are the same nodes, others are not any of those
RECURSIVE Identity(_, _, _)
Identity(x, y, old) == /\ IF x.i # 0 THEN y.i = x.i ELSE y.i \notin old
                       /\ Len(x.c) = Len(y.c) /\ \A k \in 1..Len(x.c) : Identity(x.c[k], y.c[k], old)
RECURSIVE Ids(_)
Ids(x) == {x.i} \cup UNION {Ids(x.c[k]) : k \in 1..Len(x.c)}
RECURSIVE Sub(_, _)
\* the node with identity i, below or at x (<< >> if none)
Sub(x, i) == IF x.i = i THEN <<x>> ELSE
   LET K == {k \in 1..Len(x.c) : Sub(x.c[k], i) # << >>} IN IF K = {} THEN << >> ELSE Sub(x.c[CHOOSE k \in K : TRUE], i)
\* topmost opaque nodes of x with their counterparts in y, where Reaches(x, y)
RECURSIVE OpaquePairs(_, _)
OpaquePairs(x, y) == LET c == Real(x.c)  d == Real(y.c) IN
   IF Opaque(x) THEN {<<x, y>>}
   ELSE IF Len(c) # Len(d) THEN {} ELSE UNION {OpaquePairs(c[k], d[k]) : k \in 1..Len(c)}
=============================================================================
