-------------------------------- MODULE Mount -------------------------------
(***************************************************************************)
(* A page of which hotmeal manages only some elements, the mount points    *)
(* (hotmeal-wasm/src/lib.rs, "Mount Points").                              *)
(*                                                                         *)
(* State: for each mount point, named by its identity, the content that it *)
(* is meant to have; Lost if a list of patches failed half-way.  A mount   *)
(* point plays the part of the body of the documents that are compared.    *)
(*                                                                         *)
(* A selector is a record: k = "#", ".", "[" or "" (tag), v = the name.    *)
(* The first element that matches in the page is the mount point.          *)
(***************************************************************************)
EXTENDS Patch

VARIABLE cont      \* identity |-> <<content>> or Lost
Lost == << >>

AttrIs(x, n, v) == \E j \in 1..Len(x.a) : x.a[j][2] = n /\ x.a[j][3] = v
Matches(x, s) == x.g = "e" /\
   CASE s.k = "#" -> AttrIs(x, "id", s.v)
     [] s.k = "." -> AttrIs(x, "class", s.v)
     [] s.k = "[" -> \E j \in 1..Len(x.a) : x.a[j][2] = s.v
     [] OTHER    -> x.n = s.v
RECURSIVE Found(_, _)
\* the nodes at or below x that match, in document order; what a template contains is not in the page
Found(x, s) == (IF Matches(x, s) THEN <<x>> ELSE << >>) \o
   (IF x.n = "template" /\ x.s = "h" THEN << >> ELSE LET F[j \in 0..Len(x.c)] == IF j = 0 THEN << >> ELSE F[j - 1] \o Found(x.c[j], s) IN F[Len(x.c)])

MInit == cont = << >>      \* nothing is managed yet
Known(m) == m \in DOMAIN cont
\* what the page has at m is b from now on
Update(m, b) == cont' = (m :> <<b>>) @@ cont
\* a list of patches went wrong somewhere at m
Break(m) == cont' = (m :> Lost) @@ cont
\* nothing was touched
Refuse == UNCHANGED cont

(***************************************************************************)
(* The page: everything that is not inside a mount point is what it was    *)
(***************************************************************************)
RECURSIVE Outside(_)
Outside(x) == IF x.g = "e" /\ Known(x.i) THEN <<x.i, x.n, x.s>>
              ELSE <<x.i, Label(x), x.a, [j \in 1..Len(x.c) |-> Outside(x.c[j])]>>
Shows(x, b) == LET p == Real(x.c)  q == Real(b.c) IN
   x.a = b.a /\ Len(p) = Len(q) /\ \A j \in 1..Len(p) : Page2(p[j], q[j])
=============================================================================
