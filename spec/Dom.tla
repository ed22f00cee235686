-------------------------------- MODULE Dom ---------------------------------
(***************************************************************************)
(* The document API of hotmeal (hotmeal/src/dom.rs): a tree of elements,   *)
(* texts and comments that its user builds and changes node by node.       *)
(* Nodes are named in order of creation; 1 is <html>, 2 <head>, 3 <body>.  *)
(***************************************************************************)
EXTENDS TreeStore
VARIABLE data     \* name |-> [g: e t c, t: tag or text, a: attributes <<qualified, displayed, value>>]
dvars == <<svars, data>>

Elem(tag) == [g |-> "e", t |-> tag, a |-> << >>]
DInit == /\ made = 3 /\ dead = {} /\ par = <<0, 1, 1>> /\ kids = << <<2, 3>>, << >>, << >> >>
         /\ data = <<Elem("html"), Elem("head"), Elem("body")>>

Create(g, t) == New(0) /\ data' = Append(data, [g |-> g, t |-> t, a |-> << >>])
AddLast(p, x)  == AppendTo(p, x) /\ UNCHANGED data
AddBefore(s, x) == InsBefore(s, x) /\ UNCHANGED data
AddAfter(s, x)  == InsAfter(s, x) /\ UNCHANGED data
TakeAway(x)     == Detach(x) /\ UNCHANGED data

Named(as, q) == {k \in 1..Len(as) : as[k][1] = q}
\* an attribute that is there keeps its place, a new one comes last; nodes without attributes stay as they are
SetAttribute(x, q, d, v) ==
   /\ UNCHANGED svars
   /\ LET as == data[x].a  K == Named(as, q) IN
      data' = IF data[x].g # "e" THEN data
              ELSE IF K = {} THEN [data EXCEPT ![x] = [@ EXCEPT !.a = Append(as, <<q, d, v>>)]]
              ELSE [data EXCEPT ![x] = [@ EXCEPT !.a = [as EXCEPT ![CHOOSE k \in K : TRUE] = <<q, d, v>>]]]
RemoveAttribute(x, q) == /\ UNCHANGED svars
                         /\ data' = [data EXCEPT ![x] = [@ EXCEPT !.a = SelectSeq(@, LAMBDA e : e[1] # q)]]
\* only a text has text to set
SetText(x, t) == UNCHANGED svars /\ data' = IF data[x].g = "t" THEN [data EXCEPT ![x] = [@ EXCEPT !.t = t]] ELSE data

(* Answers *)
Around(x, step) == IF par[x] = 0 THEN 0 ELSE LET s == kids[par[x]]  i == IndexOf(s, x) + step IN IF i \in 1..Len(s) THEN s[i] ELSE 0
First(x) == IF kids[x] = << >> THEN 0 ELSE kids[x][1]
Final(x) == IF kids[x] = << >> THEN 0 ELSE kids[x][Len(kids[x])]
View(x) == [g |-> data[x].g, t |-> data[x].t, a |-> data[x].a, up |-> par[x], prev |-> Around(x, -1), next |-> Around(x, 1),
            first |-> First(x), last |-> Final(x), count |-> Len(kids[x]), kids |-> kids[x]]
\* the first child of the root with that tag
Part(tag) == LET s == kids[1]  K == {i \in 1..Len(s) : data[s[i]].g = "e" /\ data[s[i]].t = tag} IN
             IF K = {} THEN 0 ELSE s[CHOOSE i \in K : \A j \in K : i <= j]

Lists == \A x \in 1..made : \A i, j \in 1..Len(data[x].a) : data[x].a[i][1] = data[x].a[j][1] => i = j
TypeOk == Len(data) = made /\ \A x \in 1..made : data[x].g # "e" => data[x].a = << >>
=============================================================================
