-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* How the parser's calls build a document (ArenaSink in hotmeal/src/      *)
(* dom.rs).  Node 1 is the document.  A handle, as the parser has it,      *)
(* stands for a node; texts are nodes without handles.                     *)
(***************************************************************************)
EXTENDS TreeStore
VARIABLES data,      \* node |-> [g: d e t c, n: tag, s: namespace, t: text, a: attributes]
          hs,        \* handles: hs[i] is the node of handle i-1
          doctype,   \* << >> or <<name>>
          errors, names
kvars == <<svars, data, hs, doctype, errors, names>>
meta == <<hs, doctype, errors, names>>

DataOf(g, n, s, t, a) == [g |-> g, n |-> n, s |-> s, t |-> t, a |-> a]
KInit == /\ SInit /\ data = <<DataOf("d", "", "h", "", << >>)>> /\ hs = <<1>>
         /\ doctype = << >> /\ errors = << >> /\ names = << >>

MakeNode(d) == /\ New(0) /\ data' = Append(data, d) /\ hs' = Append(hs, made + 1)
               /\ UNCHANGED <<doctype, errors, names>>
IsText(x) == x # 0 /\ data[x].g = "t"
Prev(x) == LET s == kids[par[x]]  i == IndexOf(s, x) IN IF i > 1 THEN s[i - 1] ELSE 0
LastOf(x) == IF kids[x] = << >> THEN 0 ELSE kids[x][Len(kids[x])]

\* text next to text is one text
Grow(x, t) == data' = [data EXCEPT ![x].t = @ \o t] /\ UNCHANGED <<svars, meta>>
NewText(p, i, t) == /\ made' = made + 1 /\ UNCHANGED <<dead, meta>>
                    /\ par' = Append(par, p)
                    /\ kids' = Append([kids EXCEPT ![p] = Splice(@, i, <<made + 1>>)], << >>)
                    /\ data' = Append(data, DataOf("t", "", "h", t, << >>))
AddNode(p, x) == AppendTo(p, x) /\ UNCHANGED <<data, meta>>
AddText(p, t) == IF IsText(LastOf(p)) THEN Grow(LastOf(p), t) ELSE NewText(p, Len(kids[p]) + 1, t)
NodeBefore(s, x) == InsBefore(s, x) /\ UNCHANGED <<data, meta>>
TextBefore(s, t) == /\ par[s] # 0
                    /\ IF IsText(Prev(s)) THEN Grow(Prev(s), t) ELSE NewText(par[s], IndexOf(kids[par[s]], s), t)
\* foster parenting: before the table where it has a parent, else at the end of the previous element
NodeBased(e, p, x) == IF par[e] # 0 THEN NodeBefore(e, x) ELSE AddNode(p, x)
TextBased(e, p, t) == IF par[e] # 0 THEN TextBefore(e, t) ELSE AddText(p, t)
Leave(x) == Detach(x) /\ UNCHANGED <<data, meta>>
\* all children of x go behind those of y
Adopt(x, y) == /\ y \notin Sub(x)
               /\ kids' = [kids EXCEPT ![x] = << >>, ![y] = @ \o kids[x]]
               /\ par' = [z \in 1..made |-> IF par[z] = x THEN y ELSE par[z]]
               /\ UNCHANGED <<made, dead, data, meta>>
RECURSIVE Missing(_, _)
Missing(as, bs) == IF bs = << >> THEN as
                   ELSE Missing(IF \E k \in 1..Len(as) : as[k][1] = Head(bs)[1] THEN as ELSE Append(as, Head(bs)), Tail(bs))
AddMissing(x, as) == data' = [data EXCEPT ![x].a = Missing(@, as)] /\ UNCHANGED <<svars, meta>>
Doctype(t) == doctype' = <<t>> /\ UNCHANGED <<svars, data, hs, errors, names>>
ParseError(t) == errors' = Append(errors, t) /\ UNCHANGED <<svars, data, hs, doctype, names>>
Urls(s) == CASE s = "h" -> "http://www.w3.org/1999/xhtml" [] s = "s" -> "http://www.w3.org/2000/svg" [] OTHER -> "http://www.w3.org/1998/Math/MathML"
AskName(x) == names' = Append(names, Urls(data[x].s) \o "|" \o data[x].n) /\ UNCHANGED <<svars, data, hs, doctype, errors>>

(* The document that results *)
Elements(s) == SelectSeq(s, LAMBDA x : data[x].g = "e")
Root == IF Elements(kids[1]) # << >> THEN Elements(kids[1])[1] ELSE IF kids[1] # << >> THEN kids[1][1] ELSE 1
Bodies(x) == SelectSeq(kids[x], LAMBDA y : data[y].g = "e" /\ data[y].n = "body")
RECURSIVE TreeOf(_)
TreeOf(x) == [g |-> data[x].g, n |-> data[x].n, s |-> data[x].s, t |-> data[x].t, a |-> data[x].a,
              c |-> [i \in 1..Len(kids[x]) |-> TreeOf(kids[x][i])]]

Attributes == \A x \in 1..made : \A i, j \in 1..Len(data[x].a) : data[x].a[i][1] = data[x].a[j][1] => i = j
=============================================================================
