----------------------------- MODULE ParseTrace -----------------------------
(* Reads the texts that were given to hotmeal's parse functions, with Markup, and compares with the documents. *)
EXTENDS Markup, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, html, form: doc | body | raw | frag]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, root, body, doctype, html]
VARIABLES c
vars == <<mvars, c>>
Init == \E i \in 1..Len(Cases) : c = i /\ Reading(Cases[i].text)
Next == Read /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
InputsOk == Cases[c].id = Traces[c].id /\ (AtEnd => Readable)
R == Traces[c]
Blank(x) == x.g = "t" /\ \A i \in 1..Len(x.t) : SubSeq(x.t, i, i) \in Space
Els(s) == SelectSeq(s, LAMBDA x : x.g = "e")
Tagged(s, n) == SelectSeq(s, LAMBDA x : x.g = "e" /\ x.n = n)
\* the body's attributes and content that a text in its form stands for
Form == Cases[c].form
BodyAttrs == CASE Form = "doc" -> Tagged(Els(Nodes)[1].c, "body")[1].a [] Form = "body" -> Els(Nodes)[1].a [] OTHER -> << >>
\* behind a doctype, the body begins with its first element
Content == IF dt = << >> \/ Els(Nodes) = << >> THEN Nodes ELSE SubSeq(Nodes, CHOOSE i \in 1..Len(Nodes) : Nodes[i].g = "e" /\ \A j \in 1..(i - 1) : Nodes[j].g # "e", Len(Nodes))
BodyKids  == CASE Form = "doc" -> Tagged(Els(Nodes)[1].c, "body")[1].c [] Form = "body" -> Els(Nodes)[1].c [] OTHER -> Content
H11 == /\ R.panic = ""
       /\ AtEnd /\ Readable =>
            /\ R.root.g = "e" /\ R.root.n = "html"
            /\ IF Form = "frag" THEN MeansAll(BodyKids, R.root.c)
               ELSE R.body.g = "e" /\ R.body.n = "body" /\ Shown(R.body.a) = BodyAttrs /\ MeansAll(BodyKids, R.body.c)
            /\ Form # "frag" => R.doctype = IF dt = << >> THEN "" ELSE dt[1]
            /\ Form = "doc" => /\ Shown(R.root.a) = Els(Nodes)[1].a
                               /\ Tagged(Els(Nodes)[1].c, "head") # << >> => \E i \in 1..Len(R.root.c) : R.root.c[i].n = "head" /\ Means(Tagged(Els(Nodes)[1].c, "head")[1], R.root.c[i])
=============================================================================
