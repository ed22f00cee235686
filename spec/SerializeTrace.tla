--------------------------- MODULE SerializeTrace ---------------------------
(* Reads the texts that hotmeal wrote for trees, with Markup, and compares. *)
EXTENDS Markup, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, root: tree, doctype, which: texts to read, body: number of the body among the root's children, 0 = none]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, full, plain, body, inner, kids]
VARIABLES c, w
vars == <<mvars, c, w>>
TextOf(i, which) == IF which = "full" THEN Traces[i].full ELSE IF which = "plain" THEN Traces[i].plain ELSE IF which = "body" THEN Traces[i].body ELSE Traces[i].inner
Init == \E i \in 1..Len(Cases) : /\ c = i
          /\ \E j \in 1..Len(Cases[i].which) : /\ w = Cases[i].which[j]
                                               /\ IF Traces[i].panic = "" THEN Reading(TextOf(i, w)) ELSE Reading("")
Next == Read /\ UNCHANGED <<c, w>>
Spec == Init /\ [][Next]_vars
InputsOk == Cases[c].id = Traces[c].id
Want == LET r == Cases[c].root IN
        IF w \in {"full", "plain"} THEN <<r>> ELSE IF w = "body" THEN (IF Cases[c].body = 0 THEN << >> ELSE r.c[Cases[c].body].c) ELSE r.c
H09 == /\ Traces[c].panic = ""
       /\ AtEnd => /\ Readable
                   /\ MeansAll(Nodes, Joined(Want))
                   /\ dt = IF w = "full" /\ Cases[c].doctype # "" THEN <<Cases[c].doctype>> ELSE << >>
=============================================================================
