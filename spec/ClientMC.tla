------------------------------ MODULE ClientMC ------------------------------
(* Exhaustive check of the design: one browser, a few routes and pages. *)
EXTENDS Client
CONSTANTS Routes, Pages, Heads, Entry
Body(p, q) == (p + 1) \div 2 = (q + 1) \div 2
Always(p, q) == TRUE
First == 1
Init == CInit(Routes, Entry)
Good == Connect(TRUE) \/ Shake(TRUE) \/ Ack(TRUE) \/ Wake
Bad == Connect(FALSE) \/ Shake(FALSE) \/ Ack(FALSE) \/ Drop(TRUE)
Next == \/ Good \/ Bad
        \/ \E r \in Routes, h \in Pages : Load(r, h) \/ Nav(r, h)
        \/ ph # "off" /\ \E r \in Routes, h \in Pages : Changes(r, h) \/ \E x \in Heads : ChangesHead(r, h, x)
        \/ Hello \/ Junk
Spec == Init /\ [][Next]_all
\* if from some moment on nothing fails and nobody loads or reloads, the client gets to be live and stays there
Calm == Init /\ [][Next]_all /\ WF_all(Good)
Recovers == <>[][Good]_all => <>[](ph \in {"live", "off"})
=============================================================================
