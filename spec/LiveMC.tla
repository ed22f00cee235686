------------------------------- MODULE LiveMC -------------------------------
(* Exhaustive check of the design: every history over a few routes, pages and heads. *)
EXTENDS LiveReload
CONSTANTS Routes, Pages, Heads
\* pages 2k-1 and 2k have the same body
Body(p, q) == (p + 1) \div 2 = (q + 1) \div 2
Always(p, q) == TRUE
First == 1
Init == LInit(Routes)
Next == \E r \in Routes :
          \/ \E h \in Pages : Serve(r, h) \/ Change(r, h) \/ \E x \in Heads : ChangeHead(r, h, x)
          \/ \E x \in Heads : Inject(r, x)
          \/ Forget(r) \/ Clear
Spec == Init /\ [][Next]_lvars
\* what is done to one route leaves the others alone
Isolated == [][\/ page' = [x \in Routes |-> 0] /\ inj' = [x \in Routes |-> 0] /\ shown' = shown
               \/ \A r, q \in Routes : r # q /\ (page'[r] # page[r] \/ inj'[r] # inj[r] \/ shown'[r] # shown[r]) =>
                     page'[q] = page[q] /\ inj'[q] = inj[q] /\ shown'[q] = shown[q]]_lvars
=============================================================================
