------------------------------- MODULE DomMC --------------------------------
(* Exhaustive check of the design: every history over a few nodes. *)
EXTENDS Dom
CONSTANTS Max, Values
Quals == {"|a", "|b"}
Init == DInit
Next == \/ made < Max /\ \E g \in {"e", "t"} : Create(g, "p")
        \/ \E x, y \in Live : AddLast(x, y) \/ AddBefore(x, y) \/ AddAfter(x, y)
        \/ \E x \in Live : TakeAway(x) \/ \E v \in Values : SetText(x, v) \/ (x > 2 /\ x < 5 /\ \E q \in Quals : SetAttribute(x, q, q, v) \/ RemoveAttribute(x, q))
Spec == Init /\ [][Next]_dvars
Design == Forest /\ Lists /\ TypeOk
\* around each node its neighbours agree
Neighbours == \A x \in Live : /\ (Around(x, 1) # 0 => Around(Around(x, 1), -1) = x) /\ (First(x) # 0 => par[First(x)] = x /\ Around(First(x), -1) = 0)
                              /\ (Final(x) # 0 => Around(Final(x), 1) = 0)
=============================================================================
