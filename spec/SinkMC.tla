------------------------------- MODULE SinkMC -------------------------------
(* Exhaustive check of the design: whatever the parser does, the document is a forest in which no two texts that
   calls put next to each other stay apart. *)
EXTENDS Sink
CONSTANTS MaxNodes
Els == {hs[i] : i \in 1..Len(hs)} \ {1}
Init == KInit
Next == /\ \/ made < MaxNodes /\ MakeNode(DataOf("e", "p", "h", "", << >>))
           \/ \E p \in Els \cup {1}, x \in Els : par[x] = 0 /\ AddNode(p, x)
           \/ \E p \in Els : AddText(p, "a")
           \/ \E s, x \in Els : NodeBefore(s, x)
           \/ \E s \in Els : TextBefore(s, "a")
           \/ \E e, p \in Els : e # p /\ TextBased(e, p, "a")
           \/ \E x \in Els : Leave(x)
           \/ \E x, y \in Els : x # y /\ Adopt(x, y)
Spec == Init /\ [][Next]_kvars
Small == made <= MaxNodes /\ \A x \in 1..made : data[x].t \in {"", "a", "aa"}
NoEmptyText == \A x \in 1..made : data[x].g = "t" => data[x].t # "" /\ kids[x] = << >> /\ par[x] # 0
Design == Forest /\ Attributes
\* adding a text next to a text makes no second one
Joined == [][\A p \in 1..made : (Len(kids'[p]) = Len(kids[p]) + 1 /\ made' = made + 1 /\ data'[made + 1].g = "t") =>
               ~\E i \in 1..(Len(kids'[p]) - 1) : kids'[p][i + 1] = made + 1 /\ data'[kids'[p][i]].g = "t"]_kvars
=============================================================================
