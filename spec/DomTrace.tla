------------------------------ MODULE DomTrace ------------------------------
(* Binds Dom to recorded histories of calls on real documents. *)
EXTENDS Dom, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, steps: [o, x, y, t, q, d]]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, steps: [err, nodes, body, head]]
VARIABLES c, k
vars == <<dvars, c, k>>
Op == Cases[c].steps[k]
Is(o) == k <= Len(Cases[c].steps) /\ Op.o = o /\ k' = k + 1 /\ UNCHANGED c
Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ DInit
Next == \/ Is("element") /\ Create("e", Op.t)
        \/ Is("text") /\ Create("t", Op.t)
        \/ Is("comment") /\ Create("c", Op.t)
        \/ Is("append") /\ AddLast(Op.x, Op.y)
        \/ Is("before") /\ AddBefore(Op.x, Op.y)
        \/ Is("after") /\ AddAfter(Op.x, Op.y)
        \/ Is("remove") /\ TakeAway(Op.x)
        \/ Is("set") /\ SetAttribute(Op.x, Op.q, Op.d, Op.t)
        \/ Is("unset") /\ RemoveAttribute(Op.x, Op.q)
        \/ Is("settext") /\ SetText(Op.x, Op.t)
Spec == Init /\ [][Next]_vars
InputsOk == Cases[c].id = Traces[c].id /\ (k <= Len(Cases[c].steps) => ENABLED Next)
Design == Forest /\ Lists /\ TypeOk
H07 == /\ Traces[c].panic = ""
       /\ LET s == Traces[c].steps[k] IN
            /\ s.err = ""
            /\ s.nodes = [x \in 1..made |-> View(x)]
            /\ s.body = Part("body") /\ s.head = Part("head")
=============================================================================
