--------------------------- MODULE TreeStoreTrace ---------------------------
EXTENDS TreeStore, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, last: only the end is observed, ops: <<<<name, x, y>>, ...>>]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, steps]
VARIABLES c, k
tvars == <<svars, c, k>>
Op == Cases[c].ops[k]
Is(o) == k <= Len(Cases[c].ops) /\ Op[1] = o /\ k' = k + 1 /\ UNCHANGED c
Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ SInit
Next == \/ Is("add") /\ New(Op[2])
        \/ Is("new") /\ New(0)
        \/ Is("det") /\ Detach(Op[2])
        \/ Is("app") /\ AppendTo(Op[2], Op[3])
        \/ Is("pre") /\ PrependTo(Op[2], Op[3])
        \/ Is("bef") /\ InsBefore(Op[2], Op[3])
        \/ Is("aft") /\ InsAfter(Op[2], Op[3])
        \/ Is("rms") /\ RemoveSub(Op[2])
        \/ Is("rm") /\ Remove(Op[2])
Spec == Init /\ [][Next]_tvars
InputsOk == /\ Cases[c].id = Traces[c].id
            /\ k <= Len(Cases[c].ops) => ENABLED Next
Design == (Cases[c].last => k > Len(Cases[c].ops)) => Forest
C12 == /\ Traces[c].panic = ""
       /\ (IF Cases[c].last THEN k > Len(Cases[c].ops) ELSE k > 1) =>
            LET s == Traces[c].steps[IF Cases[c].last THEN 1 ELSE k - 1]  want == Answers IN
            s.live = LiveSeq /\ s.tree = want /\ s.diff = want /\ s.dflt = want
=============================================================================
