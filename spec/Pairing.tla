------------------------------ MODULE Pairing -------------------------------
(***************************************************************************)
(* The matching container as an abstract data type: a sequence of pairs    *)
(* that is one-to-one.  Trace: one line per history.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, size, capa, capb, adds]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, steps]: steps[i+1] = after i additions
VARIABLES c, k, ps
vars == <<c, k, ps>>
Init == \E i \in 1..Len(Cases) : c = i /\ k = 0 /\ ps = << >>
Add(x, y) == /\ \A i \in 1..Len(ps) : ps[i][1] # x /\ ps[i][2] # y
             /\ ps' = Append(ps, <<x, y>>) /\ k' = k + 1 /\ UNCHANGED c
Next == k < Len(Cases[c].adds) /\ Add(Cases[c].adds[k + 1][1], Cases[c].adds[k + 1][2])
Spec == Init /\ [][Next]_vars
InputsOk == /\ Cases[c].id = Traces[c].id
            /\ k < Len(Cases[c].adds) => ENABLED Next
PFwd(x) == LET I == {i \in 1..Len(ps) : ps[i][1] = x} IN IF I = {} THEN 0 ELSE ps[CHOOSE i \in I : TRUE][2]
PBwd(y) == LET I == {i \in 1..Len(ps) : ps[i][2] = y} IN IF I = {} THEN 0 ELSE ps[CHOOSE i \in I : TRUE][1]
N == Cases[c].size
C13 == /\ Traces[c].panic = ""
       /\ LET s == Traces[c].steps[k + 1] IN
          /\ s.len = Len(ps) /\ s.emp = (ps = << >>) /\ s.pairs = ps
          /\ s.fwd = [x \in 1..N |-> PFwd(x)] /\ s.bwd = [y \in 1..N |-> PBwd(y)]
          /\ s.ca = [x \in 1..N |-> PFwd(x) # 0] /\ s.cb = [y \in 1..N |-> PBwd(y) # 0]
=============================================================================
