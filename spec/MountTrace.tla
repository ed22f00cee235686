----------------------------- MODULE MountTrace -----------------------------
(* Binds Mount to recorded histories of a page with several mount points. *)
EXTENDS Mount, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, steps: [how, sel, new]]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, start, steps: [err, n, np, t]]
VARIABLES c, k
vars == <<cont, c, k>>
R    == Traces[c]
Ops  == Cases[c].steps
Op   == Ops[k]
Res  == R.steps[k]
Prev == IF k = 1 THEN R.start ELSE R.steps[k - 1].t
At1(s) == LET f == Found(Prev, s) IN IF f = << >> THEN 0 ELSE f[1].i
Is(H) == R.panic = "" /\ k <= Len(Ops) /\ Op.how \in H /\ k' = k + 1 /\ UNCHANGED c
Good == {"blob", "list", "slots", "json", "html"}
Far  == {"far", "farslot"}

Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ MInit
Apply  == Is(Good) /\ IF At1(Op.sel) = 0 THEN Refuse ELSE Update(At1(Op.sel), Op.new)
Spoil  == Is(Far) /\ IF At1(Op.sel) = 0 THEN Refuse ELSE Break(At1(Op.sel))
Reject == Is({"badblob", "badsel"}) /\ Refuse
Next == Apply \/ Spoil \/ Reject
Spec == Init /\ [][Next]_vars

InputsOk == R.id = Cases[c].id
\* nothing is done to a mount point whose content is not known
Sane == k <= Len(Ops) => \A m \in {At1(Op.sel)} : Known(m) => cont[m] # Lost

\* after step k - 1
Last1 == R.steps[k - 1]
Page1 == Last1.t
W03 == /\ R.panic = ""
       /\ R.panic = "" /\ k > 1 =>
            LET o == Ops[k - 1]  before == IF k = 2 THEN R.start ELSE R.steps[k - 2].t
                m == Found(before, o.sel) IN
            /\ IF o.how \in Good /\ m # << >> THEN Last1.err = "" /\ Last1.n = Last1.np
               ELSE Last1.err # ""
            /\ o.how \in {"badblob", "badsel"} \/ m = << >> => Page1 = before
            /\ Outside(Page1) = Outside(R.start)
            /\ \A i \in DOMAIN cont : cont[i] # Lost =>
                 LET s == Sub(Page1, i) IN s # << >> /\ Shows(s[1], cont[i][1])
=============================================================================
