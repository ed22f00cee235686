----------------------------- MODULE EditTrace ------------------------------
(***************************************************************************)
(* Binds EditScript to recorded edit scripts.  Every recorded operation is *)
(* one step; it is applied with the arguments that were recorded, and its  *)
(* deviations from the contract are collected in err, by property.         *)
(***************************************************************************)
EXTENDS EditScript, TLC, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.VP_CASES)
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)
CaseA(i) == Cases[i].a
CaseB(i) == Cases[i].b
CaseM(i) == IF Traces[i].panic = "" THEN Traces[i].fwd ELSE [x \in 1..Len(Cases[i].a.par) |-> 0]

VARIABLES k,      \* next operation
          err     \* set of <<property, reason>>
tvars == <<evars, k, err>>

R == Traces[c]
Ops == R.ops

OneToOne(r) == \A i, j \in 1..Len(r.fwd) : (i # j /\ r.fwd[i] # 0) => r.fwd[i] # r.fwd[j]

Init == \E i \in 1..Len(Cases) :
          /\ InitOf(i) /\ k = 1
          /\ err = (IF Traces[i].panic # "" THEN {<<"ALL", "panic">>} ELSE {})
                   \cup (IF Traces[i].panic = "" /\ ~OneToOne(Traces[i]) THEN {<<"ALL", "matching not one-to-one">>} ELSE {})

\* If p holds no error, else the given one
Flag(p, prop_, why) == IF p THEN {} ELSE {<<prop_, why>>}

At(o) == k <= Len(Ops) /\ Ops[k].o = o /\ k' = k + 1

TInsert == /\ At("I")
           /\ LET o == Ops[k]  y == o.b IN
              IF y \notin Nodes(B) \/ o.p \notin Nodes(B)
              THEN /\ err' = err \cup {<<"C06", "insert names an unknown node">>}
                   /\ UNCHANGED evars
              ELSE
              /\ err' = err
                   \cup Flag(y \in ins, "C06", "insert of a node that is paired, a root, inside an opaque node, or inserted twice")
                   \cup Flag(o.p = B.par[y], "C06", "insert with a wrong parent")
                   \cup Flag(o.i = B.pos[y], "C06", "insert with a wrong index")
                   \cup Flag(o.k = B.kind[y], "C06", "insert with a wrong kind")
                   \cup Flag(o.p \notin ins, "C06", "insert before its parent is inserted")
                   \cup Flag(y \notin OpaqueDesc(B), "C05", "insert inside an opaque node")
                   \cup Flag(Live(Image(o.p)), "C10", "insert under a node that is not in the tree")
              /\ loc' = Place(nA + y, Image(o.p), o.i)
              /\ ins' = ins \ {y}
              /\ UNCHANGED <<c, text, prop, del, mov, txt, prp>>

TMove == /\ At("M")
         /\ LET o == Ops[k]  x == o.a IN
            IF x \notin Nodes(A) \/ o.b \notin Nodes(B) \/ o.p \notin Nodes(B)
            THEN /\ err' = err \cup {<<"C08", "move names an unknown node">>}
                 /\ UNCHANGED evars
            ELSE
            /\ err' = err
                 \cup Flag(x \in mov, "C08", "move of a node that did not change place, is not paired, is inside an opaque node, or was moved already")
                 \cup Flag(m[x] = o.b, "C08", "move names a wrong partner")
                 \cup Flag(o.p = B.par[o.b], "C08", "move to a wrong parent")
                 \cup Flag(o.i = B.pos[o.b], "C08", "move to a wrong index")
                 \cup Flag(x \notin OpaqueDesc(A) /\ o.b \notin OpaqueDesc(B), "C05", "move inside an opaque node")
                 \cup Flag(Live(Image(o.p)), "C10", "move to a parent that is not in the tree")
                 \cup Flag(Live(x), "C10", "move of a node that is gone")
                 \cup Flag(~Within(Image(o.p), x), "C10", "move of a node below itself")
            /\ loc' = Place(x, Image(o.p), o.i)
            /\ mov' = mov \ {x}
            /\ UNCHANGED <<c, text, prop, ins, del, txt, prp>>

TDelete == /\ At("D")
           /\ LET o == Ops[k]  x == o.a IN
              IF x \notin Nodes(A)
              THEN /\ err' = err \cup {<<"C07", "delete names an unknown node">>}
                   /\ UNCHANGED evars
              ELSE
              /\ err' = err
                   \cup Flag(x \in del, "C07", "delete of a node that is paired, inside an opaque node, or deleted already")
                   \cup Flag((Desc(A, x) \ {x}) \cap del = {}, "C07", "delete before the deletions below it")
                   \cup Flag(Desc(A, x) \cap mov = {}, "C07", "delete before a move out of the deleted region")
                   \cup Flag(x \notin OpaqueDesc(A), "C05", "delete inside an opaque node")
                   \cup Flag(Live(x), "C10", "delete of a node that is gone")
                   \cup Flag(NothingLost(x), "C10", "delete takes surviving nodes along")
              /\ loc' = [v \in DOMAIN loc |-> IF v = x \/ loc[v][1] = x THEN Gone ELSE loc[v]]
              /\ del' = del \ {x}
              /\ UNCHANGED <<c, text, prop, ins, mov, txt, prp>>

TText == /\ At("T")
         /\ LET o == Ops[k]  x == o.a IN
            IF x \notin Nodes(A) \/ o.b \notin Nodes(B)
            THEN /\ err' = err \cup {<<"C09", "text update names an unknown node">>}
                 /\ UNCHANGED evars
            ELSE
            /\ err' = err
                 \cup Flag(x \in txt, "C09", "text update without a text change, or repeated")
                 \cup Flag(m[x] = o.b, "C09", "text update names a wrong partner")
                 \cup Flag(o.t = B.txt[o.b], "C09", "text update with a wrong text")
                 \cup Flag(x \notin OpaqueDesc(A) /\ o.b \notin OpaqueDesc(B), "C05", "text update inside an opaque node")
                 \cup Flag(Live(x), "C10", "text update of a node that is gone")
            /\ text' = [text EXCEPT ![x] = o.t]
            /\ txt' = txt \ {x}
            /\ UNCHANGED <<c, loc, prop, ins, del, mov, prp>>

\* the property state that the listed changes produce from p; <<k, -1>> for "unchanged" of an absent key
Applied(p, ch) == [i \in 1..Len(ch) |->
                     IF ch[i][2] THEN (LET e == KeyOf(p, ch[i][1]) IN IF e = {} THEN <<ch[i][1], 0 - 1>> ELSE CHOOSE z \in e : TRUE)
                     ELSE <<ch[i][1], ch[i][3]>>]
\* recorded change <<key, same, value>>; the value of an unchanged one is not recorded (0)
Expected(x, y) == [i \in 1..Len(B.prp[y]) |-> LET e == PropDiff(A.prp[x], B.prp[y])[i] IN
                     <<e[1], e[2], IF e[2] THEN 0 ELSE e[3]>>]

TProps == /\ At("U")
          /\ LET o == Ops[k]  x == o.a IN
             IF x \notin Nodes(A) \/ o.b \notin Nodes(B)
             THEN /\ err' = err \cup {<<"C09", "property update names an unknown node">>}
                  /\ UNCHANGED evars
             ELSE
             /\ err' = err
                  \cup Flag(x \in prp, "C09", "property update without a difference, or repeated")
                  \cup Flag(m[x] = o.b, "C09", "property update names a wrong partner")
                  \cup Flag(o.c = Expected(x, o.b), "C09", "property update with wrong contents")
                  \cup Flag(x \notin OpaqueDesc(A) /\ o.b \notin OpaqueDesc(B), "C05", "property update inside an opaque node")
                  \cup Flag(Live(x), "C10", "property update of a node that is gone")
             /\ prop' = [prop EXCEPT ![x] = Applied(prop[x], o.c)]
             /\ prp' = prp \ {x}
             /\ UNCHANGED <<c, loc, text, ins, del, mov, txt>>

Next == TInsert \/ TMove \/ TDelete \/ TText \/ TProps
Spec == Init /\ [][Next]_tvars

End == k > Len(Ops)
InputsOk == k = 1 => WellFormed(A) /\ WellFormed(B) /\ R.id = Cases[c].id

Bad(P) == \E e \in err : e[1] \in {P, "ALL"}
C05 == ~Bad("C05")
C06 == ~Bad("C06") /\ (End => ins = {})
C07 == ~Bad("C07") /\ (End => del = {})
C08 == ~Bad("C08") /\ (End => mov = {})
C09 == ~Bad("C09") /\ (End => txt = {} /\ prp = {})
C10 == RootsPaired => ~Bad("C10") /\ (End => Shape /\ Contents)
C14 == /\ ~Bad("ALL") /\ ~Bad("C06") /\ ~Bad("C07")
       /\ End => ins = {} /\ del = {}
       /\ RootsPaired => ~Bad("C10") /\ (End => Shape)
=============================================================================
