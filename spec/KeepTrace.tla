------------------------------ MODULE KeepTrace -----------------------------
(***************************************************************************)
(* Which nodes of a page survive an update: exactly those that the         *)
(* documented matching (GumTree) of the two bodies pairs, minus pairs with *)
(* one opaque side and pairs inside opaque nodes, plus the bodies.  The    *)
(* hotmeal instance: kind = tag and namespace, text or comment; hash =     *)
(* kind, text and children, without attributes; similarity = Dice over the *)
(* attributes' names; minimum height 0; threshold one half.                *)
(***************************************************************************)
EXTENDS GumTree, TLC, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, a, b, th, mh]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, start, patches, wasm ...]
TheCase(i) == Cases[i]
R == Traces[c]

\* replaces Forest's Similar
Keys(p) == {e[1] : e \in Range(p)}
NameDice(p, q, th) == (p = << >> /\ q = << >>) \/ 200 * Cardinality(Keys(p) \cap Keys(q)) >= th * (Len(p) + Len(q))

\* replaces GumTree's RootSet: the new body has a parent in its document, so it is not taken for a root here; the
\* bodies are paired at the end whatever the matching says
NoRoots(x) == {}

Init == \E i \in 1..Len(Cases) : InitCase(i)
Spec == Init /\ [][GumNext]_gvars

InputsOk == pc = "start" => /\ WellFormed(A) /\ WellFormed(B) /\ MerkleSound(A, B) /\ R.id = CaseOf(c).id
                            /\ Th = 50 /\ Mh = 0 /\ A.kind[1] = B.kind[1]
Design   == OneToOneOf(m, w) /\ KindKept(m)

\* the pairs that count
Counts(x) == x = 1 \/ (m[x] # 0 /\ A.opq[x] = B.opq[m[x]] /\ m[x] \notin OpaqueDesc(B))
Partner(x) == IF x = 1 /\ (m[1] = 0 \/ A.opq[1] # B.opq[m[1]]) THEN 1 ELSE m[x]

Real(k) == SelectSeq(k, LAMBDA x : ~(x.g = "t" /\ x.t = ""))
RECURSIVE Flat(_), Cat(_)
Flat(x) == <<x.i>> \o Cat(x.c)
Cat(s) == IF s = << >> THEN << >> ELSE Flat(Head(s)) \o Cat(Tail(s))
OldIds == Flat(R.start)                       \* identity of each node of the old page
\* <<node of the new body, identity in the page>>, not looking into opaque nodes that stayed
RECURSIVE Seen(_, _)
Seen(x, y) == {<<y, x.i>>} \cup
   (IF B.opq[y] /\ x.i \in Range(OldIds) THEN {} ELSE
    LET k == Real(x.c) IN IF Len(k) # Len(B.ch[y]) THEN {<<0, 0>>} ELSE UNION {Seen(k[j], B.ch[y][j]) : j \in 1..Len(k)})
Final == IF R.patches = << >> THEN R.start
         ELSE LET s == R.wasm[Len(R.wasm)].slots IN s[CHOOSE j \in 1..Len(s) : s[j].k = 0].t
Stays == R.err = "" /\ (R.patches # << >> => R.wasm # << >> /\ R.wasm[Len(R.wasm)].err = "" /\ \E j \in 1..Len(R.wasm[Len(R.wasm)].slots) : R.wasm[Len(R.wasm)].slots[j].k = 0)
H12 == pc = "done" =>
         /\ R.panic = "" /\ Stays
         /\ LET S == Seen(Final, 1) IN
            <<0, 0>> \in S \/       \* not the new body: H01's business
            /\ Len(OldIds) = Len(A.par)
            /\ \A e \in S : IF \E x \in Nodes(A) : Counts(x) /\ Partner(x) = e[1]
                              THEN e[2] = OldIds[CHOOSE x \in Nodes(A) : Counts(x) /\ Partner(x) = e[1]]
                              ELSE e[2] \notin Range(OldIds)
=============================================================================
