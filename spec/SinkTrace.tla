------------------------------ MODULE SinkTrace -----------------------------
(* Binds Sink to recorded runs: lists of parser calls made on the real sink, and the document that came out. *)
EXTENDS Sink, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, input, hasdt: the input has a doctype, calls: [o, ...; texts as v]]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, root, all, body, doctype, hasdt, errors, names]
VARIABLES c, k
vars == <<kvars, c, k>>
Op == Cases[c].calls[k]
H(i) == hs[i + 1]
Is(o) == k <= Len(Cases[c].calls) /\ Op.o = o /\ k' = k + 1 /\ UNCHANGED c
Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ KInit
Next == \/ Is("element") /\ MakeNode(DataOf("e", Op.n, Op.s, "", Op.a))
        \/ Is("comment") /\ MakeNode(DataOf("c", "", "h", Op.v, << >>))
        \/ Is("doctype") /\ Doctype(Op.v)
        \/ Is("append") /\ AddNode(H(Op.x), H(Op.y))
        \/ Is("appendt") /\ AddText(H(Op.x), Op.v)
        \/ Is("before") /\ NodeBefore(H(Op.x), H(Op.y))
        \/ Is("beforet") /\ TextBefore(H(Op.x), Op.v)
        \/ Is("based") /\ NodeBased(H(Op.x), H(Op.y), H(Op.z))
        \/ Is("basedt") /\ TextBased(H(Op.x), H(Op.y), Op.v)
        \/ Is("attrs") /\ AddMissing(H(Op.x), Op.a)
        \/ Is("remove") /\ Leave(H(Op.x))
        \/ Is("reparent") /\ Adopt(H(Op.x), H(Op.y))
        \/ Is("error") /\ ParseError(Op.v)
        \/ Is("name") /\ AskName(H(Op.x))
Spec == Init /\ [][Next]_vars
InputsOk == Cases[c].id = Traces[c].id /\ (k <= Len(Cases[c].calls) => ENABLED Next)
Design == Forest /\ Attributes
R == Traces[c]
H08 == /\ R.panic = ""
       /\ k > Len(Cases[c].calls) =>
            /\ R.all = TreeOf(1)
            /\ R.root = TreeOf(Root)
            /\ IF Bodies(Root) = << >> THEN R.body.g = "none" ELSE R.body = TreeOf(Bodies(Root)[1])
            /\ R.hasdt = (doctype # << >> /\ Cases[c].hasdt)
            /\ R.hasdt => R.doctype = doctype[1]
            /\ R.errors = errors
            /\ R.names = names
=============================================================================
