------------------------------ MODULE LiveTrace -----------------------------
(* Binds LiveReload to recorded histories of the real server with native and browser-side clients. *)
EXTENDS LiveReload, Patch, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, docs: [body, html, head], heads: [text], routes, steps: [o, r, h, x]]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)
VARIABLES c, k
vars == <<lvars, c, k>>
Docs == Cases[c].docs
SameB(p, q) == p = q \/ Same(Docs[p].body, Docs[q].body)
SameH(p, q) == p = q \/ Docs[p].head = Docs[q].head
NoHead == 1     \* heads[1] is the empty text
Op == Cases[c].steps[k]
Is(o) == k <= Len(Cases[c].steps) /\ Op.o = o /\ k' = k + 1 /\ UNCHANGED c
Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ LInit(1..Len(Cases[i].routes))
Next == \/ Is("serve") /\ Serve(Op.r, Op.h)
        \/ Is("head") /\ Inject(Op.r, Op.x)
        \/ Is("rm") /\ Forget(Op.r)
        \/ Is("clear") /\ Clear
        \/ Is("diff") /\ Change(Op.r, Op.h)
        \/ Is("diffh") /\ ChangeHead(Op.r, Op.h, Op.x)
Spec == Init /\ [][Next]_vars
InputsOk == /\ Cases[c].id = Traces[c].id
            /\ \A i \in 1..Len(Cases[c].heads) : (Cases[c].heads[i] = "") <=> i = NoHead
            /\ \A i, j \in 1..Len(Docs) : i # j => Docs[i].html # Docs[j].html

R == Traces[c]
Done == R.panic = "" /\ k <= Len(Cases[c].steps)     \* Op is about to happen; its outcome:
Res == R.steps[k]
Routes == Cases[c].routes
Events == Op.o \in {"diff", "diffh"}
Want == IF Op.o = "diff" THEN Diff(Op.r, Op.h) ELSE DiffHead(Op.r, Op.h, Op.x)
\* pages that differ in the head only: nothing in a list of patches can say so; a reload is right, too
HeadOnly == Want = "none" /\ page[Op.r] # Op.h /\ ~SameH(page[Op.r], Op.h)

\* S01: the server's decision
S01 == /\ R.panic = ""
       /\ Done /\ Events =>
            /\ Res.ev = Want \/ (HeadOnly /\ Res.ev = "reload")
            /\ Res.ev \in {"patches", "head"} => Res.route = Routes[Op.r]
            /\ Res.ev = "patches" => Res.n > 0
            /\ Res.wire = ""
\* S02: the caches' own interface
Names(S) == {Routes[i] : i \in S}
S02 == /\ R.panic = ""
       /\ Done => /\ (Op.o = "serve" => /\ Res.had = (page[Op.r] # 0)
                                        /\ Res.prev = (IF page[Op.r] # 0 THEN Docs[page[Op.r]].html ELSE ""))
                  /\ (Op.o = "head" => Res.flag = HeadChanged(Op.r, Op.x))
                  /\ (Op.o = "rm" => Res.flag = (page[Op.r] # 0 \/ inj[Op.r] # 0))
       /\ k > 1 /\ R.panic = "" => LET q == R.steps[k - 1].routes IN
            {q[i] : i \in 1..Len(q)} = Names(Cached) /\ Len(q) = Cardinality(Cached)
\* H04: every browser shows the latest page
H04 == /\ R.panic = ""
       /\ Done /\ Events /\ shown[Op.r] # 0 /\ (page[Op.r] # 0 => SameB(shown[Op.r], page[Op.r])) =>
            /\ Res.err = "" /\ Res.werr = ""
            /\ Becomes(Res.cl, Docs[Op.h].body)
            /\ Page2(Res.wcl, Docs[Op.h].body)
Design == \A r \in DOMAIN page : page[r] # 0 /\ shown[r] # 0 => SameB(shown[r], page[r])
=============================================================================
