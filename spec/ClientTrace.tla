----------------------------- MODULE ClientTrace ----------------------------
(* Binds Client to recorded histories of the real client and the real server. *)
EXTENDS Client, Mount, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, docs: [body, html, head], heads, routes, url, sel, steps: [o, ok, r, h, x, e]]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, steps: [ev, reloads, waits, open, t]]
VARIABLES c, k
vars == <<all, c, k>>
Docs == Cases[c].docs
SameB(p, q) == p = q \/ Same(Docs[p].body, Docs[q].body)
SameH(p, q) == p = q \/ Docs[p].head = Docs[q].head
NoHead == 1     \* heads[1] is the empty text
Ops == Cases[c].steps
Op == Ops[k]
R == Traces[c]
Is(o) == R.panic = "" /\ k <= Len(Ops) /\ Op.o = o /\ k' = k + 1 /\ UNCHANGED <<c, cont>>
Ok == Op.ok = 1
Init == \E i \in 1..Len(Cases) : c = i /\ k = 1 /\ CInit(1..Len(Cases[i].routes), 1) /\ MInit
Next == \/ Is("load") /\ Load(Op.r, Op.h)
        \/ Is("nav") /\ Nav(Op.r, Op.h)
        \/ Is("connect") /\ Connect(Ok)
        \/ Is("shake") /\ Shake(Ok)
        \/ Is("ack") /\ Ack(Ok)
        \/ Is("drop") /\ Drop(Ok)
        \/ Is("wake") /\ Wake
        \/ Is("change") /\ Changes(Op.r, Op.h)
        \/ Is("changeh") /\ ChangesHead(Op.r, Op.h, Op.x)
        \/ Is("send") /\ (IF Op.e = "junk" THEN Junk ELSE Hello)
Spec == Init /\ [][Next]_<<vars, cont>>
InputsOk == /\ Cases[c].id = R.id
            /\ \A i \in 1..Len(Cases[c].heads) : (Cases[c].heads[i] = "") <=> i = NoHead
            /\ \A i, j \in 1..Len(Docs) : i # j => Docs[i].html # Docs[j].html
            /\ R.panic = "" /\ k <= Len(Ops) => ENABLED Next      \* the script fits the specification
Design == InStepHere /\ Waits

\* after step k - 1
Res == R.steps[k - 1]
Did == Ops[k - 1]
Expected == CASE ph = "connect"   -> << <<"connect", Cases[c].url>> >>
              [] ph = "handshake" -> << <<"handshake", "">> >>
              [] ph = "subscribe" -> << <<"call", "subscribe " \o Cases[c].routes[here]>> >>
              [] ph = "sleep"     -> << <<"sleep", ToString(nap * 1000)>> >>
              [] OTHER            -> << >>
Where == Found(Res.t, Cases[c].sel)
Holds(b) == LET p == Real(Where[1].c)  q == Real(b.c) IN Len(p) = Len(q) /\ \A j \in 1..Len(p) : Page2(p[j], q[j])
W04 == /\ R.panic = ""
       /\ k > 1 /\ R.panic = "" =>
            /\ Res.waits = Expected
            /\ Res.open = (IF Open THEN 1 ELSE 0)
            /\ ph # "off" => Where # << >> /\ Holds(Docs[shown[here]].body)
            /\ Res.reloads = (IF told THEN 1 ELSE 0)
            /\ Did.o \in {"change", "changeh"} => Res.ev \in {"none", "reload", "head", "patches"}
=============================================================================
