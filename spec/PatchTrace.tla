----------------------------- MODULE PatchTrace -----------------------------
(***************************************************************************)
(* Binds Patch to recorded lists of patches and to what the two appliers,  *)
(* the native one and the browser's, made of them, patch by patch.         *)
(***************************************************************************)
EXTENDS Patch, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, old, new]: trees, or "none" for a document without body
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

VARIABLES c,     \* case
          k,     \* next patch
          sl,    \* slots
          err    \* set of <<property, reason>>
vars == <<c, k, sl, err>>

R   == Traces[c]
Ps  == R.patches
New == Cases[c].new
Old == R.start
Bodies == Cases[c].hasold /\ Cases[c].hasnew   \* both documents have a body
Flag(p, prop, why) == IF p THEN {} ELSE {<<prop, why>>}

Failures(r) == IF r.panic # "" THEN {<<"ALL", "panic">>} ELSE Flag(r.err = "", "H02", "diff gives an error")

Init == \E i \in 1..Len(Cases) :
          /\ c = i /\ k = 1
          /\ sl = IF Traces[i].panic # "" THEN << >> ELSE (0 :> Numbered(Traces[i].start))
          /\ err = Failures(Traces[i])

Is(p) == R.panic = "" /\ k <= Len(Ps) /\ Ps[k].p = p /\ k' = k + 1 /\ UNCHANGED c
Lost(why) == err' = err \cup {<<"H02", why>>} /\ UNCHANGED sl

\* a place to put something at: known, and either free or with a slot for what is there (an empty text need not be kept)
PlaceErr(s, p, slot) == Flag(Occupied(s, p) => slot >= 0 \/ IsFill(Node(s, Butlast(p)).c[Last(p) + 1]), "H02", "a node is overwritten")
                        \cup Flag(slot >= 0 /\ Occupied(s, p) => slot \notin DOMAIN s, "H02", "a slot in use is overwritten")

Insert == /\ Is("ins")
          /\ LET o == Ps[k] IN
             IF ~Place(sl, o.at) THEN Lost("insert at a place that is not there")
             ELSE /\ LET par == Node(sl, Butlast(o.at)) IN
                       sl' = InsertAt(sl, o.at, Typed(Annotate(o.tree), par.s, par.n), o.slot)
                  /\ err' = err \cup PlaceErr(sl, o.at, o.slot)
Remove == /\ Is("rm")
          /\ LET o == Ps[k] IN
             IF ~There(sl, o.at) \/ o.at = <<0>> THEN Lost("remove of a node that is not there")
             ELSE sl' = RemoveAt(sl, o.at) /\ UNCHANGED err
Move == /\ Is("mv")
        /\ LET o == Ps[k] IN
           IF ~There(sl, o.at) \/ o.at = <<0>> THEN Lost("move of a node that is not there")
           ELSE IF ~Place(TakeOut(sl, o.at), o.to) THEN Lost("move to a place that is not there")
           ELSE /\ sl' = MoveTo(sl, o.at, o.to, o.slot)
                /\ err' = err \cup PlaceErr(TakeOut(sl, o.at), o.to, o.slot)
SetText == /\ Is("text")
           /\ LET o == Ps[k] IN
              IF ~There(sl, o.at) \/ Node(sl, o.at).g \notin {"t", "c"} THEN Lost("text of a node that has none")
              ELSE sl' = TextAt(sl, o.at, o.text) /\ UNCHANGED err
Element(p) == There(sl, p) /\ Node(sl, p).g = "e"
SetAttr == /\ Is("set")
           /\ LET o == Ps[k]  e == o.props[1] IN
              IF ~Element(o.at) THEN Lost("attribute of a node that has none")
              ELSE sl' = AttrsAt(sl, o.at, SetIn(Node(sl, o.at).a, e[1], e[2], e[4])) /\ UNCHANGED err
UnsetAttr == /\ Is("unset")
             /\ LET o == Ps[k]  e == o.props[1] IN
                IF ~Element(o.at) THEN Lost("attribute of a node that has none")
                ELSE sl' = AttrsAt(sl, o.at, Unset(Node(sl, o.at).a, e[1])) /\ UNCHANGED err
Props == /\ Is("props")
         /\ LET o == Ps[k]  ch == o.props IN
            IF There(sl, o.at) /\ Node(sl, o.at).g \in {"t", "c"} /\ (ch = << >> \/ (Len(ch) = 1 /\ ch[1][1] = "#text"))    \* nothing, or the text, kept or new
              THEN sl' = (IF ch = << >> \/ ch[1][3] THEN sl ELSE TextAt(sl, o.at, ch[1][4])) /\ UNCHANGED err
            ELSE IF ~Element(o.at) \/ \E j \in 1..Len(ch) : ch[j][1] = "#text" THEN Lost("attributes of a node that has none")
            ELSE LET as == Node(sl, o.at).a IN
                 /\ sl' = AttrsAt(sl, o.at, Rebuilt(as, ch))
                 /\ err' = err \cup Flag(\A j \in 1..Len(ch) : ch[j][3] => AttrOf(as, ch[j][1]) # {}, "H06", "keeps a value that the element does not have")
                               \cup Flag(\A i, j \in 1..Len(ch) : ch[i][1] = ch[j][1] => i = j, "H06", "an attribute twice")
OpaqueChanged == /\ Is("opaque")
                 /\ LET o == Ps[k] IN
                    IF ~Element(o.at) THEN Lost("opaque content of a node that has none")
                    ELSE sl' = OpaqueAt(sl, o.at) /\ UNCHANGED err

Next == Insert \/ Remove \/ Move \/ SetText \/ SetAttr \/ UnsetAttr \/ Props \/ OpaqueChanged
Spec == Init /\ [][Next]_vars

End  == R.panic = "" /\ k > Len(Ps)
Sane == R.panic = "" /\ \A e \in err : e[1] \notin {"ALL", "H02"}
Bad(P) == \E e \in err : e[1] \in {P, "ALL"}
InputsOk == k = 1 => R.id = Cases[c].id /\ (Cases[c].diffed /\ Cases[c].hasnew => WellTyped(New))

\* the last applied patch, as recorded
Step  == k - 1
NatAt == R.nat[Step]
WebAt == R.wasm[Step]
SlotIn(ss, j) == {x \in 1..Len(ss) : ss[x].k = j}
Web == Cases[c].hasold     \* there is a page to patch

\* H01: the patches lead from the old body to the new one, and applying them gives it
H01 == /\ ~Bad("H01")
       /\ Sane /\ End /\ Bodies => Reaches(sl[0], New)
       /\ End => /\ R.err = ""
                 /\ R.api.err = ""
                 /\ IF Bodies THEN Becomes(R.api.t, New)
                    ELSE IF Cases[c].hasnew THEN     \* nothing to apply makes no body
                         IF R.api.t.g = "none" THEN Real(New.c) = << >> /\ New.a = << >> ELSE Becomes(R.api.t, New)
                    ELSE R.api.t.g = "none" \/ Real(R.api.t.c) = << >>

\* H02: no patch refers to what is not there, none overwrites anything, and neither applier gives an error
H02 == /\ ~Bad("H02")
       /\ R.panic = "" /\ Step \in 1..Len(R.nat) => NatAt.err = ""
       /\ R.panic = "" /\ Step \in 1..Len(R.wasm) => WebAt.err = ""
       /\ R.panic = "" => R.api.err = "" /\ R.wapi.err = ""

\* H03: no patches exactly when nothing differs
H03 == /\ ~Bad("H03")
       /\ R.panic = "" /\ R.err = "" /\ Bodies => (Ps = << >> <=> Same(Cases[c].old, New))

\* H05: opaque content
Kept(pr)    == pr[1].i # 0
Before(pr)  == LET s == Sub(Old, pr[1].i) IN IF s = << >> THEN pr[1] ELSE s[1]
Hits(j) == {x \in 1..Len(R.events) : R.events[x].step = j}
KeyOf(x) == LET K == {j \in 1..Len(x.a) : x.a[j][2] = "data-hotmeal-opaque"} IN x.a[CHOOSE j \in K : TRUE][3]
EventOk == LET o == Ps[Step] IN
   IF o.p # "opaque" THEN Hits(Step) = {}
   ELSE /\ Cardinality(Hits(Step)) = 1
        /\ LET e == R.events[CHOOSE x \in Hits(Step) : TRUE]  x == Node(sl, o.at) IN
           /\ e.at = o.at /\ e.kind = "hotmeal:opaque-changed" /\ e.bubbles /\ e.self
           /\ e.content = o.text
           /\ Opaque(x) /\ e.haskey /\ e.key = KeyOf(x)
           \* a page that sets the content as the element's inner HTML shows the new document
           /\ Reaches(sl[0], New) => \A pr \in OpaquePairs(sl[0], New) : pr[1].i = x.i => PageKids([x EXCEPT !.c = e.set], pr[2])
H05 == /\ ~Bad("H05")
       /\ Sane /\ Bodies /\ Web /\ Step \in 1..Len(R.wasm) /\ WebAt.err = "" => EventOk
       /\ Sane /\ End /\ Bodies /\ Reaches(sl[0], New) =>
            /\ \A pr \in OpaquePairs(sl[0], New) :
                 IF Kept(pr) THEN /\ pr[1].c = Numbered(Before(pr)).c
                                  /\ pr[1].o = (IF SameKids(Before(pr), pr[2]) THEN 0 ELSE 1)
                 ELSE pr[1].o = 0
            /\ Cardinality({j \in 1..Len(Ps) : Ps[j].p = "opaque"}) = Cardinality({pr \in OpaquePairs(sl[0], New) : pr[1].o > 0})
            /\ R.api.err = "" => Becomes(R.api.t, New)

\* H06: attribute lists
RECURSIVE AttrsOf(_)
AttrsOf(x) == <<x.a>> \o (LET ks == SelectSeq(x.c, LAMBDA y : y.g = "e")
                              RECURSIVE Cat(_)
                              Cat(s) == IF s = << >> THEN << >> ELSE AttrsOf(Head(s)) \o Cat(Tail(s))
                          IN Cat(ks))
H06 == /\ ~Bad("H06")
       /\ Sane /\ End /\ Bodies /\ R.api.err = "" =>
            /\ AttrsOf(R.api.t) = AttrsOf(New)
            /\ Len(R.wasm) = Len(Ps) /\ Ps # << >> /\ R.wasm[Len(Ps)].err = "" /\ ~Cases[c].opaque =>
                 AttrsOf(R.wapi.t) = AttrsOf(New)

\* W01: both appliers do what the patches mean, patch by patch
W01 == /\ ~Bad("W01")
       /\ Sane /\ Step \in 1..Len(R.nat) =>
            /\ NatAt.err = ""
            /\ \A j \in DOMAIN sl : SlotIn(NatAt.slots, j) # {} /\ \A x \in SlotIn(NatAt.slots, j) : Native(sl[j], NatAt.slots[x].t)
       /\ Sane /\ Step \in 1..Len(R.wasm) =>
            /\ WebAt.err = ""
            /\ \A j \in DOMAIN sl : SlotIn(WebAt.slots, j) # {} /\ \A x \in SlotIn(WebAt.slots, j) : Page(sl[j], WebAt.slots[x].t)
            /\ \A x \in 1..Len(WebAt.slots) : WebAt.slots[x].k \in DOMAIN sl
       /\ Sane /\ End /\ Web => /\ Len(R.wasm) = Len(Ps) /\ R.wapi.err = "" /\ R.wapi.n = Len(Ps) /\ Page(sl[0], [R.wapi.t EXCEPT !.i = 0])
       /\ Sane /\ End => /\ Len(R.nat) = Len(Ps) /\ R.api.err = "" /\ (R.api.t.g # "none" => Native(sl[0], R.api.t))

\* W02: the page keeps its nodes: what is not inserted is the node that was there
W02 == /\ ~Bad("W02")
       /\ Sane /\ Step \in 1..Len(R.wasm) /\ WebAt.err = "" =>
            \A j \in DOMAIN sl : \A x \in SlotIn(WebAt.slots, j) : Page(sl[j], WebAt.slots[x].t) => Identity(sl[j], WebAt.slots[x].t, Ids(Old))

\* H10: owned copies and what arrives at the other end of a wire are the same patches
H10 == R.panic = "" /\ R.err = "" => R.owned = Ps /\ R.wire = Ps

=============================================================================
