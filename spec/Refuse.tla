------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* Lists of patches that do not fit: made for another document, or broken  *)
(* on the way.  Patch says what each patch needs; the first one that lacks *)
(* it is refused, and all is as the patches before it have left it.        *)
(***************************************************************************)
EXTENDS PatchTrace

\* A list that fits may still put something where something is without saying where that goes, or into a slot in use, or
\* keep a value that is not there (which is then empty): what was there before is lost.
Lossy == {"a node is overwritten", "a slot in use is overwritten", "keeps a value that the element does not have"}
\* what two attributes of the same name mean is left open
Open == \E e \in err : e[2] = "an attribute twice"
Refused == ~Open /\ \E e \in err : e[2] \notin Lossy
RNext == ~Open /\ ~Refused /\ Next
RSpec == Init /\ [][RNext]_vars

OkNat(a) == \A j \in DOMAIN sl : SlotIn(a.slots, j) # {} /\ \A x \in SlotIn(a.slots, j) : Native(sl[j], a.slots[x].t)
OkWeb(a) == /\ \A j \in DOMAIN sl : SlotIn(a.slots, j) # {} /\ \A x \in SlotIn(a.slots, j) : Page(sl[j], a.slots[x].t) /\ Identity(sl[j], a.slots[x].t, Ids(Old))
            /\ \A x \in 1..Len(a.slots) : a.slots[x].k \in DOMAIN sl
H13 == /\ R.panic = "" /\ ~R.crash
       /\ ~Open =>
            /\ Step \in 1..Len(Ps) =>
                 /\ Step <= Len(R.nat) /\ (NatAt.err # "" <=> Refused) /\ OkNat(NatAt)
                 /\ Step <= Len(R.wasm) /\ (WebAt.err # "" <=> Refused) /\ OkWeb(WebAt)
            /\ Refused \/ End => /\ (R.api.err # "" <=> Refused) /\ Native(sl[0], R.api.t)
                                 /\ (R.wapi.err # "" <=> Refused) /\ Page(sl[0], [R.wapi.t EXCEPT !.i = 0])
=============================================================================
