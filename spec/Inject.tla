------------------------------- MODULE Inject -------------------------------
(***************************************************************************)
(* Where inject_into_head (hotmeal-server/src/lib.rs) puts its content:    *)
(* right behind the <head> tag.  A scan of the page, character by          *)
(* character: comments and quoted attribute values are skipped.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, html, content]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, out]
VARIABLES c, pos, mode, quote, place     \* place: the position that the content goes before, 0 = not found yet
vars == <<c, pos, mode, quote, place>>
M == INSTANCE Markup WITH txt <- Cases[c].html, open <- << >>, buf <- "", nm <- "", at <- << >>, an <- "", dt <- << >>, bad <- ""
Init == \E i \in 1..Len(Cases) : c = i /\ pos = 1 /\ mode = "data" /\ quote = "" /\ place = 0
Go(p, m) == pos' = p /\ mode' = m /\ UNCHANGED c
HeadTag == M!AheadLow("<head") /\ M!Cut(pos + 5, pos + 5) \in M!Space \cup {">", "/"}
Next == /\ pos <= Len(Cases[c].html) /\ place = 0
        /\ CASE mode = "data" /\ M!Ahead("<!--") -> Go(pos + 4, "comment") /\ UNCHANGED <<quote, place>>
             [] mode = "data" /\ HeadTag -> Go(pos + 5, "tag") /\ UNCHANGED <<quote, place>>
             [] mode = "data" -> Go(pos + 1, mode) /\ UNCHANGED <<quote, place>>
             [] mode = "comment" /\ M!Ahead("-->") -> Go(pos + 3, "data") /\ UNCHANGED <<quote, place>>
             [] mode = "comment" -> Go(pos + 1, mode) /\ UNCHANGED <<quote, place>>
             [] mode = "tag" /\ quote # "" -> Go(pos + 1, mode) /\ quote' = (IF M!Ch = quote THEN "" ELSE quote) /\ UNCHANGED place
             [] mode = "tag" /\ M!Ch \in {"\"", "'"} -> Go(pos + 1, mode) /\ quote' = M!Ch /\ UNCHANGED place
             [] mode = "tag" /\ M!Ch = ">" -> Go(pos + 1, mode) /\ place' = pos + 1 /\ UNCHANGED quote
             [] OTHER -> Go(pos + 1, mode) /\ UNCHANGED <<quote, place>>
Spec == Init /\ [][Next]_vars
InputsOk == Cases[c].id = Traces[c].id
Done == place # 0 \/ pos > Len(Cases[c].html)
\* without a <head> tag the content goes first
Split == IF place = 0 THEN 0 ELSE place - 1
S03 == /\ Traces[c].panic = ""
       /\ Done => LET p == Cases[c].html IN Traces[c].out = SubSeq(p, 1, Split) \o Cases[c].content \o SubSeq(p, Split + 1, Len(p))
=============================================================================
