------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The live-reload client of one browser (hotmeal-wasm/src/lib.rs,         *)
(* module live_reload) together with the server of LiveReload.             *)
(*                                                                         *)
(* The client connects, shakes hands, subscribes for the path of its page, *)
(* and follows the events it is sent until the connection ends.  Whatever  *)
(* goes wrong, it waits and starts again; the waits double up to a limit   *)
(* and start over after a session that was established.  An event that     *)
(* cannot be applied does not end the session.  A reload starts the client *)
(* anew on the page that the server has now.                               *)
(*                                                                         *)
(* What a browser misses while it is not subscribed is lost; whoever runs  *)
(* the server tells it to reload when it is back (Hello).                  *)
(***************************************************************************)
EXTENDS LiveReload
VARIABLES here,    \* the route of the browser
          ph,      \* "off", "connect", "handshake", "subscribe", "live", "sleep"
          wait,    \* how long the next wait is (ms)
          nap,     \* how long this one is
          stale,   \* the page may differ from the server's: an event was missed
          told     \* the page was just told to reload
cvars == <<here, ph, wait, nap, stale, told>>
all == <<lvars, cvars>>
Shortest == 100
Longest  == 5000
Min(a, b) == IF a < b THEN a ELSE b

CInit(routes, first) == LInit(routes) /\ here = first /\ ph = "off" /\ wait = Shortest /\ nap = 0 /\ stale = FALSE /\ told = FALSE
Open == ph \in {"subscribe", "live"}     \* events get through
Same1 == UNCHANGED <<lvars, here, stale>> /\ told' = FALSE
Boot == ph' = "connect" /\ wait' = Shortest /\ nap' = 0 /\ stale' = FALSE
Rest(w) == ph' = "sleep" /\ nap' = w /\ wait' = Min(2 * w, Longest)

\* the user opens a page
Load(r, h) == Serve(r, h) /\ here' = r /\ Boot /\ told' = FALSE
\* the page's own scripts fetch and show another route, without loading anything anew; the client subscribes for it
\* when it connects next (while it is subscribed for the old route, this is not described)
Nav(r, h)  == ph \notin {"off", "subscribe", "live"} /\ Serve(r, h) /\ here' = r /\ stale' = FALSE /\ told' = FALSE /\ UNCHANGED <<ph, wait, nap>>
Connect(ok)   == ph = "connect" /\ Same1 /\ IF ok THEN ph' = "handshake" /\ UNCHANGED <<wait, nap>> ELSE Rest(wait)
Shake(ok)     == ph = "handshake" /\ Same1 /\ IF ok THEN ph' = "subscribe" /\ UNCHANGED <<wait, nap>> ELSE Rest(wait)
Ack(ok)       == ph = "subscribe" /\ Same1 /\ IF ok THEN ph' = "live" /\ UNCHANGED <<wait, nap>> ELSE Rest(wait)
\* the connection ends; a session that was established has ended well, however the connection ended
Drop(ok)      == \/ ph = "subscribe" /\ Same1 /\ Rest(wait)
                 \/ ph = "live" /\ Same1 /\ Rest(Shortest)
Wake          == ph = "sleep" /\ Same1 /\ ph' = "connect" /\ UNCHANGED <<wait, nap>>

\* the browser loads what the server has for its route
Reload == shown' = [shown EXCEPT ![here] = page'[here]] /\ Boot /\ told' = TRUE /\ UNCHANGED here
Keep(ev, r) == UNCHANGED <<shown, here, ph, wait, nap>> /\ told' = FALSE /\ stale' = (stale \/ (r = here /\ ev # "none" /\ ph # "off"))
\* the server finds that route r has page h now and tells whoever is subscribed
News(r, h, ev) == IF r # here \/ ~Open \/ ev = "none" THEN Keep(ev, r)
                  ELSE IF ev = "patches" THEN ~stale /\ shown' = [shown EXCEPT ![r] = h] /\ told' = FALSE /\ UNCHANGED <<here, ph, wait, nap, stale>>
                  ELSE Reload
Changes(r, h)        == page' = [page EXCEPT ![r] = h] /\ UNCHANGED inj /\ News(r, h, Diff(r, h))
ChangesHead(r, h, x) == page' = [page EXCEPT ![r] = h] /\ inj' = [inj EXCEPT ![r] = x] /\ News(r, h, DiffHead(r, h, x))
\* whoever runs the server sends an event of its own
Hello == Open /\ UNCHANGED <<page, inj>> /\ Reload
Junk  == Open /\ told' = FALSE /\ UNCHANGED <<lvars, here, ph, wait, nap, stale>>

InStepHere == ph # "off" /\ ~stale => shown[here] # 0 /\ SameBody(shown[here], page[here])
Waits == wait \in Shortest..Longest /\ (ph = "sleep" => nap \in Shortest..Longest /\ wait = Min(2 * nap, Longest))
=============================================================================
