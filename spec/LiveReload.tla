----------------------------- MODULE LiveReload -----------------------------
(***************************************************************************)
(* A live-reload server and its browsers (hotmeal-server/src/lib.rs,       *)
(* hotmeal-wasm/src/lib.rs).                                               *)
(*                                                                         *)
(* The server remembers, per route, the page it last saw and the head      *)
(* injections it last saw.  A browser that was served a route shows a      *)
(* page; what the server sends is meant to keep it showing the latest one. *)
(*                                                                         *)
(* Pages and head injections are numbers; 0 = none.  Two pages may have    *)
(* the same body (SameBody) or the same head (SameHead).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS SameBody(_, _), SameHead(_, _), Empty   \* Empty: the head injections that inject nothing

VARIABLES page,    \* route |-> page in the cache
          inj,     \* route |-> head injections in the cache
          shown    \* route |-> page that the browser on that route shows
lvars == <<page, inj, shown>>

LInit(routes) == page = [r \in routes |-> 0] /\ inj = [r \in routes |-> 0] /\ shown = [r \in routes |-> 0]

\* The event for a new page h on route r: "none" nothing to do, "reload", "patches"
Diff(r, h) == IF page[r] = 0 THEN "reload"
              ELSE IF page[r] = h THEN "none"
              ELSE IF SameBody(page[r], h) THEN "none"
              ELSE "patches"
HeadChanged(r, x) == IF inj[r] = 0 THEN x # Empty ELSE inj[r] # x
DiffHead(r, h, x) == IF HeadChanged(r, x) THEN "head" ELSE Diff(r, h)

\* a browser follows whatever it is sent; one that is sent nothing keeps what it shows
Follow(r, h, ev) == shown' = IF shown[r] = 0 \/ ev = "none" THEN shown ELSE [shown EXCEPT ![r] = h]

Serve(r, h)  == page' = [page EXCEPT ![r] = h] /\ shown' = [shown EXCEPT ![r] = h] /\ UNCHANGED inj
Inject(r, x) == inj' = [inj EXCEPT ![r] = x] /\ UNCHANGED <<page, shown>>
Forget(r)    == page' = [page EXCEPT ![r] = 0] /\ inj' = [inj EXCEPT ![r] = 0] /\ UNCHANGED shown
Clear        == page' = [r \in DOMAIN page |-> 0] /\ inj' = [r \in DOMAIN inj |-> 0] /\ UNCHANGED shown
Change(r, h) == page' = [page EXCEPT ![r] = h] /\ UNCHANGED inj /\ Follow(r, h, Diff(r, h))
ChangeHead(r, h, x) == /\ page' = [page EXCEPT ![r] = h] /\ inj' = [inj EXCEPT ![r] = x]
                       /\ Follow(r, h, DiffHead(r, h, x))

Cached == {r \in DOMAIN page : page[r] # 0}
\* While a route is in the cache, its browser shows a page with the cached page's body.
InStep == \A r \in DOMAIN page : page[r] # 0 /\ shown[r] # 0 => SameBody(shown[r], page[r])
=============================================================================
