------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* A reader of the loader script (loader_script, hotmeal-server/src/       *)
(* lib.rs) the way a browser reads it: first the HTML around it (the start *)
(* tag, and where the script ends, with the states that <!-- and <script   *)
(* bring about), then the JavaScript inside, token by token.  What the     *)
(* strings in it evaluate to is what the page will load.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases  == ndJsonDeserialize(IOEnv.VP_CASES)     \* [id, js, wasm, sel, ws, chars, pairs]
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)    \* [id, panic, out]
VARIABLES c, pos,
          mode,    \* tag | html | between | word | str | line | block | done | bad
          depth,   \* html: 0 plain, 1 behind <!--, 2 behind <!-- and <script
          last,    \* where the content of the script ends
          first,   \* where it starts
          buf,     \* the word or string so far
          quote,   \* what ends the string
          tokens, why
vars == <<c, pos, mode, depth, last, first, buf, quote, tokens, why>>
txt == Traces[c].out
M == INSTANCE Markup WITH open <- << >>, nm <- "", at <- << >>, an <- "", dt <- << >>, bad <- ""
Space == {" ", "\t", "\n", "\r", "\f"}
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
Word == {SubSeq(Letters, i, i) : i \in 1..52} \cup {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_", "$"}
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
Ch == SubSeq(txt, pos, pos)
Cut(a, b) == M!Cut(a, b)
Ahead(s) == M!Ahead(s)
Ends(p) == Cut(p, p) \in Space \cup {"/", ">"}
\* characters that end a line in JavaScript: in a string they are not allowed, or continue it behind a backslash
Lines == {"\n", "\r"}

Init == \E i \in 1..Len(Cases) : /\ c = i /\ pos = 1 /\ mode = "tag" /\ depth = 0 /\ last = 0 /\ first = 0 /\ buf = "" /\ quote = "" /\ tokens = << >> /\ why = Traces[i].panic
Go(p, m) == pos' = p /\ mode' = m
Bad(w) == why' = w /\ Go(pos, "bad") /\ UNCHANGED <<c, depth, last, first, buf, quote, tokens>>
\* the start tags that make it a module with its code inside
Tags == {"<script type=\"module\">", "<script type='module'>", "<script type=module>"}
Tag == /\ mode = "tag"
       /\ IF Ch \in Space THEN Go(pos + 1, "tag") /\ UNCHANGED <<first, why>>
          ELSE LET t == {x \in Tags : M!AheadLow(x)} IN
               IF t = {} THEN why' = "no module" /\ Go(pos, "bad") /\ UNCHANGED first
               ELSE LET x == CHOOSE x \in t : TRUE IN Go(pos + Len(x), "html") /\ first' = pos + Len(x) /\ UNCHANGED why
       /\ UNCHANGED <<c, depth, last, buf, quote, tokens>>
\* where the script ends
Html == /\ mode = "html"
        /\ UNCHANGED <<c, first, buf, quote, tokens>>
        /\ IF pos > Len(txt) THEN why' = "the script does not end" /\ Go(pos, "bad") /\ UNCHANGED <<depth, last>>
           ELSE IF Ch \notin {"<", "-"} THEN Go(pos + 1, "html") /\ UNCHANGED <<depth, last, why>>
           ELSE IF depth < 2 /\ M!AheadLow("</script") /\ Ends(pos + 8) THEN
                \* the end tag: nothing but white space may follow it
                /\ last' = pos - 1 /\ UNCHANGED depth
                /\ IF Cut(pos + 8, pos + 8) = ">" /\ \A i \in pos + 9..Len(txt) : SubSeq(txt, i, i) \in Space THEN Go(first, "between") /\ UNCHANGED why
                   ELSE why' = "the script ends early" /\ Go(pos, "bad")
           ELSE /\ UNCHANGED <<last, why>>
                /\ CASE depth = 0 /\ Ahead("<!--") -> Go(pos + 2, "html") /\ depth' = 1      \* (<!--> ends it again)
                     [] depth > 0 /\ Ahead("-->") -> Go(pos + 3, "html") /\ depth' = 0
                     [] depth = 1 /\ M!AheadLow("<script") /\ Ends(pos + 7) -> Go(pos + 8, "html") /\ depth' = 2
                     [] depth = 2 /\ M!AheadLow("</script") /\ Ends(pos + 8) -> Go(pos + 9, "html") /\ depth' = 1
                     [] OTHER -> Go(pos + 1, "html") /\ UNCHANGED depth
Over == pos > last
Between ==
  /\ mode = "between" /\ ~Over
  /\ UNCHANGED <<c, depth, last, first, why>>
  /\ CASE Ch \in Space -> Go(pos + 1, mode) /\ UNCHANGED <<buf, quote, tokens>>
       [] Ahead("//") -> Go(pos + 2, "line") /\ UNCHANGED <<buf, quote, tokens>>
       [] Ahead("/*") -> Go(pos + 2, "block") /\ UNCHANGED <<buf, quote, tokens>>
       [] Ch \in {"\"", "'", "`"} -> Go(pos + 1, "str") /\ buf' = "" /\ quote' = Ch /\ UNCHANGED tokens
       [] Ch \in Word -> Go(pos + 1, "word") /\ buf' = Ch /\ UNCHANGED <<quote, tokens>>
       [] Ch = ";" -> Go(pos + 1, mode) /\ UNCHANGED <<buf, quote, tokens>>
       [] OTHER -> Go(pos + 1, mode) /\ tokens' = Append(tokens, [k |-> "p", v |-> Ch]) /\ UNCHANGED <<buf, quote>>
InWord == /\ mode = "word" /\ UNCHANGED <<c, depth, last, first, quote, why>>
          /\ IF ~Over /\ Ch \in Word THEN Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED tokens
             ELSE Go(pos, "between") /\ tokens' = Append(tokens, [k |-> "w", v |-> buf]) /\ UNCHANGED buf
Comment == /\ mode \in {"line", "block"} /\ ~Over /\ UNCHANGED <<c, depth, last, first, buf, quote, tokens, why>>
           /\ IF mode = "line" /\ Ch \in Lines THEN Go(pos + 1, "between")
              ELSE IF mode = "block" /\ Ahead("*/") THEN Go(pos + 2, "between")
              ELSE Go(pos + 1, mode)
\* the character with that code (the case says which characters its strings are made of), "" if it is another
CharOf(code) == IF code \in DOMAIN Cases[c].chars THEN Cases[c].chars[code] ELSE ""
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
HexAt(a, b) == LET s == M!Lower(Cut(a, b)) IN IF s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Hex THEN Strip(s) ELSE "none"
Simple == [n |-> "\n", r |-> "\r", t |-> "\t", f |-> "\f"]
\* the escape at pos: what it stands for and where it ends
Brace == CHOOSE i \in 1..9 : i = 9 \/ (Cut(pos + 2 + i, pos + 2 + i) = "}" /\ \A j \in 1..i - 1 : Cut(pos + 2 + j, pos + 2 + j) # "}")
Escape == LET e == Cut(pos + 1, pos + 1)
              high == HexAt(pos + 2, pos + 5)
          IN CASE e = "u" /\ Cut(pos + 2, pos + 2) = "{" -> [v |-> CharOf(HexAt(pos + 3, pos + 1 + Brace)), p |-> pos + 3 + Brace, ok |-> Brace < 9 /\ HexAt(pos + 3, pos + 1 + Brace) # "none"]
               [] e = "u" /\ high \in DOMAIN Cases[c].pairs ->        \* two halves of one character
                    LET k == HexAt(pos + 8, pos + 11) IN [v |-> IF Cut(pos + 6, pos + 7) = "\\u" /\ k \in DOMAIN Cases[c].pairs[high] THEN Cases[c].pairs[high][k] ELSE "", p |-> pos + 12, ok |-> TRUE]
               [] e = "u" -> [v |-> CharOf(high), p |-> pos + 6, ok |-> high # "none"]
               [] e = "x" -> [v |-> CharOf(HexAt(pos + 2, pos + 3)), p |-> pos + 4, ok |-> HexAt(pos + 2, pos + 3) # "none"]
               [] e \in DOMAIN Simple -> [v |-> Simple[e], p |-> pos + 2, ok |-> TRUE]
               [] e = "b" -> [v |-> CharOf("8"), p |-> pos + 2, ok |-> TRUE]
               [] e = "v" -> [v |-> CharOf("b"), p |-> pos + 2, ok |-> TRUE]
               [] e = "0" -> [v |-> CharOf("0"), p |-> pos + 2, ok |-> Cut(pos + 2, pos + 2) \notin {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}]
               [] e \in {"1", "2", "3", "4", "5", "6", "7", "8", "9", ""} -> [v |-> "", p |-> pos + 2, ok |-> FALSE]
               [] e \in Lines -> [v |-> "", p |-> pos + 2, ok |-> TRUE]
               [] OTHER -> [v |-> e, p |-> pos + 2, ok |-> TRUE]
InStr == /\ mode = "str" /\ ~Over
         /\ CASE Ch = quote -> Go(pos + 1, "between") /\ tokens' = Append(tokens, [k |-> "s", v |-> buf]) /\ UNCHANGED <<c, depth, last, first, buf, quote, why>>
              [] Ch = "\\" -> IF Escape.ok THEN Go(Escape.p, mode) /\ buf' = buf \o Escape.v /\ UNCHANGED <<c, depth, last, first, quote, tokens, why>> ELSE Bad("no such escape")
              [] Ch \in Lines /\ quote # "`" -> Bad("a string over the end of the line")
              [] quote = "`" /\ Ahead("${") -> Bad("a template with a hole")
              [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<c, depth, last, first, quote, tokens, why>>
End == /\ Over /\ mode \in {"between", "line", "str", "block"}
       /\ IF mode \in {"str", "block"} THEN Bad("the script ends inside a string or comment") ELSE Go(pos, "done") /\ UNCHANGED <<c, depth, last, first, buf, quote, tokens, why>>
Next == Tag \/ Html \/ Between \/ InWord \/ Comment \/ InStr \/ End
Spec == Init /\ [][Next]_vars

W(v) == [k |-> "w", v |-> v]
P(v) == [k |-> "p", v |-> v]
S(v) == [k |-> "s", v |-> v]
\* what the script says, with the four values in their places
Meant == LET k == Cases[c] IN
         <<W("import"), W("init"), P(","), P("{"), W("start_live_reload"), P("}"), W("from"), S(k.js),
           W("await"), W("init"), P("("), S(k.wasm), P(")"),
           W("start_live_reload"), P("("), S(k.ws), P(","), S(k.sel), P(")")>>
InputsOk == Cases[c].id = Traces[c].id
S04 == /\ why = ""
       /\ mode = "done" => tokens = Meant
       /\ mode \notin {"done", "bad"} => ENABLED Next
=============================================================================
