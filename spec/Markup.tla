------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* A reader of HTML text, character by character: the markup that says     *)
(* everything explicitly (every element that is not void is closed, in     *)
(* order), as hotmeal writes it and as people write it by hand.  It says   *)
(* what tree a text stands for; a text it cannot read stands for none.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES txt,    \* the text
          pos,    \* next character
          mode,
          open,   \* elements being read: open[1] is the whole, the last one the innermost
          buf,    \* text so far
          nm,     \* tag name so far
          at,     \* attributes so far
          an,     \* attribute name so far
          dt,     \* << >> or <<doctype name>>
          bad     \* why the text cannot be read, "" if it can
mvars == <<txt, pos, mode, open, buf, nm, at, an, dt, bad>>

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Small == "abcdefghijklmnopqrstuvwxyz"
Alpha == {SubSeq(Upper, i, i) : i \in 1..26} \cup {SubSeq(Small, i, i) : i \in 1..26}
LowOf == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |-> SubSeq(Small, CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c, CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c)]
Low(c) == IF c \in DOMAIN LowOf THEN LowOf[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE Low(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))
Space == {" ", "\n", "\t"}
Void == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}
RawText == {"script", "style", "noscript", "iframe", "noembed", "noframes", "xmp"}     \* (scripting is on)
RefText == {"textarea", "title"}
DropsNewline == {"pre", "listing", "textarea"}     \* a newline right behind the start tag does not count
RefOf(r) == CASE r = "amp" -> "&" [] r = "lt" -> "<" [] r = "gt" -> ">" [] r \in {"quot", "#34", "#x22"} -> "\"" [] r \in {"apos", "#39", "#x27"} -> "'"
              [] r = "#38" -> "&" [] r = "#60" -> "<" [] r = "#62" -> ">" [] OTHER -> ""

Whole == [n |-> "", s |-> "h", a |-> << >>, c |-> << >>]
Reading(t) == /\ txt = t /\ pos = 1 /\ mode = "data" /\ open = <<Whole>> /\ buf = "" /\ nm = "" /\ at = << >> /\ an = "" /\ dt = << >> /\ bad = ""

Ch == SubSeq(txt, pos, pos)
\* the characters from a to b, "" where the text ends before b
Cut(a, b) == IF b > Len(txt) THEN "" ELSE SubSeq(txt, a, b)
Ahead(s) == Cut(pos, pos + Len(s) - 1) = s
AheadLow(s) == Lower(Cut(pos, pos + Len(s) - 1)) = s
Top == open[Len(open)]
TextNode(t) == [g |-> "t", n |-> "", s |-> "h", t |-> t, a |-> << >>, c |-> << >>]
ElementNode(e) == [g |-> "e", n |-> e.n, s |-> e.s, t |-> "", a |-> e.a, c |-> e.c]
CommentNode(t) == [g |-> "c", n |-> "", s |-> "h", t |-> t, a |-> << >>, c |-> << >>]
Give(o, x) == [o EXCEPT ![Len(o)] = [@ EXCEPT !.c = Append(@, x)]]
\* the open elements with the text so far in place
Settled == IF buf = "" THEN open ELSE Give(open, TextNode(buf))
Closed(o) == Give(SubSeq(o, 1, Len(o) - 1), ElementNode(o[Len(o)]))

Go(p, m) == pos' = p /\ mode' = m
Keep(v) == UNCHANGED <<txt, v>>
Fail(why) == bad' = why /\ pos' = Len(txt) + 1 /\ UNCHANGED <<txt, mode, open, buf, nm, at, an, dt>>

NsOf(n) == IF n = "svg" THEN "s" ELSE IF n = "math" THEN "m"
           ELSE IF Top.s = "s" /\ Top.n \in {"foreignObject", "desc", "title"} THEN "h" ELSE Top.s
\* a start tag is complete; p is the position after it
Start(p, attrs, slash) ==
  LET ns == NsOf(Lower(nm))
      n  == IF ns = "h" THEN Lower(nm) ELSE nm
      e  == [n |-> n, s |-> ns, a |-> attrs, c |-> << >>]
      o  == Append(Settled, e)
      empty == (ns = "h" /\ n \in Void) \/ (ns # "h" /\ slash)
  IN /\ open' = IF empty THEN Closed(o) ELSE o
     /\ buf' = "" /\ nm' = "" /\ at' = << >> /\ an' = "" /\ UNCHANGED <<txt, dt, bad>>
     /\ Go(IF ns = "h" /\ n \in DropsNewline /\ Cut(p, p) = "\n" THEN p + 1 ELSE p, IF empty \/ ns # "h" THEN "data" ELSE IF n \in RawText THEN "raw" ELSE IF n \in RefText THEN "rawref" ELSE "data")
\* the attribute an is complete (a name that is there already does not count)
With(v) == LET name == IF NsOf(Lower(nm)) = "h" THEN Lower(an) ELSE an IN
           IF \E i \in 1..Len(at) : at[i][2] = name THEN at ELSE Append(at, <<"", name, v>>)

EndsHere == AheadLow("</" \o Top.n) /\ Cut(pos + 2 + Len(Top.n), pos + 2 + Len(Top.n)) \in Space \cup {">", "/"}
Data ==
  CASE Ahead("<!-->") -> Go(pos + 5, "data") /\ open' = Give(Settled, CommentNode("")) /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ahead("<!--->") -> Go(pos + 6, "data") /\ open' = Give(Settled, CommentNode("")) /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ahead("<!--") -> Go(pos + 4, "comment") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] AheadLow("<!doctype") -> Go(pos + 9, "doctype") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ch = "<" /\ Cut(pos + 1, pos + 1) \in Alpha -> Go(pos + 1, "tag") /\ nm' = "" /\ at' = << >> /\ UNCHANGED <<txt, open, buf, an, dt, bad>>
    [] Ahead("</>") -> Go(pos + 3, "data") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] Ch = "<" /\ Cut(pos + 1, pos + 1) = "/" /\ Cut(pos + 2, pos + 2) \in Alpha -> Go(pos + 2, "end") /\ nm' = "" /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
    [] Ahead("<![CDATA[") /\ Top.s # "h" -> Go(pos + 9, "cdata") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] Ch = "<" /\ Cut(pos + 1, pos + 1) \in {"!", "/"} -> Go(pos + 2, "bogus") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ch = "<" /\ Cut(pos + 1, pos + 1) = "?" -> Go(pos + 1, "bogus") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ch = "&" -> Go(pos + 1, "ref") /\ nm' = "" /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
\* a character reference; buf is the text or the value that it is part of, back the mode to go back to
Ref(back) ==
  CASE Ch = ";" /\ RefOf(nm) # "" -> Go(pos + 1, back) /\ buf' = buf \o RefOf(nm) /\ nm' = "" /\ UNCHANGED <<txt, open, at, an, dt, bad>>
    [] Ch \in Alpha \cup {"#", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} /\ Len(nm) < 6 -> Go(pos + 1, mode) /\ nm' = nm \o Ch /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
    [] OTHER -> Go(pos, back) /\ buf' = buf \o "&" \o nm /\ nm' = "" /\ UNCHANGED <<txt, open, at, an, dt, bad>>
Raw(refs) ==
  CASE EndsHere -> Go(pos + 2, "end") /\ nm' = "" /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
    [] refs /\ Ch = "&" -> Go(pos + 1, "rref") /\ nm' = "" /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
Tag ==
  CASE Ch \in Space -> Go(pos + 1, "attr") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] Ch = ">" -> Start(pos + 1, at, FALSE)
    [] Ahead("/>") -> Start(pos + 2, at, TRUE)
    [] OTHER -> Go(pos + 1, "tag") /\ nm' = nm \o Ch /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
Attr ==
  CASE Ch \in Space -> Go(pos + 1, "attr") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] Ch = ">" -> Start(pos + 1, at, FALSE)
    [] Ahead("/>") -> Start(pos + 2, at, TRUE)
    [] Ch \in {"=", "\"", "'", "<", "/"} -> Fail("attribute name")
    [] OTHER -> Go(pos + 1, "aname") /\ an' = Ch /\ UNCHANGED <<txt, open, buf, nm, at, dt, bad>>
AName ==
  CASE Ch = "=" -> Go(pos + 1, "aval") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] Ch \in Space \cup {"/"} -> Go(pos, "attr") /\ at' = With("") /\ UNCHANGED <<txt, open, buf, nm, an, dt, bad>>
    [] Ch = ">" -> Start(pos + 1, With(""), FALSE)
    [] Ch \in {"\"", "'", "<"} -> Fail("attribute name")
    [] OTHER -> Go(pos + 1, "aname") /\ an' = an \o Ch /\ UNCHANGED <<txt, open, buf, nm, at, dt, bad>>
\* while a value is read, the text before the tag is settled
AVal ==
  CASE Ch = "\"" -> Go(pos + 1, "dq") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ch = "'" -> Go(pos + 1, "sq") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ch \in Space \cup {">", "<", "="} -> Fail("attribute value")
    [] OTHER -> Go(pos, "uq") /\ open' = Settled /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
\* in values, references are looked at as a whole
RefAhead == LET E == {j \in (pos + 1)..(pos + 8) : Cut(j, j) = ";"} IN IF E = {} THEN 0 ELSE CHOOSE j \in E : \A i \in E : j <= i
Value(ends) ==
  CASE Ch \in ends /\ mode # "uq" -> Go(pos + 1, "attr") /\ at' = With(buf) /\ buf' = "" /\ UNCHANGED <<txt, open, nm, an, dt, bad>>
    [] Ch \in ends /\ Ch = ">" -> Go(pos, "attr") /\ at' = With(buf) /\ buf' = "" /\ UNCHANGED <<txt, open, nm, an, dt, bad>>
    [] Ch \in ends -> Go(pos + 1, "attr") /\ at' = With(buf) /\ buf' = "" /\ UNCHANGED <<txt, open, nm, an, dt, bad>>
    [] Ch = "&" /\ RefAhead # 0 /\ RefOf(SubSeq(txt, pos + 1, RefAhead - 1)) # "" ->
         Go(RefAhead + 1, mode) /\ buf' = buf \o RefOf(SubSeq(txt, pos + 1, RefAhead - 1)) /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
End ==
  CASE Ch = ">" -> IF Len(open) > 1 /\ Lower(nm) = Lower(Top.n)
                   THEN open' = Closed(Settled) /\ buf' = "" /\ Go(pos + 1, "data") /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
                   ELSE Fail("end tag without start tag")
    [] Ch \in Space -> Go(pos + 1, mode) /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ nm' = nm \o Ch /\ UNCHANGED <<txt, open, buf, at, an, dt, bad>>
Comment ==
  CASE Ahead("-->") -> Go(pos + 3, "data") /\ open' = Give(open, CommentNode(buf)) /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] Ahead("--!>") -> Go(pos + 4, "data") /\ open' = Give(open, CommentNode(buf)) /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
\* "<?xml ... ?>", "<!ELEMENT ...>", "</ ...>" are comments too
Bogus ==
  CASE Ch = ">" -> Go(pos + 1, "data") /\ open' = Give(open, CommentNode(buf)) /\ buf' = "" /\ UNCHANGED <<txt, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
\* text in svg and math that needs no escapes
CData ==
  CASE Ahead("]]>") -> Go(pos + 3, "data") /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Ch /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>
DocType ==
  CASE Ch = ">" -> Go(pos + 1, "data") /\ dt' = (IF dt = << >> THEN <<buf>> ELSE dt) /\ buf' = "" /\ UNCHANGED <<txt, open, nm, at, an, bad>>
    [] Ch \in Space -> Go(pos + 1, mode) /\ UNCHANGED <<txt, open, buf, nm, at, an, dt, bad>>
    [] OTHER -> Go(pos + 1, mode) /\ buf' = buf \o Low(Ch) /\ UNCHANGED <<txt, open, nm, at, an, dt, bad>>

Read == /\ pos <= Len(txt)
        /\ CASE mode = "data" -> Data [] mode = "ref" -> Ref("data") [] mode = "raw" -> Raw(FALSE) [] mode = "rawref" -> Raw(TRUE) [] mode = "rref" -> Ref("rawref")
             [] mode = "tag" -> Tag [] mode = "attr" -> Attr [] mode = "aname" -> AName [] mode = "aval" -> AVal
             [] mode = "dq" -> Value({"\""}) [] mode = "sq" -> Value({"'"}) [] mode = "uq" -> Value(Space \cup {">"})
             [] mode = "end" -> End [] mode = "comment" -> Comment [] mode = "doctype" -> DocType [] mode = "bogus" -> Bogus [] mode = "cdata" -> CData

AtEnd == pos > Len(txt)
\* the text was read completely, and these are the nodes it stands for
Readable == bad = "" /\ Len(open) = 1 /\ mode \in {"data", "ref"}
Nodes == LET o == IF mode = "ref" THEN Give(open, TextNode(buf \o "&" \o nm)) ELSE Settled IN o[1].c

\* trees: texts that are side by side are one, empty ones are none
RECURSIVE Joined(_)
Joined(s) == IF s = << >> THEN << >>
             ELSE IF Head(s).g = "t" /\ Head(s).t = "" THEN Joined(Tail(s))
             ELSE IF Len(s) > 1 /\ Head(s).g = "t" /\ s[2].g = "t" THEN Joined(<<[s[2] EXCEPT !.t = Head(s).t \o @]>> \o SubSeq(s, 3, Len(s)))
             ELSE <<Head(s)>> \o Joined(Tail(s))
Shown(as) == [k \in 1..Len(as) |-> <<"", as[k][2], as[k][3]>>]
RECURSIVE Means(_, _), MeansAll(_, _)
\* x, as read, is what y is
Means(x, y) == x.g = y.g /\ x.n = y.n /\ x.t = y.t /\ x.a = Shown(y.a) /\ MeansAll(x.c, Joined(y.c))
MeansAll(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Means(x[k], y[k])
=============================================================================
