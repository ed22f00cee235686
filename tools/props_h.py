import props_c
n = len(props_c.P)
p = props_c.p
D="hotmeal/src/dom.rs"; F="hotmeal/src/diff.rs"; V="hotmeal-server/src/lib.rs"; W="hotmeal-wasm/src/lib.rs"; ST="hotmeal/src/stem.rs"
p("H01","Applying the patches of a diff to the old document gives the new one",
 "For any two documents, applying the patches that diffing them returns to the old document succeeds and leaves its body equal to the new document's body: same elements, namespaces, attributes in order, texts and comments, apart from empty text nodes. A document without a body gains or keeps the new content in the same way.",
 ["inputs"],"all pairs of documents: any markup structure, any text, attributes in any order and namespace, comments, void elements, embedded SVG and MathML, owned or borrowed storage",
 "Fifty hand-picked round trips; displacement chains, swaps of parent and child, and moves into inserted parents arise from combinations that no test lists.",
 [F,D],[("translation of edit operations to patches over slots",F+": convert_ops_with_shadow"),("patch application",D+": apply_patch")],[("slots","nodes displaced by earlier patches",D+": apply_patch")],["diff","apply_patches"])
p("H02","Patches only refer to what exists and never lose a node",
 "For any two documents, every patch of their diff refers, at the moment it is applied, to nodes and places that exist, and puts a node on an occupied place only if it names an unused slot for the occupant. Neither the native applier nor the browser's ever reports an error on such patches.",
 ["inputs"],"all pairs of documents, opaque elements included",
 "Tests compare final documents; an overwritten node or a stale path that happens to be harmless in one example is not seen.",
 [F,D,W],[("shadow tree",F+": ShadowTree"),("slot lookup",D+": resolve path in slots")],[("slots","displaced nodes",F+": ShadowTree")],["diff","apply_patch"])
p("H03","A diff is empty exactly when the bodies are equal",
 "Diffing two documents whose bodies are equal yields no patches, and diffing two documents whose bodies differ in any way (an element, its namespace, an attribute or the order of attributes, a text, a comment, the content of an opaque element) yields at least one.",
 ["inputs"],"all pairs of documents that are equal or differ in one or more small ways",
 "Tests use a few equal pairs; silently ignored differences need one test each to be seen.",
 [F],[("hashing of nodes",F+": NodeProps / hash"),("opaque content comparison",F+": opaque handling in diff")],[],["diff"])
p("H04","Every connected browser shows the latest page after each change",
 "Along any history of page changes, head changes, serving, removal and clearing over any number of routes, a client that applies what the server sends (patches, reload) shows the body of the latest page of its route after every step. This holds for the native applier and for the browser's.",
 ["histories","inputs"],"all histories of server operations over several routes with pages that change back and forth, are served again, or are forgotten in between",
 "Server tests make one change on one route and never apply the patches.",
 [V,W,F],[("page cache",V+": LiveReloadServer"),("patch application",W+": apply_patches"),("diff",F)],[("cache","last page and last head per route",V)],["diff_route","apply_patches"])
p("H05","Opaque elements are left alone and announced when their content changes",
 "When an element marked opaque on both sides stays in the document, its descendants are never touched by patches, and exactly one notification carrying the new inner markup is produced if its content changed, none otherwise. In the browser this is one bubbling event on that element with its key and the new content, and applying the patches natively gives the new content.",
 ["inputs"],"all pairs of documents with opaque elements at any place, nested, moved, gained, lost, or changed together with their surroundings",
 "Tests have one opaque element under an otherwise equal body.",
 [F,D,W],[("opaque handling",F+": is_opaque, OpaqueChanged"),("event dispatch",W+": OpaqueChanged"),("content replacement",D+": OpaqueChanged")],[],["diff","apply_patches"])
p("H06","Attribute updates leave exactly the new attribute list in order",
 "For any old and new attribute list of an element, applying the patches leaves exactly the new attributes with the new values in the new order, natively and in the browser. A value is left out of a patch as unchanged only if the old element has that very attribute.",
 ["inputs"],"all pairs of attribute lists: added, removed, changed, reordered, prefixed, empty values, on updated, moved and swapped elements",
 "Tests change one attribute at a time.",
 [F,D,W],[("property diff",F+": HtmlProps diff"),("rebuild in order",D+": UpdateProps"),("remove and set again",W+": UpdateProps")],[],["diff","apply_patches"])
p("H07","The document API keeps an ordered tree that every query reflects",
 "After any sequence of creating, appending, inserting before or after, removing, and changing attributes and texts, the document is the one ordered tree that the history defines. Parent, children, siblings, kinds, attributes and texts read back exactly that tree, also for detached nodes, and an operation that does not apply to a node's kind changes nothing.",
 ["histories"],"all histories of valid document operations of any length on attached and detached nodes",
 "Tests build one or two fixed trees.",
 [D],[("tree surgery",D+": append_child, insert_before, insert_after, remove"),("attribute lists",D+": set_attr, remove_attr")],[("arena","nodes and links",D+": struct Document")],["Document"])
p("H08","The parser's calls build exactly the tree they describe",
 "For any legal sequence of tree-construction calls (create, append, insert before a sibling, foster-parent, adopt children, remove, add missing attributes, parse errors), the resulting document is the described tree with adjacent texts joined into one, and with the content intact whether or not it was borrowed from the input. Doctype, errors, element names and the root element are those of the calls.",
 ["histories","inputs"],"all legal call sequences of a tree builder, with texts that are slices of the input or fresh, whole or fragmented documents",
 "Tests only parse a few regular documents, so foster parenting, re-parenting and text joining before siblings are hardly reached.",
 [D],[("ArenaSink",D+": impl TreeSink for ArenaSink"),("borrowing from the input",D+": StrTendril to Stem")],[],["parse","parse_body_fragment"])
p("H09","Serialized documents read back as the same tree",
 "For any document that a parser can produce, the markup that serialization writes, read by the rules of HTML, is that document again: same structure, namespaces, attributes, texts with any special characters, raw-text elements, void elements, comments and doctype. The variants (with and without doctype, body only, inner markup) are exactly the corresponding parts.",
 ["inputs"],"all documents with any text and attribute values (markup characters, quotes, references, non-breaking spaces), raw-text and void elements, SVG and MathML",
 "Tests serialize a few simple elements; escaping depends on context and character.",
 [D],[("serializer",D+": serialize_node and escape functions"),("raw-text and void lists",D)],[],["to_html","to_body_html","to_html_without_doctype","serialize_inner_html"])
p("H10","Patches survive ownership conversion and transport unchanged",
 "For any list of patches of any kind, converting them to owned data and sending them over the wire gives equal patches at the other end, and a later list of patches is not affected by it. Names with prefixes, empty and unicode strings, nested inserted content, paths and slots are all kept.",
 ["inputs"],"all lists of patches, produced by diffs or valid otherwise, over borrowed and owned storage",
 "Tests convert single values.",
 [F,ST,V],[("into_owned",F+", "+ST),("wire form",V+": encoding of LiveReloadEvent")],[],["Patch::into_owned","encode/decode"])
p("H11","Parsing gives the tree that the markup describes",
 "For any well-formed page in any of the usual forms (full document, body only, bare content, fragment; leading comments, whitespace, byte order mark, doctype or none), the parsed document has the structure, attributes, texts, comments and doctype that the markup describes. Bare content lands in the body in order and nothing is lost or duplicated.",
 ["inputs"],"all well-formed pages over the supported elements, written with any quoting, letter case and character references",
 "Tests parse a few fixed strings and mostly look at one node.",
 [D],[("structure detection",D+": has_html_structure, parse"),("sink",D+": ArenaSink")],[],["parse","parse_body_fragment"])
p("H12","Exactly the nodes that the matching pairs survive an update",
 "For any two versions of a page, the nodes of the page that survive an update are those that the documented matching of the two bodies pairs, and each becomes the node it is paired with: equal subtrees first, then elements with enough matched content or like attributes, and what they hold. Nodes of different kinds (element name, namespace, text, comment) are never paired, attributes never stop equal content from being recognised, and opaque elements survive with what is inside them.",
 ["inputs"],"all pairs of page versions: moved, reordered, duplicated, edited content, any attributes, opaque elements on either side",
 "Tests compare the resulting markup, which says nothing about what was kept and what was built anew.",
 [F,W],[("kinds, hashes and similarity",F+": NodeKind, DiffableDocument"),("matching options",F+": diff"),("opaque filter",F)],[],["diff","apply_patches"])
p("H13","Patches that do not fit are refused and damage nothing",
 "For any document and any list of patches, also one made for another version of the document, both appliers perform the patches up to the first one that does not fit: that names a node, place or slot that is not there, the wrong kind of node, or a move of a node into itself or of the body. That one is refused with an error, never with a panic, and the document, the page and all displaced nodes are as the patches before it left them.",
 ["inputs","histories","fault_sequences"],"all lists of patches over any document: paths and slots of any kind, patches lost, repeated, reordered, or made for another version",
 "Tests apply patches to the document they were made for.",
 [D,W],[("apply_patch, get_slot_parent",D),("apply_patch, find_node",W)],[("slots","displaced nodes",D+", "+W)],["apply_patches","apply_patch_with_slots"])
p("S01","The server answers each change with the right event for its route",
 "Along any history, a change to a route that is not cached is answered with a reload, one with equal bodies with nothing, a changed head injection with a head event, and any other change with a non-empty list of patches, always for that route. Other routes never influence the answer, and every event survives encoding and decoding.",
 ["histories"],"all histories of serving, changing, head changes, removals and clearing over several routes",
 "Tests perform two to four steps on one or two routes.",
 [V],[("diff_route and head comparison",V+": LiveReloadServer")],[("cache","last page per route",V),("head cache","last head injection per route",V)],["diff_route","diff_route_with_head"])
p("S02","The server's cache reports exactly what was cached",
 "Along any history, caching a page returns the previously cached page of that route, removing reports whether anything was cached, the head comparison reports a change exactly when the injection differs from the last one, and the list of routes is exactly the set of cached routes. Clearing forgets everything.",
 ["histories"],"all histories of cache operations over any routes, including similar names and empty ones",
 "Tests perform two to four steps.",
 [V],[("cache maps",V+": LiveReloadServer")],[("cache","last page per route",V)],["cache_html","remove","cached_routes","head_changed"])
p("S03","Head injection goes right behind the page's real head tag",
 "For any page text, injecting content keeps every other character and puts the content once, directly behind the first head start tag that is not inside a comment, taking its quoted attribute values whole and not mistaking other tags for it. Without such a tag the content goes to the front.",
 ["inputs"],"all strings, well-formed or not: comments, quoted attribute values, letter case, similar tags, multi-byte characters",
 "Tests inject into two simple pages.",
 [V],[("tag scan",V+": inject_into_head")],[],["inject_into_head"])
p("S04","The loader script passes on exactly the URLs and the selector it was given",
 "For any URLs and selector, the generated script is, as a browser reads it, one complete module that loads the client from the given script URL, initialises it with the given binary's URL, and starts live reload with the given connection URL and selector, in this order and nothing else. No character of a value (quotes, backslashes, line breaks, markup) can end its string, the script, or change another value.",
 ["inputs"],"all strings as values: quotes of every kind, backslashes, control characters, line separators, end tags, comment markers, any Unicode",
 "The one test looks for four plain values in the text.",
 [V],[("the script",V+": loader_script")],[],["loader_script"])
p("W01","The browser and the native applier do the same, patch by patch",
 "For any list of patches that is valid for a document, the native applier and the browser's have the same body and the same displaced nodes after every single patch, namely what the patch means: places, gaps, displaced nodes, attributes in order, texts and namespaces. Both reject none of them.",
 ["inputs","histories"],"all valid lists of patches over any document, made by diffs or in any other order and mixture",
 "Nothing runs the browser's applier without a browser, and the native tests compare end results.",
 [D,W],[("apply_patch",D),("apply_patch",W)],[("slots","displaced nodes",D+", "+W)],["apply_patches"])
p("W02","Patching a page keeps the identity of every node that is not new",
 "For any valid list of patches, every node of the page that was not inserted by a patch is the same node object as before, wherever it now is, and no inserted node is one of the old ones. What the user typed, scrolled or selected in surviving nodes thus survives.",
 ["inputs","histories"],"all valid lists of patches over any page, moves through slots included",
 "No test looks at node identity.",
 [W,F],[("moves instead of re-creation",W+": apply_patch Move"),("slots",W)],[("slots","displaced nodes",W)],["apply_patches"])
p("W03","An update at a mount point changes that element's inside and nothing else",
 "Along any history of updates to the mount points of a page, each update leaves the first element that its selector matches with the new content, whether the patches come as a list, one by one over kept slots, or encoded. Everything outside that element stays as it was, the same nodes in the same places, even when an update fails half-way. Unknown or invalid selectors and undecodable patches are reported and change nothing.",
 ["histories","inputs"],"all histories of updates over any page with any number of separate mount points, with failing updates in between",
 "Nothing runs this code without a browser, and the browser tests use the body only.",
 [W],[("mount points",W+": resolve_mount_point, apply_patches_with_slots_on_root"),("slot 0 is the mount point",W+": get_slot_root, find_node")],[("slots","displaced nodes",W)],["apply_patches_on","apply_patches_with_slots_on","apply_patches_postcard_on","apply_patches_json"])
p("W04","The live-reload client recovers from any failure and shows the latest page",
 "Whatever fails (connecting, the handshake, subscribing, the connection at any time), the client tries again, after waits that double from 100 ms up to 5 s and start over after a session that was established. Each session subscribes once, for the path of the page. While it is subscribed and has missed nothing, the page shows what the server has: patches are applied at the mount point, a reload or a head change reloads the page, and an event that cannot be applied changes nothing and does not end the session.",
 ["histories","schedules","fault_sequences"],"all histories of connection attempts, failures, events and page changes of one browser and one server",
 "The client runs in browsers only, against a live server; no test starts it, let alone breaks its connections.",
 [W,"hotmeal-server/src/lib.rs"],[("the client",W+": live_reload_loop, live_reload_session"),("events",W+": handle_live_reload_event"),("the server","hotmeal-server/src/lib.rs: diff_route, diff_route_with_head")],[("backoff","how long the next wait is",W),("session","which step of connecting the client is at",W)],["start_live_reload"])
P = props_c.P[n:]
del props_c.P[n:]
SIM = ' The crates outside this repository that are not available offline (HTML parser, browser DOM, derive macros, wire format) are replaced by stand-ins under harness/hot/standins, which are trusted.'
BASE = 'Bounded-exhaustive small inputs plus seeded random larger ones; every recorded run of the real code is checked by TLC, step by step, against the specification. Nothing is shown about inputs that were not run.'
NOTE = {x['id']: BASE + SIM for x in P}
NOTE['S03'] = NOTE['S04'] = BASE
