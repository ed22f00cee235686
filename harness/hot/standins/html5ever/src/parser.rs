//! A reduced HTML5 parser: tokenizer (tags, attributes, comments, doctype, character references, raw text) and
//! tree builder (implied html/head/body, implied end tags, formatting elements with the adoption agency algorithm,
//! tables with foster parenting, templates as plain elements, svg and math).
use crate::names::*;
use crate::tree_builder::*;
use crate::{ns, script};
use tendril::{StrTendril, TendrilSink};

#[derive(Clone, Debug)]
pub struct TokenizerOpts { pub exact_errors: bool, pub discard_bom: bool }
impl Default for TokenizerOpts { fn default() -> Self { TokenizerOpts { exact_errors: false, discard_bom: true } } }
#[derive(Clone, Debug, Default)]
pub struct TreeBuilderOpts { pub scripting_enabled: bool }
#[derive(Clone, Debug, Default)]
pub struct ParseOpts { pub tokenizer: TokenizerOpts, pub tree_builder: TreeBuilderOpts }

pub struct Parser<S: TreeSink> { sink: S, input: StrTendril, context: Option<QualName>, scripting: bool, bom: bool }

pub fn parse_document<S: TreeSink>(sink: S, opts: ParseOpts) -> Parser<S> {
    Parser { sink, input: "".into(), context: None, scripting: true, bom: opts.tokenizer.discard_bom }
}
pub fn parse_fragment<S: TreeSink>(sink: S, opts: ParseOpts, context: QualName, _attrs: Vec<Attribute>, scripting: bool) -> Parser<S> {
    Parser { sink, input: "".into(), context: Some(context), scripting, bom: opts.tokenizer.discard_bom }
}
impl<S: TreeSink> TendrilSink for Parser<S> {
    type Output = S::Output;
    fn process(&mut self, t: StrTendril) {
        if self.input.is_empty() { self.input = t } else { self.input.push_tendril(&t) }
    }
    fn finish(self) -> S::Output {
        match script::take() {
            Some(calls) => script::run(&self.sink, calls, &self.input),
            None => {
                let mut b = Builder::new(&self.sink, self.scripting);
                let i = &self.input;
                let i = if self.bom && i.starts_with('\u{feff}') { i.subtendril(3, i.len32() - 3) } else { i.clone() };
                b.run(&i, self.context);
            }
        }
        self.sink.finish()
    }
}

// ------------------------------------------------------------------------------------------- tokenizer
#[derive(Clone, Debug)]
enum Tok { Doctype(StrTendril), Start(String, Vec<(String, StrTendril)>, bool), End(String), Comment(StrTendril), Chars(StrTendril), Eof }

struct Tz<'i> { s: &'i StrTendril, i: usize, raw: Option<(String, bool)>, foreign: bool }
impl Tz<'_> {
    fn rest(&self) -> &str { &self.s[self.i..] }
    fn sub(&self, a: usize, b: usize) -> StrTendril { self.s.subtendril(a as u32, (b - a) as u32) }
    /// the tokens of the next construct
    fn next(&mut self, out: &mut Vec<Tok>) {
        let n = self.s.len();
        if let Some((name, refs)) = self.raw.clone() {
            let low = self.rest().to_ascii_lowercase();
            let pat = format!("</{name}");
            let mut from = 0;
            let end = loop {
                match low[from..].find(&pat) {
                    None => break n,
                    Some(p) => {
                        let e = from + p + pat.len();
                        if low[e..].chars().next().is_none_or(|c| c.is_ascii_whitespace() || c == '>' || c == '/') && e < low.len() { break self.i + from + p }
                        from = e
                    }
                }
            };
            if end > self.i { self.chars(self.i, end, refs, out) }
            self.i = end;
            self.raw = None;
            if end < n { self.tag(out) }
            return;
        }
        if self.i >= n { out.push(Tok::Eof); return }
        if self.rest().starts_with('<') {
            let c = self.rest().chars().nth(1);
            match c {
                Some(c) if c.is_ascii_alphabetic() => return self.tag(out),
                Some('/') if self.rest().chars().nth(2).is_some_and(|c| c.is_ascii_alphabetic()) => return self.tag(out),
                Some('/') if self.rest().starts_with("</>") => { self.i += 3; return }
                Some('/') if self.rest().len() > 2 => return self.bogus(2, out),
                Some('?') => return self.bogus(1, out),
                Some('!') => {
                    if self.rest().starts_with("<!--") { return self.comment(out) }
                    if self.rest().len() >= 9 && self.rest().is_char_boundary(9) && self.rest()[2..9].eq_ignore_ascii_case("doctype") { return self.doctype(out) }
                    if self.foreign && self.rest().starts_with("<![CDATA[") { return self.cdata(out) }
                    return self.bogus(2, out);
                }
                _ => {}
            }
        }
        let start = self.i;
        let first = self.rest().chars().next().unwrap().len_utf8();
        let e = self.rest()[first..].find('<').map_or(n, |p| self.i + first + p);
        self.i = e;
        self.chars(start, e, true, out)
    }
    fn bogus(&mut self, skip: usize, out: &mut Vec<Tok>) {
        let a = self.i + skip;
        let e = self.s[a..].find('>').map_or(self.s.len(), |p| a + p);
        out.push(Tok::Comment(self.sub(a, e)));
        self.i = (e + 1).min(self.s.len())
    }
    fn cdata(&mut self, out: &mut Vec<Tok>) {
        let a = self.i + 9;
        let e = self.s[a..].find("]]>").map_or(self.s.len(), |p| a + p);
        if e > a { self.chars(a, e, false, out) }
        self.i = (e + 3).min(self.s.len())
    }
    fn comment(&mut self, out: &mut Vec<Tok>) {
        let a = self.i + 4;
        if self.s[a..].starts_with('>') || self.s[a..].starts_with("->") {
            out.push(Tok::Comment("".into()));
            self.i = a + if self.s[a..].starts_with('>') { 1 } else { 2 };
            return;
        }
        let e = [self.s[a..].find("-->").map(|p| (a + p, 3)), self.s[a..].find("--!>").map(|p| (a + p, 4))].into_iter().flatten().min().unwrap_or((self.s.len(), 0));
        out.push(Tok::Comment(self.sub(a, e.0)));
        self.i = e.0 + e.1
    }
    fn doctype(&mut self, out: &mut Vec<Tok>) {
        let a = self.i + 9;
        let e = self.s[a..].find('>').map_or(self.s.len(), |p| a + p);
        let body = &self.s[a..e];
        let lead = body.len() - body.trim_start().len();
        let name = body.trim_start().split(|c: char| c.is_ascii_whitespace()).next().unwrap_or("");
        let t = if name.chars().any(|c| c.is_ascii_uppercase()) { name.to_ascii_lowercase().into() } else { self.sub(a + lead, a + lead + name.len()) };
        out.push(Tok::Doctype(t));
        self.i = (e + 1).min(self.s.len())
    }
    fn tag(&mut self, out: &mut Vec<Tok>) {
        let b = self.s.as_bytes();
        let n = b.len();
        let mut i = self.i + 1;
        let end = b[i] == b'/';
        if end { i += 1 }
        let a = i;
        while i < n && !b[i].is_ascii_whitespace() && b[i] != b'/' && b[i] != b'>' { i += 1 }
        let name = self.s[a..i].to_ascii_lowercase();
        let (mut attrs, mut slf): (Vec<(String, StrTendril)>, bool) = (vec![], false);
        loop {
            while i < n && b[i].is_ascii_whitespace() { i += 1 }
            if i >= n { self.i = n; return }              // an unfinished tag is dropped
            match b[i] {
                b'>' => { i += 1; break }
                b'/' => { slf = i + 1 < n && b[i + 1] == b'>'; i += 1; continue }
                _ => {}
            }
            let a = i;
            i += 1;
            while i < n && !b[i].is_ascii_whitespace() && !matches!(b[i], b'/' | b'>' | b'=') { i += 1 }
            let an = self.s[a..i].to_ascii_lowercase();
            while i < n && b[i].is_ascii_whitespace() { i += 1 }
            let mut val: StrTendril = "".into();
            if i < n && b[i] == b'=' {
                i += 1;
                while i < n && b[i].is_ascii_whitespace() { i += 1 }
                if i < n && (b[i] == b'"' || b[i] == b'\'') {
                    let q = b[i];
                    let a = i + 1;
                    i = a;
                    while i < n && b[i] != q { i += 1 }
                    if i >= n { self.i = n; return }
                    val = self.refs(a, i, true);
                    i += 1
                } else if i < n && b[i] != b'>' {
                    let a = i;
                    while i < n && !b[i].is_ascii_whitespace() && b[i] != b'>' { i += 1 }
                    val = self.refs(a, i, true)
                }
            }
            if !attrs.iter().any(|(k, _)| *k == an) { attrs.push((an, val)) }
        }
        self.i = i;
        out.push(if end { Tok::End(name) } else { Tok::Start(name, attrs, slf) })
    }
    fn chars(&self, a: usize, e: usize, refs: bool, out: &mut Vec<Tok>) {
        let mut i = a;
        let mut from = a;
        while i < e {
            let c = self.s[i..e].chars().next().unwrap();
            if c == '&' && refs && let Some((v, l)) = charref(&self.s[i..e], false) {
                if i > from { out.push(Tok::Chars(self.sub(from, i))) }
                out.push(Tok::Chars(v.into()));
                i += l;
                from = i
            } else if c == '\r' {
                if i > from { out.push(Tok::Chars(self.sub(from, i))) }
                i += 1;
                from = i;
                if !self.s[i..e].starts_with('\n') { out.push(Tok::Chars("\n".into())) }
            } else if c == '\0' {
                if i > from { out.push(Tok::Chars(self.sub(from, i))) }
                i += 1;
                from = i
            } else { i += c.len_utf8() }
        }
        if e > from { out.push(Tok::Chars(self.sub(from, e))) }
    }
    fn refs(&self, a: usize, e: usize, attr: bool) -> StrTendril {
        let s = &self.s[a..e];
        if !s.contains(['&', '\r', '\0']) { return self.sub(a, e) }
        let (mut o, mut i) = (String::new(), 0);
        while i < s.len() {
            let c = s[i..].chars().next().unwrap();
            if c == '&' && let Some((v, l)) = charref(&s[i..], attr) { o.push_str(&v); i += l; continue }
            match c {
                '\r' => if !s[i + 1..].starts_with('\n') { o.push('\n') },
                '\0' => o.push('\u{fffd}'),
                c => o.push(c),
            }
            i += c.len_utf8()
        }
        o.into()
    }
}
const NAMED: &[(&str, &str)] = &[("amp", "&"), ("lt", "<"), ("gt", ">"), ("quot", "\""), ("apos", "'"), ("nbsp", "\u{a0}"), ("copy", "\u{a9}"), ("AMP", "&"), ("LT", "<"), ("GT", ">"), ("QUOT", "\""),
    ("reg", "\u{ae}"), ("hellip", "\u{2026}"), ("mdash", "\u{2014}"), ("ndash", "\u{2013}"), ("eacute", "\u{e9}")];
const BARE: &[&str] = &["amp", "lt", "gt", "quot", "nbsp", "copy", "AMP", "LT", "GT", "QUOT", "reg", "eacute"];
fn charref(s: &str, attr: bool) -> Option<(String, usize)> {
    let r = &s[1..];
    if let Some(d) = r.strip_prefix('#') {
        let (base, d, pre) = match d.strip_prefix(['x', 'X']) { Some(h) => (16, h, 3), None => (10, d, 2) };
        let k = d.find(|c: char| !c.is_digit(base)).unwrap_or(d.len());
        if k == 0 { return None }
        let v = u32::from_str_radix(&d[..k], base).unwrap_or(0x110000);
        let c = match v { 0 => '\u{fffd}', v => char::from_u32(v).unwrap_or('\u{fffd}') };
        return Some((c.to_string(), pre + k + d[k..].starts_with(';') as usize));
    }
    for (n, v) in NAMED {
        if r.starts_with(n) && r[n.len()..].starts_with(';') { return Some((v.to_string(), 2 + n.len())) }
    }
    for n in BARE {
        if r.starts_with(n) {
            if attr && r[n.len()..].starts_with(|c: char| c == '=' || c.is_ascii_alphanumeric()) { return None }
            return Some((NAMED.iter().find(|x| x.0 == *n).unwrap().1.to_string(), 1 + n.len()));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------- tree builder
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Initial, BeforeHtml, BeforeHead, InHead, AfterHead, InBody, InTable, InColgroup, InTableBody, InRow, InCell, InCaption, AfterBody, AfterAfterBody, InFrameset, AfterFrameset }

type Attrs = Vec<(String, StrTendril)>;
struct El<H> { h: H, name: String, html: bool, ns: u8 }
struct Fmt<H> { h: H, name: String, attrs: Attrs }
struct Builder<'s, S: TreeSink> {
    s: &'s S, mode: Mode, stack: Vec<El<S::Handle>>, fmt: Vec<Option<Fmt<S::Handle>>>, head: Option<S::Handle>, form: bool,
    foster: bool, scripting: bool, frameset_ok: bool, raw: Option<(String, bool)>, skip_nl: bool, ctx: Option<El<S::Handle>>,
}
const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
const FORMATTING: &[&str] = &["a", "b", "big", "code", "em", "font", "i", "nobr", "s", "small", "strike", "strong", "tt", "u"];
const SPECIAL: &[&str] = &["address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br", "button", "caption", "center", "col", "colgroup", "dd", "details", "dir", "div", "dl",
    "dt", "embed", "fieldset", "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "img", "input", "keygen", "li", "link",
    "listing", "main", "marquee", "menu", "meta", "nav", "noembed", "noframes", "noscript", "object", "ol", "p", "param", "plaintext", "pre", "script", "search", "section", "select", "source", "style", "summary", "table",
    "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "ul", "wbr", "xmp"];
const BLOCK: &[&str] = &["address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "main", "menu", "nav", "ol", "p",
    "search", "section", "summary", "ul", "pre", "listing"];
const SCOPE: &[&str] = &["applet", "caption", "html", "table", "td", "th", "marquee", "object", "template"];
const HEADISH: &[&str] = &["base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title"];
const HEADS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];
const IMPLIED: &[&str] = &["dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc"];
fn is(n: &str, l: &[&str]) -> bool { l.contains(&n) }

impl<'s, S: TreeSink> Builder<'s, S> {
    fn new(s: &'s S, scripting: bool) -> Self {
        Builder { s, mode: Mode::Initial, stack: vec![], fmt: vec![], head: None, form: false, foster: false, scripting, frameset_ok: true, raw: None, skip_nl: false, ctx: None }
    }
    fn run(&mut self, input: &StrTendril, context: Option<QualName>) {
        let mut tz = Tz { s: input, i: 0, raw: None, foreign: false };
        if let Some(q) = context {
            let (name, ns) = (q.local.to_string(), if q.ns == ns!(svg) { 1 } else if q.ns == ns!(mathml) { 2 } else { 0 });
            let c = self.s.create_element(q, vec![], ElementFlags::default());
            self.ctx = Some(El { h: c, name: name.clone(), html: ns == 0, ns });
            if ns == 0 && (is(&name, &["style", "script", "xmp", "iframe", "noembed", "noframes", "title", "textarea", "plaintext"]) || name == "noscript" && self.scripting) {
                tz.raw = Some(("\0".into(), is(&name, &["title", "textarea"])))     // no end tag ends it
            }
            let h = self.make("html", &vec![], 0);
            let d = self.s.get_document();
            self.s.append(&d, NodeOrText::AppendNode(h.clone()));
            self.stack.push(El { h, name: "html".into(), html: true, ns: 0 });
            self.reset()
        }
        loop {
            let mut v = vec![];
            tz.foreign = self.adj().is_some_and(|e| !e.html);
            tz.next(&mut v);
            for t in v {
                let eof = matches!(t, Tok::Eof);
                self.token(t);
                if let Some(r) = self.raw.take() { tz.raw = Some(r) }
                if eof { while let Some(e) = self.stack.pop() { self.s.pop(&e.h) } return }
            }
        }
    }
    fn make(&self, name: &str, attrs: &Attrs, nsi: u8) -> S::Handle {
        let nsu = match nsi { 0 => ns!(html), 1 => ns!(svg), _ => ns!(mathml) };
        let a = attrs.iter().map(|(k, v)| Attribute { name: attr_name(k, nsi), value: v.clone() }).collect();
        let mut f = ElementFlags::default();
        f.template = name == "template";
        self.s.create_element(QualName::new(None, nsu, name.into()), a, f)
    }
    fn top(&self) -> &El<S::Handle> { self.stack.last().unwrap() }
    /// the adjusted current node: a fragment's root stands for the element it is parsed for
    fn adj(&self) -> Option<&El<S::Handle>> { if self.stack.len() == 1 && self.ctx.is_some() { self.ctx.as_ref() } else { self.stack.last() } }
    fn topn(&self) -> &str { self.stack.last().map_or("", |e| if e.html { e.name.as_str() } else { "#foreign" }) }
    fn put(&self, n: NodeOrText<S::Handle>) {
        if self.foster && is(self.topn(), &["table", "tbody", "tfoot", "thead", "tr"]) { return self.foster_put(n) }
        self.s.append(&self.top().h, n)
    }
    fn foster_put(&self, n: NodeOrText<S::Handle>) {
        match self.stack.iter().rposition(|e| e.html && e.name == "table") {
            Some(i) if i > 0 => self.s.append_based_on_parent_node(&self.stack[i].h, &self.stack[i - 1].h, n),
            _ => self.s.append(&self.stack[0].h, n),
        }
    }
    fn insert(&mut self, name: &str, attrs: &Attrs, nsi: u8) -> S::Handle {
        let h = self.make(name, attrs, nsi);
        self.put(NodeOrText::AppendNode(h.clone()));
        self.stack.push(El { h: h.clone(), name: name.into(), html: nsi == 0, ns: nsi });
        h
    }
    fn void(&mut self, name: &str, attrs: &Attrs) { self.insert(name, attrs, 0); self.pop() }
    fn pop(&mut self) { if let Some(e) = self.stack.pop() { self.s.pop(&e.h) } }
    fn pop_to(&mut self, names: &[&str]) { while let Some(e) = self.stack.last() { let hit = e.html && is(&e.name, names); if self.stack.len() == 1 { break } self.pop(); if hit { break } } }
    fn pop_until_top(&mut self, names: &[&str]) { while self.stack.len() > 1 && !is(self.topn(), names) { self.pop() } }
    fn in_scope(&self, names: &[&str], extra: &[&str]) -> bool {
        for e in self.stack.iter().rev() {
            if e.html && is(&e.name, names) { return true }
            if (e.html && (is(&e.name, SCOPE) || is(&e.name, extra))) || (!e.html && is(&e.name, &["foreignObject", "desc", "title", "mi", "mo", "mn", "ms", "mtext", "annotation-xml"])) { return false }
        }
        false
    }
    fn in_table_scope(&self, names: &[&str]) -> bool {
        for e in self.stack.iter().rev() {
            if e.html && is(&e.name, names) { return true }
            if e.html && is(&e.name, &["html", "table", "template"]) { return false }
        }
        false
    }
    fn implied(&mut self, except: &str) { while is(self.topn(), IMPLIED) && self.topn() != except { self.pop() } }
    fn close_p(&mut self) { if self.in_scope(&["p"], &["button"]) { self.implied("p"); self.pop_to(&["p"]) } }
    fn err(&self, m: &'static str) { self.s.parse_error(m.into()) }
    fn comment(&self, t: StrTendril) { let c = self.s.create_comment(t); self.put(NodeOrText::AppendNode(c)) }
    fn text(&mut self, t: StrTendril) { self.put(NodeOrText::AppendText(t)) }

    fn reconstruct(&mut self) {
        let open = |f: &Fmt<S::Handle>, st: &Vec<El<S::Handle>>| st.iter().any(|e| self.s.same_node(&e.h, &f.h));
        let mut i = self.fmt.len();
        while i > 0 { match &self.fmt[i - 1] { Some(f) if !open(f, &self.stack) => i -= 1, _ => break } }
        while i < self.fmt.len() {
            let (n, a) = { let f = self.fmt[i].as_ref().unwrap(); (f.name.clone(), f.attrs.clone()) };
            let h = self.insert(&n, &a, 0);
            self.fmt[i] = Some(Fmt { h, name: n, attrs: a });
            i += 1
        }
    }
    fn push_fmt(&mut self, h: S::Handle, name: &str, attrs: &Attrs) {
        let base = self.fmt.iter().rposition(|f| f.is_none()).map_or(0, |i| i + 1);
        let same: Vec<usize> = (base..self.fmt.len()).filter(|&i| self.fmt[i].as_ref().is_some_and(|f| f.name == name && f.attrs == *attrs)).collect();
        if same.len() >= 3 { self.fmt.remove(same[0]); }
        self.fmt.push(Some(Fmt { h, name: name.into(), attrs: attrs.clone() }))
    }
    fn clear_fmt(&mut self) { while let Some(f) = self.fmt.pop() { if f.is_none() { break } } }

    fn adoption(&mut self, subject: &str) {
        if self.topn() == subject && !self.fmt.iter().flatten().any(|f| self.s.same_node(&f.h, &self.top().h)) { self.pop(); return }
        for _ in 0..8 {
            let base = self.fmt.iter().rposition(|f| f.is_none()).map_or(0, |i| i + 1);
            let Some(fi) = (base..self.fmt.len()).rev().find(|&i| self.fmt[i].as_ref().unwrap().name == subject) else { return self.any_end(subject) };
            let fh = self.fmt[fi].as_ref().unwrap().h.clone();
            let Some(si) = self.stack.iter().position(|e| self.s.same_node(&e.h, &fh)) else { self.err("fmt not open"); self.fmt.remove(fi); return };
            if !self.in_scope(&[subject], &[]) { self.err("fmt not in scope"); return }
            let Some(bi) = (si + 1..self.stack.len()).find(|&i| self.stack[i].html && is(&self.stack[i].name, SPECIAL)) else {
                while self.stack.len() > si { self.pop() }
                self.fmt.remove(fi);
                return;
            };
            let fb = self.stack[bi].h.clone();
            let anc = self.stack[si - 1].h.clone();
            let anc_name = if self.stack[si - 1].html { self.stack[si - 1].name.clone() } else { String::new() };
            let mut bookmark = fi;
            let mut last = fb.clone();
            let mut ni = bi;
            let mut counter = 0;
            loop {
                counter += 1;
                ni -= 1;
                if ni <= si { break }
                let nh = self.stack[ni].h.clone();
                let pos = self.fmt.iter().position(|f| f.as_ref().is_some_and(|f| self.s.same_node(&f.h, &nh)));
                let pos = match pos {
                    Some(p) if counter > 3 => { self.fmt.remove(p); if p < bookmark { bookmark -= 1 } None }
                    p => p,
                };
                let Some(p) = pos else { self.stack.remove(ni); continue };
                let (n, a) = { let f = self.fmt[p].as_ref().unwrap(); (f.name.clone(), f.attrs.clone()) };
                let h = self.make(&n, &a, 0);
                self.fmt[p] = Some(Fmt { h: h.clone(), name: n, attrs: a });
                self.stack[ni].h = h.clone();
                if self.s.same_node(&last, &fb) { bookmark = p + 1 }
                self.s.remove_from_parent(&last);
                self.s.append(&h, NodeOrText::AppendNode(last));
                last = h
            }
            self.s.remove_from_parent(&last);
            if is(&anc_name, &["table", "tbody", "tfoot", "thead", "tr"]) {
                match self.stack.iter().rposition(|e| e.html && e.name == "table") {
                    Some(i) if i > 0 => self.s.append_based_on_parent_node(&self.stack[i].h, &self.stack[i - 1].h, NodeOrText::AppendNode(last)),
                    _ => self.s.append(&self.stack[0].h, NodeOrText::AppendNode(last)),
                }
            } else { self.s.append(&anc, NodeOrText::AppendNode(last)) }
            let fi = self.fmt.iter().position(|f| f.as_ref().is_some_and(|f| self.s.same_node(&f.h, &fh))).unwrap();
            let (n, a) = { let f = self.fmt[fi].as_ref().unwrap(); (f.name.clone(), f.attrs.clone()) };
            let h = self.make(&n, &a, 0);
            self.s.reparent_children(&fb, &h);
            self.s.append(&fb, NodeOrText::AppendNode(h.clone()));
            self.fmt.remove(fi);
            if fi < bookmark { bookmark -= 1 }
            self.fmt.insert(bookmark.min(self.fmt.len()), Some(Fmt { h: h.clone(), name: n.clone(), attrs: a }));
            let si = self.stack.iter().position(|e| self.s.same_node(&e.h, &fh)).unwrap();
            self.stack.remove(si);
            let bi = self.stack.iter().position(|e| self.s.same_node(&e.h, &fb)).unwrap();
            self.stack.insert(bi + 1, El { h, name: n, html: true, ns: 0 })
        }
    }
    fn any_end(&mut self, name: &str) {
        for i in (0..self.stack.len()).rev() {
            if self.stack[i].html && self.stack[i].name == name {
                self.implied(name);
                while self.stack.len() > i.max(1) { self.pop() }
                return;
            }
            if self.stack[i].html && is(&self.stack[i].name, SPECIAL) { self.err("unexpected end tag"); return }
        }
    }
    fn raw_text(&mut self, name: &str, attrs: &Attrs, refs: bool) {
        self.insert(name, attrs, 0);
        self.raw = Some((name.into(), refs));
        if name == "textarea" { self.skip_nl = true }
    }

    fn token(&mut self, t: Tok) {
        let mut t = t;
        if self.skip_nl {
            self.skip_nl = false;
            if let Tok::Chars(c) = &t && c.starts_with('\n') {
                if c.len() == 1 { return }
                t = Tok::Chars(c.subtendril(1, (c.len() - 1) as u32))
            }
        }
        // whitespace matters outside the body
        if let Tok::Chars(c) = &t
            && matches!(self.mode, Mode::Initial | Mode::BeforeHtml | Mode::BeforeHead | Mode::InHead | Mode::AfterHead | Mode::InColgroup | Mode::AfterBody | Mode::AfterAfterBody | Mode::InFrameset | Mode::AfterFrameset)
        {
            let k = c.find(|c: char| !matches!(c, ' ' | '\t' | '\n' | '\u{c}' | '\r')).unwrap_or(c.len());
            if k > 0 && k < c.len() {
                self.token(Tok::Chars(c.subtendril(0, k as u32)));
                t = Tok::Chars(c.subtendril(k as u32, (c.len() - k) as u32))
            }
        }
        let mut guard = 0;
        while self.step(&t) { guard += 1; assert!(guard < 64, "parser stand-in loops on {t:?}") }
    }
    /// true = process the token again in the new mode
    fn step(&mut self, t: &Tok) -> bool {
        let ws = matches!(t, Tok::Chars(c) if c.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\u{c}' | '\r')));
        // the text of title, style, script, ...
        if let (Tok::Chars(c), true) = (t, self.stack.last().is_some_and(|e| e.html && is(&e.name, &["title", "style", "script", "textarea", "xmp", "iframe", "noembed", "noframes"]) || e.html && e.name == "noscript" && self.scripting)) {
            self.s.append(&self.top().h, NodeOrText::AppendText(c.clone()));
            return false;
        }
        if let Tok::End(n) = t && is(n, &["title", "style", "script", "textarea", "xmp", "iframe", "noembed", "noframes", "noscript"]) && self.topn() == n { self.pop(); return false }
        if self.adj().is_some_and(|e| !e.html) && !matches!(t, Tok::Eof) && self.foreign(t) { return false }
        match self.mode {
            Mode::Initial => match t {
                _ if ws => false,
                Tok::Comment(c) => { self.doc_comment(c); false }
                Tok::Doctype(n) => {
                    self.s.append_doctype_to_document(n.clone(), "".into(), "".into());
                    self.s.set_quirks_mode(QuirksMode::NoQuirks);
                    self.mode = Mode::BeforeHtml;
                    false
                }
                _ => { self.err("no doctype"); self.s.set_quirks_mode(QuirksMode::Quirks); self.mode = Mode::BeforeHtml; true }
            },
            Mode::BeforeHtml => match t {
                _ if ws => false,
                Tok::Comment(c) => { self.doc_comment(c); false }
                Tok::Doctype(_) => false,
                Tok::Start(n, a, _) if n == "html" => { self.root(a); false }
                Tok::End(n) if !is(n, &["head", "body", "html", "br"]) => false,
                _ => { self.root(&vec![]); true }
            },
            Mode::BeforeHead => match t {
                _ if ws => false,
                Tok::Comment(c) => { self.comment(c.clone()); false }
                Tok::Doctype(_) => false,
                Tok::Start(n, a, _) if n == "html" => { self.s.add_attrs_if_missing(&self.stack[0].h, at(a)); false }
                Tok::Start(n, a, _) if n == "head" => { let h = self.insert("head", a, 0); self.head = Some(h); self.mode = Mode::InHead; false }
                Tok::End(n) if !is(n, &["head", "body", "html", "br"]) => false,
                _ => { let h = self.insert("head", &vec![], 0); self.head = Some(h); self.mode = Mode::InHead; true }
            },
            Mode::InHead => match t {
                Tok::Chars(c) if ws => { self.text(c.clone()); false }
                Tok::Comment(c) => { self.comment(c.clone()); false }
                Tok::Doctype(_) => false,
                Tok::Start(n, a, _) if n == "html" => { self.s.add_attrs_if_missing(&self.stack[0].h, at(a)); false }
                Tok::Start(n, a, _) if is(n, HEADISH) || n == "noscript" => { self.head_start(n, a); false }
                Tok::Start(n, _, _) if n == "head" => false,
                Tok::End(n) if n == "head" => { self.pop(); self.mode = Mode::AfterHead; false }
                Tok::End(n) if n == "template" => { if self.stack.iter().any(|e| e.name == "template") { self.pop_to(&["template"]); self.clear_fmt() } false }
                Tok::End(n) if !is(n, &["body", "html", "br"]) => false,
                _ => { self.pop_to(&["head"]); self.mode = Mode::AfterHead; true }
            },
            Mode::AfterHead => match t {
                Tok::Chars(c) if ws => { self.text(c.clone()); false }
                Tok::Comment(c) => { self.comment(c.clone()); false }
                Tok::Doctype(_) => false,
                Tok::Start(n, a, _) if n == "html" => { self.s.add_attrs_if_missing(&self.stack[0].h, at(a)); false }
                Tok::Start(n, a, _) if n == "body" => { self.insert("body", a, 0); self.frameset_ok = false; self.mode = Mode::InBody; false }
                Tok::Start(n, a, _) if n == "frameset" => { self.insert("frameset", a, 0); self.mode = Mode::InFrameset; false }
                Tok::Start(n, a, _) if is(n, HEADISH) => {
                    let h = self.head.clone().unwrap();
                    self.stack.push(El { h: h.clone(), name: "head".into(), html: true, ns: 0 });
                    self.head_start(n, a);
                    if let Some(i) = self.stack.iter().position(|e| self.s.same_node(&e.h, &h)) { self.stack.remove(i); }
                    false
                }
                Tok::Start(n, _, _) if n == "head" => false,
                Tok::End(n) if !is(n, &["body", "html", "br"]) => false,
                _ => { self.insert("body", &vec![], 0); self.mode = Mode::InBody; true }
            },
            Mode::InBody => self.in_body(t),
            Mode::InTable => self.in_table(t),
            Mode::InCaption => match t {
                Tok::End(n) if n == "caption" => { self.implied(""); self.pop_to(&["caption"]); self.clear_fmt(); self.mode = Mode::InTable; false }
                Tok::Start(n, _, _) if is(n, &["caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"]) => { self.pop_to(&["caption"]); self.clear_fmt(); self.mode = Mode::InTable; true }
                Tok::End(n) if n == "table" => { self.pop_to(&["caption"]); self.clear_fmt(); self.mode = Mode::InTable; true }
                Tok::End(n) if is(n, &["body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"]) => false,
                _ => self.in_body(t),
            },
            Mode::InColgroup => match t {
                Tok::Chars(c) if ws => { self.text(c.clone()); false }
                Tok::Comment(c) => { self.comment(c.clone()); false }
                Tok::Start(n, a, _) if n == "col" => { self.void(n, a); false }
                Tok::End(n) if n == "colgroup" => { if self.topn() == "colgroup" { self.pop(); self.mode = Mode::InTable } false }
                Tok::End(n) if n == "col" => false,
                Tok::Eof => self.in_body(t),
                _ => { if self.topn() == "colgroup" { self.pop(); self.mode = Mode::InTable; true } else { false } }
            },
            Mode::InTableBody => match t {
                Tok::Start(n, a, _) if n == "tr" => { self.pop_until_top(&["tbody", "tfoot", "thead", "template", "html"]); self.insert("tr", a, 0); self.mode = Mode::InRow; false }
                Tok::Start(n, _, _) if is(n, &["th", "td"]) => { self.pop_until_top(&["tbody", "tfoot", "thead", "template", "html"]); self.insert("tr", &vec![], 0); self.mode = Mode::InRow; true }
                Tok::End(n) if is(n, &["tbody", "tfoot", "thead"]) => { if self.in_table_scope(&[n]) { self.pop_to(&[n]); self.mode = Mode::InTable } false }
                Tok::Start(n, _, _) if is(n, &["caption", "col", "colgroup", "tbody", "tfoot", "thead"]) => self.leave_section(),
                Tok::End(n) if n == "table" => self.leave_section(),
                Tok::End(n) if is(n, &["body", "caption", "col", "colgroup", "html", "td", "th", "tr"]) => false,
                _ => self.in_table(t),
            },
            Mode::InRow => match t {
                Tok::Start(n, a, _) if is(n, &["th", "td"]) => { self.pop_until_top(&["tr", "template", "html"]); self.insert(n, a, 0); self.fmt.push(None); self.mode = Mode::InCell; false }
                Tok::End(n) if n == "tr" => { if self.in_table_scope(&["tr"]) { self.pop_to(&["tr"]); self.mode = Mode::InTableBody } false }
                Tok::Start(n, _, _) if is(n, &["caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr"]) => self.leave_row(),
                Tok::End(n) if n == "table" => self.leave_row(),
                Tok::End(n) if is(n, &["tbody", "tfoot", "thead"]) => { if self.in_table_scope(&[n]) { self.leave_row() } else { false } }
                Tok::End(n) if is(n, &["body", "caption", "col", "colgroup", "html", "td", "th"]) => false,
                _ => self.in_table(t),
            },
            Mode::InCell => match t {
                Tok::End(n) if is(n, &["td", "th"]) => { if self.in_table_scope(&[n]) { self.implied(""); self.pop_to(&[n]); self.clear_fmt(); self.mode = Mode::InRow } false }
                Tok::Start(n, _, _) if is(n, &["caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"]) => self.close_cell(),
                Tok::End(n) if is(n, &["table", "tbody", "tfoot", "thead", "tr"]) => { if self.in_table_scope(&[n]) { self.close_cell() } else { false } }
                Tok::End(n) if is(n, &["body", "caption", "col", "colgroup", "html"]) => false,
                _ => self.in_body(t),
            },
            Mode::AfterBody => match t {
                Tok::Chars(_) if ws => self.in_body(t),
                Tok::Comment(c) => { let c = self.s.create_comment(c.clone()); self.s.append(&self.stack[0].h, NodeOrText::AppendNode(c)); false }
                Tok::Doctype(_) => false,
                Tok::End(n) if n == "html" => { self.mode = Mode::AfterAfterBody; false }
                Tok::Eof => false,
                _ => { self.mode = Mode::InBody; true }
            },
            Mode::AfterAfterBody => match t {
                Tok::Chars(_) if ws => self.in_body(t),
                Tok::Comment(c) => { self.doc_comment(c); false }
                Tok::Doctype(_) | Tok::Eof => false,
                _ => { self.mode = Mode::InBody; true }
            },
            Mode::InFrameset => match t {
                Tok::Start(n, a, _) if n == "frameset" => { self.insert(n, a, 0); false }
                Tok::Start(n, a, _) if n == "frame" => { self.void(n, a); false }
                Tok::End(n) if n == "frameset" => { if self.stack.len() > 1 { self.pop() } if self.topn() != "frameset" { self.mode = Mode::AfterFrameset } false }
                Tok::Comment(c) => { self.comment(c.clone()); false }
                Tok::Chars(c) if ws => { self.text(c.clone()); false }
                _ => false,
            },
            Mode::AfterFrameset => { if let Tok::Comment(c) = t { self.comment(c.clone()) } false }
        }
    }
    fn doc_comment(&self, c: &StrTendril) { let c = self.s.create_comment(c.clone()); let d = self.s.get_document(); self.s.append(&d, NodeOrText::AppendNode(c)) }
    fn root(&mut self, a: &Attrs) {
        let h = self.make("html", a, 0);
        let d = self.s.get_document();
        self.s.append(&d, NodeOrText::AppendNode(h.clone()));
        self.stack.push(El { h, name: "html".into(), html: true, ns: 0 });
        self.mode = Mode::BeforeHead
    }
    fn head_start(&mut self, n: &str, a: &Attrs) {
        match n {
            "title" => self.raw_text(n, a, true),
            "style" | "script" | "noframes" => self.raw_text(n, a, false),
            "noscript" if self.scripting => self.raw_text(n, a, false),
            "template" => { self.insert(n, a, 0); self.fmt.push(None); if self.mode == Mode::InHead || self.mode == Mode::AfterHead { /* its content is parsed in the body mode */ } }
            "noscript" => { self.insert(n, a, 0); }
            _ => self.void(n, a),
        }
    }
    fn leave_section(&mut self) -> bool {
        if !self.in_table_scope(&["tbody", "thead", "tfoot"]) { return false }
        self.pop_until_top(&["tbody", "tfoot", "thead", "template", "html"]);
        self.pop();
        self.mode = Mode::InTable;
        true
    }
    fn leave_row(&mut self) -> bool {
        if !self.in_table_scope(&["tr"]) { return false }
        self.pop_until_top(&["tr", "template", "html"]);
        self.pop();
        self.mode = Mode::InTableBody;
        true
    }
    fn close_cell(&mut self) -> bool { self.implied(""); self.pop_to(&["td", "th"]); self.clear_fmt(); self.mode = Mode::InRow; true }
    fn reset(&mut self) {
        self.mode = Mode::InBody;
        for (i, e) in self.stack.iter().enumerate().rev() {
            let e = if i == 0 { self.ctx.as_ref().unwrap_or(e) } else { e };
            let m = match e.name.as_str() {
                _ if !e.html => continue,
                "td" | "th" if i > 0 => Mode::InCell, "tr" => Mode::InRow, "tbody" | "thead" | "tfoot" => Mode::InTableBody, "caption" => Mode::InCaption, "colgroup" => Mode::InColgroup, "table" => Mode::InTable,
                "body" | "template" => Mode::InBody, "frameset" => Mode::InFrameset, _ => continue,
            };
            self.mode = m;
            return;
        }
    }
    fn in_table(&mut self, t: &Tok) -> bool {
        match t {
            Tok::Chars(c) if is(self.topn(), &["table", "tbody", "tfoot", "thead", "tr"]) => {
                if c.chars().all(|c| c.is_ascii_whitespace()) { self.text(c.clone()) } else { self.fostered(t) }
                false
            }
            Tok::Comment(c) => { self.comment(c.clone()); false }
            Tok::Doctype(_) => false,
            Tok::Start(n, a, _) if n == "caption" => { self.pop_until_top(&["table", "template", "html"]); self.fmt.push(None); self.insert(n, a, 0); self.mode = Mode::InCaption; false }
            Tok::Start(n, a, _) if n == "colgroup" => { self.pop_until_top(&["table", "template", "html"]); self.insert(n, a, 0); self.mode = Mode::InColgroup; false }
            Tok::Start(n, _, _) if n == "col" => { self.pop_until_top(&["table", "template", "html"]); self.insert("colgroup", &vec![], 0); self.mode = Mode::InColgroup; true }
            Tok::Start(n, a, _) if is(n, &["tbody", "tfoot", "thead"]) => { self.pop_until_top(&["table", "template", "html"]); self.insert(n, a, 0); self.mode = Mode::InTableBody; false }
            Tok::Start(n, _, _) if is(n, &["td", "th", "tr"]) => { self.pop_until_top(&["table", "template", "html"]); self.insert("tbody", &vec![], 0); self.mode = Mode::InTableBody; true }
            Tok::Start(n, _, _) if n == "table" => { if self.in_table_scope(&["table"]) { self.pop_to(&["table"]); self.reset(); true } else { false } }
            Tok::End(n) if n == "table" => { if self.in_table_scope(&["table"]) { self.pop_to(&["table"]); self.reset() } false }
            Tok::End(n) if is(n, &["body", "caption", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"]) => false,
            Tok::Start(n, a, _) if is(n, &["style", "script", "template"]) => { self.head_start(n, a); false }
            Tok::Eof => self.in_body(t),
            _ => { self.fostered(t); false }
        }
    }
    fn fostered(&mut self, t: &Tok) { self.foster = true; self.in_body(t); self.foster = false }
    fn in_body(&mut self, t: &Tok) -> bool {
        match t {
            Tok::Chars(c) => { self.reconstruct(); self.text(c.clone()); false }
            Tok::Comment(c) => { self.comment(c.clone()); false }
            Tok::Doctype(_) | Tok::Eof => false,
            Tok::Start(n, a, slf) => { self.body_start(n, a, *slf); false }
            Tok::End(n) => self.body_end(n),
        }
    }
    fn body_start(&mut self, n: &str, a: &Attrs, slf: bool) {
        match n {
            "html" => self.s.add_attrs_if_missing(&self.stack[0].h, at(a)),
            "body" => if self.stack.len() > 1 && self.stack[1].name == "body" { self.s.add_attrs_if_missing(&self.stack[1].h, at(a)) },
            "head" | "frameset" | "frame" | "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => self.err("unexpected start tag"),
            _ if is(n, HEADISH) => self.head_start(n, a),
            _ if is(n, HEADS) => { self.close_p(); if is(self.topn(), HEADS) { self.pop() } self.insert(n, a, 0); }
            _ if is(n, BLOCK) => { self.close_p(); self.insert(n, a, 0); if n == "pre" || n == "listing" { self.skip_nl = true } }
            "form" => { if !self.form { self.close_p(); self.insert(n, a, 0); self.form = true } }
            "li" | "dd" | "dt" => {
                let same: &[&str] = if n == "li" { &["li"] } else { &["dd", "dt"] };
                for i in (0..self.stack.len()).rev() {
                    let e = &self.stack[i];
                    if e.html && is(&e.name, same) { let m = e.name.clone(); self.implied(&m); while self.stack.len() > i { self.pop() } break }
                    if e.html && is(&e.name, SPECIAL) && !is(&e.name, &["address", "div", "p"]) { break }
                }
                self.close_p();
                self.insert(n, a, 0);
            }
            "plaintext" => { self.close_p(); self.insert(n, a, 0); }
            "button" => { if self.in_scope(&["button"], &[]) { self.implied(""); self.pop_to(&["button"]) } self.reconstruct(); self.insert(n, a, 0); }
            "a" | "nobr" => {
                let base = self.fmt.iter().rposition(|f| f.is_none()).map_or(0, |i| i + 1);
                if n == "nobr" { self.reconstruct() }
                if self.fmt[base..].iter().flatten().any(|f| f.name == n) {
                    let h = self.fmt[base..].iter().flatten().find(|f| f.name == n).unwrap().h.clone();
                    self.adoption(n);
                    self.fmt.retain(|f| !f.as_ref().is_some_and(|f| self.s.same_node(&f.h, &h)));
                    if let Some(i) = self.stack.iter().position(|e| self.s.same_node(&e.h, &h)) { self.stack.remove(i); }
                }
                self.reconstruct();
                let h = self.insert(n, a, 0);
                self.push_fmt(h, n, a)
            }
            _ if is(n, FORMATTING) => { self.reconstruct(); let h = self.insert(n, a, 0); self.push_fmt(h, n, a) }
            "applet" | "marquee" | "object" => { self.reconstruct(); self.insert(n, a, 0); self.fmt.push(None) }
            "table" => { self.close_p(); self.insert(n, a, 0); self.mode = Mode::InTable }
            "hr" => { self.close_p(); self.void(n, a) }
            "image" => self.body_start("img", a, slf),
            _ if is(n, VOID) => { self.reconstruct(); self.void(n, a) }
            "textarea" => self.raw_text(n, a, true),
            "xmp" => { self.close_p(); self.reconstruct(); self.raw_text(n, a, false) }
            "iframe" | "noembed" => self.raw_text(n, a, false),
            "noscript" if self.scripting => self.raw_text(n, a, false),
            "select" => { self.reconstruct(); self.insert(n, a, 0); }
            "option" | "optgroup" => { if self.topn() == "option" { self.pop() } self.reconstruct(); self.insert(n, a, 0); }
            "svg" | "math" => {
                self.reconstruct();
                self.insert(n, a, if n == "svg" { 1 } else { 2 });
                if slf { self.pop() }
            }
            _ => { self.reconstruct(); self.insert(n, a, 0); }
        }
    }
    fn body_end(&mut self, n: &str) -> bool {
        match n {
            "body" | "html" => {
                if self.stack.len() > 1 && self.stack[1].name == "body" && self.in_scope(&["body"], &[]) { self.mode = Mode::AfterBody; return n == "html" }
            }
            "template" => { if self.stack.iter().any(|e| e.html && e.name == "template") { self.pop_to(&["template"]); self.clear_fmt() } }
            "form" => { self.form = false; if self.in_scope(&["form"], &[]) { self.implied(""); if let Some(i) = self.stack.iter().rposition(|e| e.html && e.name == "form") { self.stack.remove(i); } } }
            "p" => { if !self.in_scope(&["p"], &["button"]) { self.insert("p", &vec![], 0); } self.close_p() }
            "li" => { if self.in_scope(&["li"], &["ol", "ul"]) { self.implied("li"); self.pop_to(&["li"]) } }
            "dd" | "dt" => { if self.in_scope(&[n], &[]) { self.implied(n); self.pop_to(&[n]) } }
            _ if is(n, HEADS) => { if self.in_scope(HEADS, &[]) { self.implied(""); self.pop_to(HEADS) } }
            _ if is(n, BLOCK) || n == "button" => { if self.in_scope(&[n], &[]) { self.implied(""); self.pop_to(&[n]) } }
            _ if is(n, FORMATTING) => self.adoption(n),
            "applet" | "marquee" | "object" => { if self.in_scope(&[n], &[]) { self.implied(""); self.pop_to(&[n]); self.clear_fmt() } }
            "br" => self.body_start("br", &vec![], false),
            _ => self.any_end(n),
        }
        false
    }
    /// content of svg and math; false = handle as html content
    fn foreign(&mut self, t: &Tok) -> bool {
        let top = self.adj().unwrap();
        let integration = top.ns == 1 && is(&top.name, &["foreignObject", "desc", "title"]) || top.ns == 2 && is(&top.name, &["mi", "mo", "mn", "ms", "mtext"]);
        match t {
            Tok::Chars(_) | Tok::Start(..) if integration => false,
            Tok::Chars(c) => { self.text(c.clone()); true }
            Tok::Comment(c) => { self.comment(c.clone()); true }
            Tok::Doctype(_) => true,
            Tok::Start(n, _, _) if is(n, BLOCK) || is(n, HEADS) || is(n, &["b", "big", "body", "br", "code", "em", "embed", "head", "hr", "i", "img", "li", "meta", "nobr", "ruby", "s", "small", "span", "strong", "strike", "sub", "sup", "table", "tt", "u", "ul", "var", "dd", "dt"]) => {
                while self.stack.len() > 1 && !self.top().html { self.pop() }
                false
            }
            Tok::Start(n, a, slf) => {
                let k = self.adj().unwrap().ns;
                let n = match n.as_str() { "foreignobject" if k == 1 => "foreignObject", "lineargradient" if k == 1 => "linearGradient", "clippath" if k == 1 => "clipPath", n => n };
                self.insert(n, a, k);
                if *slf { self.pop() }
                true
            }
            Tok::End(n) => {
                let mut i = self.stack.len() - 1;
                loop {
                    if self.stack[i].html { return false }
                    if self.stack[i].name.eq_ignore_ascii_case(n) { while self.stack.len() > i { self.pop() } return true }
                    if i == 0 { return true }
                    i -= 1
                }
            }
            Tok::Eof => false,
        }
    }
}
fn at(a: &Attrs) -> Vec<Attribute> { a.iter().map(|(k, v)| Attribute { name: attr_name(k, 0), value: v.clone() }).collect() }
fn attr_name(k: &str, nsi: u8) -> QualName {
    if nsi != 0 {
        let adj = match k { "viewbox" => "viewBox", "preserveaspectratio" => "preserveAspectRatio", "gradientunits" => "gradientUnits", "pathlength" => "pathLength", k => k };
        for (p, u) in [("xlink", ns!(xlink)), ("xml", ns!(xml)), ("xmlns", ns!(xmlns))] {
            if let Some(l) = adj.strip_prefix(p).and_then(|r| r.strip_prefix(':')) { return QualName::new(Some(p.into()), u, l.into()) }
        }
        if adj == "xmlns" { return QualName::new(None, ns!(xmlns), adj.into()) }
        return QualName::new(None, ns!(), adj.into());
    }
    QualName::new(None, ns!(), k.into())
}
