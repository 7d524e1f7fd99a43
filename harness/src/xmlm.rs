//! XML document model, fused generator/speller, and a reference tree built from
//! xml-rs events; independent of the code under test.
use std::collections::BTreeMap;

use soupy::parser::XMLNode;

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum X {
    El {
        prefix: Option<String>,
        ns: Option<String>,
        /// in-scope bindings, None if only the predefined ones
        scope: Option<BTreeMap<String, String>>,
        name: String,
        attrs: BTreeMap<String, String>,
        kids: Vec<X>,
    },
    Comment(String),
    CData(String),
    Text(String),
    Pi(String, Option<String>),
}

pub fn model(n: &XMLNode) -> X {
    match n {
        XMLNode::Comment(c) => X::Comment(c.clone()),
        XMLNode::CData(c) => X::CData(c.clone()),
        XMLNode::Text(c) => X::Text(c.clone()),
        XMLNode::ProcessingInstruction(a, b) => X::Pi(a.clone(), b.clone()),
        XMLNode::Element(e) => X::El {
            prefix: e.prefix.clone(),
            ns: e.namespace.clone(),
            scope: e.namespaces.as_ref().map(|n| n.0.clone()),
            name: e.name.clone(),
            attrs: e.attributes.clone(),
            kids: e.children.iter().map(model).collect(),
        },
    }
}
pub fn models(n: &[XMLNode]) -> Vec<X> {
    n.iter().map(model).collect()
}

impl X {
    pub fn kids(&self) -> &[X] {
        match self {
            X::El { kids, .. } => kids,
            _ => &[],
        }
    }
}
pub fn size(t: &[X]) -> usize {
    t.iter().map(|x| 1 + size(x.kids())).sum()
}

pub fn diff(want: &[X], got: &[X]) -> String {
    fn short(h: Option<&X>) -> String {
        match h {
            None => "nothing".into(),
            Some(X::El { prefix, ns, scope, name, attrs, kids }) => crate::case::clip(&format!(
                "element {prefix:?}:{name:?} ns {ns:?} scope {scope:?} {attrs:?} with {} children",
                kids.len()
            )),
            Some(o) => crate::case::clip(&format!("{o:?}")),
        }
    }
    fn go(want: &[X], got: &[X], path: &str) -> Option<String> {
        for i in 0..want.len().max(got.len()) {
            let (w, g) = (want.get(i), got.get(i));
            if w == g {
                continue;
            }
            let here = format!("{path}/{i}");
            if let (Some(a @ X::El { kids: c, .. }), Some(b @ X::El { kids: z, .. })) = (w, g) {
                if short(Some(a)) == short(Some(b)) {
                    return go(c, z, &here);
                }
            }
            return Some(format!("at {here}:\n  expected {}\n  got      {}", short(w), short(g)));
        }
        None
    }
    go(want, got, "").unwrap_or_else(|| "no difference".into())
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Cfg {
    pub nodes: usize,
    pub depth: usize,
    /// only characters of ISO-8859-1
    pub latin: bool,
    pub ns: bool,
    /// unique "uid" attributes and texts
    pub ids: bool,
}

impl Cfg {
    pub fn any(rng: &mut Rng) -> Cfg {
        Cfg {
            nodes: if rng.pct(3) { rng.range(100, 1000) } else { rng.range(1, 40) },
            depth: if rng.pct(5) { 40 } else { rng.range(1, 8) },
            latin: false,
            ns: rng.pct(60),
            ids: false,
        }
    }
}

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub out: String,
    pub cfg: Cfg,
    left: usize,
    uid: usize,
    entity: bool,
    pub count: BTreeMap<&'static str, u64>,
}

const NAMES: [&str; 24] = [
    "a", "b", "root", "item", "entry", "node", "x", "data", "Row", "ITEM", "br", "script", "p", "a-b", "a.b", "_u", "n1",
    "value", "record", "ns", "feed", "title", "link", "simple",
];
const ANAMES: [&str; 16] = [
    "id", "class", "name", "k", "v", "value", "type", "ID", "a-b", "_x", "n1", "href", "key", "lang", "x", "depth",
];

impl Gen<'_> {
    fn bump(&mut self, k: &'static str) {
        *self.count.entry(k).or_insert(0) += 1;
    }
    fn ch(&mut self) -> char {
        match self.rng.below(20) {
            0 => *self.rng.pick(&['<', '>', '&', '"', '\'', ';', '#', '-', ']', '?', '/', '=']),
            1 | 2 => ' ',
            3 => *self.rng.pick(&['é', 'ß', '\u{a0}', '\u{ff}', '¿']),
            4 if !self.cfg.latin => *self.rng.pick(&['中', '𝔄', '\u{200b}', '🦀', '\u{301}', '\u{fffd}', '\u{10ffff}']),
            5 => (b'A' + self.rng.below(26) as u8) as char,
            6 => (b'0' + self.rng.below(10) as u8) as char,
            7 if self.rng.pct(30) => '\n',
            _ => (b'a' + self.rng.below(26) as u8) as char,
        }
    }
    fn chars(&mut self, max: usize) -> String {
        let n = self.rng.small(max);
        (0..n).map(|_| self.ch()).collect()
    }
    fn name(&mut self) -> String {
        if self.rng.pct(80) {
            return self.rng.pick(&NAMES).to_string();
        }
        let n = if self.rng.pct(3) { 200 } else { self.rng.range(1, 8) };
        let mut s = String::from((b'a' + self.rng.below(26) as u8) as char);
        for _ in 0..n {
            s.push(match self.rng.below(12) {
                0 => *self.rng.pick(&['-', '_', '.']),
                1 => (b'0' + self.rng.below(10) as u8) as char,
                2 => 'é',
                3 if !self.cfg.latin => '中',
                4 => (b'A' + self.rng.below(26) as u8) as char,
                _ => (b'a' + self.rng.below(26) as u8) as char,
            });
        }
        s
    }
    fn ws1(&mut self) {
        let w = *self.rng.pick(&[" ", " ", " ", "  ", "\n", "\t", "\n  "]);
        self.out.push_str(w);
    }
    fn ws0(&mut self) {
        if self.rng.pct(15) {
            self.ws1();
        }
    }
    /// character data with references where needed or at random
    fn put(&mut self, t: &str, quote: Option<char>) {
        let mut tail = String::new();
        for c in t.chars() {
            let must = c == '<' || c == '&' || Some(c) == quote || (quote.is_some() && c == '\n') || c == '\r'
                || (c == '>' && tail.ends_with("]]"));
            if must || (c != '\n' && self.rng.pct(3)) {
                self.bump("references");
                let named = match c {
                    '<' => Some("&lt;"),
                    '>' => Some("&gt;"),
                    '&' => Some("&amp;"),
                    '"' => Some("&quot;"),
                    '\'' => Some("&apos;"),
                    _ => None,
                };
                match (named, self.rng.below(3)) {
                    (Some(n), 0 | 1) => self.out.push_str(n),
                    (_, 2) => self.out.push_str(&format!("&#x{:x};", c as u32)),
                    _ => self.out.push_str(&format!("&#{};", c as u32)),
                }
                tail.clear();
            } else {
                self.out.push(c);
                tail.push(c);
            }
        }
    }
    fn comment(&mut self) -> X {
        let mut s = if self.cfg.ids { self.uid += 1; format!("c{}", self.uid) } else { self.chars(60) };
        while s.contains("--") {
            s = s.replace("--", "- ");
        }
        if s.ends_with('-') {
            s.push('x');
        }
        self.out.push_str(&format!("<!--{s}-->"));
        self.bump("comments");
        X::Comment(s)
    }
    fn pi(&mut self) -> X {
        let mut t = self.name();
        if t.to_lowercase().starts_with("xml") {
            t.insert(0, 'p');
        }
        if self.rng.pct(15) {
            t = (*self.rng.pick(&["xml-stylesheet", "xml-model", "php", "xml-x", "xmlns", "dctm", "xpacket", "mso-application", "XSL"])).into();
        }
        let d = self.chars(40).replace("?>", "? ").replace('\n', " ");
        let d = d.trim().trim_end_matches('?').trim().to_string();
        self.bump("processing instructions");
        if d.is_empty() {
            self.out.push_str(&format!("<?{t}?>"));
            X::Pi(t, None)
        } else {
            self.out.push_str(&format!("<?{t} {d}?>"));
            X::Pi(t, Some(d))
        }
    }
    fn element(&mut self, scope: &BTreeMap<String, String>, depth: usize) -> X {
        self.uid += 1;
        let id = self.uid;
        let mut scope = scope.clone();
        let mut decls = vec![];
        if self.cfg.ns && self.rng.pct(25) {
            for _ in 0..self.rng.range(1, 2) {
                let p = *self.rng.pick(&["", "p", "q", "svg", "x1"]);
                let u = *self.rng.pick(&["urn:a", "urn:b", "http://example.com/ns?a=1", "http://www.w3.org/2000/svg", ""]);
                if (u.is_empty() && !p.is_empty()) || decls.iter().any(|(a, _)| *a == p) {
                    continue;
                }
                decls.push((p, u));
                scope.insert(p.to_string(), u.to_string());
                self.bump("namespace declarations");
            }
        }
        let prefixes: Vec<String> =
            scope.keys().filter(|k| !["", "xml", "xmlns"].contains(&k.as_str())).cloned().collect();
        let prefix = (!prefixes.is_empty() && self.rng.pct(40)).then(|| self.rng.pick(&prefixes).clone());
        let name = self.name();
        let q = prefix.as_ref().map_or(name.clone(), |p| format!("{p}:{name}"));
        self.out.push('<');
        self.out.push_str(&q);
        let mut attrs = BTreeMap::new();
        let n = if self.rng.pct(3) { 50 } else { self.rng.small(5) };
        let mut items: Vec<(String, String)> = vec![];
        for _ in 0..n {
            let an = if self.rng.pct(80) { self.rng.pick(&ANAMES).to_string() } else { self.name() };
            if attrs.contains_key(&an) || an == "xmlns" {
                continue;
            }
            let v = if self.rng.pct(10) { String::new() } else { self.chars(60) };
            attrs.insert(an.clone(), v.clone());
            let qn = if !prefixes.is_empty() && self.rng.pct(15) {
                format!("{}:{an}", self.rng.pick(&prefixes))
            } else if an == "lang" && self.rng.pct(50) {
                "xml:lang".into()
            } else {
                an
            };
            items.push((qn, v));
        }
        if self.cfg.ids {
            attrs.insert("uid".into(), format!("n{id}"));
            items.push(("uid".into(), format!("n{id}")));
        }
        for (p, u) in decls {
            items.push((if p.is_empty() { "xmlns".into() } else { format!("xmlns:{p}") }, u.to_string()));
        }
        self.rng.shuffle(&mut items);
        for (k, v) in items {
            self.ws1();
            self.out.push_str(&k);
            self.ws0();
            self.out.push('=');
            self.ws0();
            let quote = *self.rng.pick(&['"', '\'']);
            self.out.push(quote);
            self.put(&v, Some(quote));
            self.out.push(quote);
            self.bump("attributes");
        }
        self.ws0();
        let mut kids: Vec<X> = vec![];
        let n = if depth == 0 || self.rng.pct(30) { 0 } else { self.rng.small(if self.cfg.nodes > 100 { 50 } else { 10 }) };
        if n == 0 && self.rng.pct(50) {
            self.out.push_str("/>");
        } else {
            self.out.push('>');
            for _ in 0..n {
                if self.left == 0 {
                    break;
                }
                self.left -= 1;
                let k = self.child(&scope, depth - 1, kids.last());
                kids.extend(k);
            }
            self.out.push_str("</");
            self.out.push_str(&q);
            self.ws0();
            self.out.push('>');
        }
        self.bump("elements");
        let ns = match &prefix {
            Some(p) => scope.get(p).cloned(),
            None => scope.get("").cloned().filter(|u| !u.is_empty()),
        };
        let essentially = scope.iter().all(|(k, v)| {
            matches!((k.as_str(), v.as_str()), ("", "") | ("xml", XML_NS) | ("xmlns", XMLNS_NS))
        });
        X::El { prefix, ns, scope: (!essentially).then_some(scope), name, attrs, kids }
    }
    fn child(&mut self, scope: &BTreeMap<String, String>, depth: usize, prev: Option<&X>) -> Option<X> {
        match self.rng.below(20) {
            0..=9 => Some(self.element(scope, depth)),
            10..=14 => {
                if matches!(prev, Some(X::Text(_))) {
                    return None;
                }
                self.uid += 1;
                let mut t = if self.cfg.ids { format!("t{}", self.uid) } else { self.chars(120) };
                if t.trim().is_empty() {
                    t.push('x');
                }
                if self.entity && self.rng.pct(10) {
                    t.push_str("ENT<&");
                    let keep = t.len() - 5;
                    let head = t[..keep].to_string();
                    self.put(&head, None);
                    self.out.push_str("&ent;");
                    t.truncate(keep);
                    t.push_str("entity text");
                } else {
                    let u = t.clone();
                    self.put(&u, None);
                }
                self.bump("texts");
                Some(X::Text(t))
            }
            15 | 16 => {
                // a "]]>" needs two sections
                let split = matches!(prev, Some(X::CData(t)) if t.ends_with("]]"));
                self.uid += 1;
                let mut t = if self.cfg.ids { format!("d{}", self.uid) } else { self.chars(60).replace("]]>", "]] ") };
                if split {
                    t.insert(0, '>');
                    self.bump("]]> in two sections");
                } else if !self.cfg.ids && self.rng.pct(30) {
                    t.push_str("]]");
                }
                if t.is_empty() {
                    t.push('y');
                }
                self.out.push_str(&format!("<![CDATA[{t}]]>"));
                self.bump("CDATA sections");
                Some(X::CData(t))
            }
            17 => Some(self.comment()),
            18 => Some(self.pi()),
            _ => {
                // formatting whitespace is not part of the tree, but must not join a text;
                // whitespace next to a CDATA section is left unspecified
                if !matches!(prev, Some(X::Text(_) | X::CData(_)) | None) {
                    let save = self.out.len();
                    self.out.push_str("\n  ");
                    // the next sibling must be markup
                    let k = self.element(scope, depth);
                    debug_assert!(self.out.len() > save);
                    return Some(k);
                }
                None
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    Utf8,
    Utf8Bom,
    Utf16Le,
    Utf16Be,
    Latin1,
}

pub struct Doc {
    pub nodes: Vec<X>,
    pub text: String,
    pub bytes: Vec<u8>,
    pub enc: Enc,
    /// byte range (in `text`) of the root element
    pub root: std::ops::Range<usize>,
    pub count: BTreeMap<&'static str, u64>,
}

pub fn encode(s: &str, e: Enc) -> Vec<u8> {
    match e {
        Enc::Utf8 => s.as_bytes().to_vec(),
        Enc::Utf8Bom => [b"\xef\xbb\xbf", s.as_bytes()].concat(),
        Enc::Utf16Le => "\u{feff}".encode_utf16().chain(s.encode_utf16()).flat_map(u16::to_le_bytes).collect(),
        Enc::Utf16Be => "\u{feff}".encode_utf16().chain(s.encode_utf16()).flat_map(u16::to_be_bytes).collect(),
        Enc::Latin1 => s.chars().map(|c| u8::try_from(c as u32).unwrap()).collect(),
    }
}

pub fn doc(rng: &mut Rng, mut cfg: Cfg) -> Doc {
    let enc = match rng.below(20) {
        0 => Enc::Utf8Bom,
        1 => Enc::Utf16Le,
        2 => Enc::Utf16Be,
        3 | 4 => Enc::Latin1,
        _ => Enc::Utf8,
    };
    cfg.latin = enc == Enc::Latin1;
    let decl = match enc {
        Enc::Utf8 | Enc::Utf8Bom => {
            *rng.pick(&["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>"])
        }
        Enc::Utf16Le | Enc::Utf16Be => "<?xml version=\"1.0\" encoding=\"UTF-16\"?>",
        Enc::Latin1 => "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>",
    };
    let left = cfg.nodes;
    let depth = cfg.depth;
    let mut g = Gen { rng, out: decl.to_string(), cfg, left, uid: 0, entity: false, count: BTreeMap::new() };
    let mut nodes = vec![];
    let misc = |g: &mut Gen, nodes: &mut Vec<X>| {
        for _ in 0..g.rng.below(3) {
            let w = *g.rng.pick(&["", "\n", " \n"]);
            g.out.push_str(w);
            if g.rng.pct(30) {
                let k = if g.rng.pct(60) { g.comment() } else { g.pi() };
                g.bump("nodes outside the root");
                nodes.push(k);
            }
        }
    };
    misc(&mut g, &mut nodes);
    match g.rng.below(12) {
        0 => g.out.push_str("<!DOCTYPE root>"),
        1 => g.out.push_str("<!DOCTYPE root SYSTEM \"root.dtd\">"),
        2 => {
            g.out.push_str("<!DOCTYPE root [<!ENTITY ent \"entity text\">]>");
            g.entity = true;
        }
        _ => {}
    }
    misc(&mut g, &mut nodes);
    let scope: BTreeMap<String, String> =
        [("".into(), "".into()), ("xml".into(), XML_NS.into()), ("xmlns".into(), XMLNS_NS.into())].into();
    let at = g.out.len();
    let root = g.element(&scope, depth);
    let end = g.out.len();
    nodes.push(root);
    misc(&mut g, &mut nodes);
    let text = std::mem::take(&mut g.out);
    let count = std::mem::take(&mut g.count);
    Doc { nodes, bytes: encode(&text, enc), text, enc, root: at..end, count }
}

// ----------------------------------------------------------------- reference

pub enum XRef {
    Wf(Vec<X>),
    Err(String),
    /// more than one root: nothing promised
    Unspec,
}

/// The tree xml-rs' event stream denotes.
pub fn reference(bytes: &[u8]) -> XRef {
    use xml::reader::XmlEvent as E;
    let cfg = xml::ParserConfig::new().ignore_comments(false);
    let r = xml::EventReader::new_with_config(bytes, cfg);
    let mut stack: Vec<X> = vec![];
    let mut top: Vec<X> = vec![];
    let mut roots = 0;
    for ev in r {
        let node = match ev {
            Err(e) => {
                return if roots > 1 { XRef::Unspec } else { XRef::Err(e.to_string()) };
            }
            Ok(E::StartDocument { .. } | E::Whitespace(_)) => continue,
            Ok(E::EndDocument) => break,
            Ok(E::StartElement { name, attributes, namespace }) => {
                if stack.is_empty() {
                    roots += 1;
                }
                let mut attrs = BTreeMap::new();
                for a in attributes {
                    if attrs.insert(a.name.local_name, a.value).is_some() {
                        return XRef::Unspec;
                    }
                }
                stack.push(X::El {
                    prefix: name.prefix,
                    ns: name.namespace,
                    scope: (!namespace.is_essentially_empty()).then_some(namespace.0),
                    name: name.local_name,
                    attrs,
                    kids: vec![],
                });
                continue;
            }
            Ok(E::EndElement { .. }) => stack.pop().unwrap(),
            Ok(E::Characters(s)) => X::Text(s),
            Ok(E::CData(s)) => X::CData(s),
            Ok(E::Comment(s)) => X::Comment(s),
            Ok(E::ProcessingInstruction { name, data }) => X::Pi(name, data),
            #[allow(unreachable_patterns)]
            Ok(_) => return XRef::Unspec,
        };
        match stack.last_mut() {
            Some(X::El { kids, .. }) => kids.push(node),
            _ => top.push(node),
        }
    }
    if roots > 1 {
        return XRef::Unspec;
    }
    XRef::Wf(top)
}
