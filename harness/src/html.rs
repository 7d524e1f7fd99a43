//! HTML document model, generator and speller; independent of the code under test.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::OnceLock,
};

use soupy::parser::HTMLNode;

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum H {
    Comment(String),
    Doctype(String),
    El { name: String, attrs: BTreeMap<String, String>, kids: Vec<H> },
    Raw { name: String, attrs: BTreeMap<String, String>, content: String },
    Void { name: String, attrs: BTreeMap<String, String> },
    Text(String),
}

pub const VOID: [&str; 13] = [
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr",
];
pub const RAW: [&str; 2] = ["script", "style"];

pub fn is_void(n: &str) -> bool {
    VOID.iter().any(|v| v.eq_ignore_ascii_case(n))
}
pub fn is_raw(n: &str) -> bool {
    RAW.iter().any(|v| v.eq_ignore_ascii_case(n))
}

/// The variants of a parsed tree are public: read it without going through `Node`.
pub fn model<S: AsRef<str>>(n: &HTMLNode<S>) -> H {
    let s = |x: &S| x.as_ref().to_string();
    let m = |x: &BTreeMap<S, S>| -> BTreeMap<String, String> { x.iter().map(|(k, v)| (s(k), s(v))).collect() };
    match n {
        HTMLNode::Comment(t) => H::Comment(s(t)),
        HTMLNode::Doctype(t) => H::Doctype(s(t)),
        HTMLNode::Text(t) => H::Text(s(t)),
        HTMLNode::Void { name, attrs } => H::Void { name: s(name), attrs: m(attrs) },
        HTMLNode::RawElement { name, attrs, content } => {
            H::Raw { name: s(name), attrs: m(attrs), content: s(content) }
        }
        HTMLNode::Element { name, attrs, children } => {
            H::El { name: s(name), attrs: m(attrs), kids: children.iter().map(model).collect() }
        }
    }
}

pub fn models<S: AsRef<str>>(n: &[HTMLNode<S>]) -> Vec<H> {
    n.iter().map(model).collect()
}

/// Back to the library's type, to build soups with a known tree.
pub fn unmodel<S: for<'a> From<&'a str> + Ord>(h: &H) -> HTMLNode<S> {
    let m = |x: &BTreeMap<String, String>| x.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect();
    match h {
        H::Comment(t) => HTMLNode::Comment(t.as_str().into()),
        H::Doctype(t) => HTMLNode::Doctype(t.as_str().into()),
        H::Text(t) => HTMLNode::Text(t.as_str().into()),
        H::Void { name, attrs } => HTMLNode::Void { name: name.as_str().into(), attrs: m(attrs) },
        H::Raw { name, attrs, content } => HTMLNode::RawElement {
            name: name.as_str().into(),
            attrs: m(attrs),
            content: content.as_str().into(),
        },
        H::El { name, attrs, kids } => HTMLNode::Element {
            name: name.as_str().into(),
            attrs: m(attrs),
            children: kids.iter().map(unmodel).collect(),
        },
    }
}

impl H {
    pub fn kids(&self) -> &[H] {
        match self {
            H::El { kids, .. } => kids,
            _ => &[],
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            H::El { name, .. } | H::Raw { name, .. } | H::Void { name, .. } => Some(name),
            _ => None,
        }
    }
    pub fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        match self {
            H::El { attrs, .. } | H::Raw { attrs, .. } | H::Void { attrs, .. } => Some(attrs),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            H::Text(t) => Some(t),
            _ => None,
        }
    }
}

/// preorder
pub fn walk<'a>(t: &'a [H], f: &mut dyn FnMut(&'a H, usize)) {
    fn go<'a>(n: &'a H, d: usize, f: &mut dyn FnMut(&'a H, usize)) {
        f(n, d);
        for k in n.kids() {
            go(k, d + 1, f);
        }
    }
    for n in t {
        go(n, 0, f);
    }
}

pub fn size(t: &[H]) -> usize {
    let mut n = 0;
    walk(t, &mut |_, _| n += 1);
    n
}

/// First difference between two forests, as a path and both sides.
pub fn diff(want: &[H], got: &[H]) -> String {
    fn short(h: Option<&H>) -> String {
        match h {
            None => "nothing".into(),
            Some(H::El { name, attrs, kids }) => {
                crate::case::clip(&format!("element {name:?} {attrs:?} with {} children", kids.len()))
            }
            Some(o) => crate::case::clip(&format!("{o:?}")),
        }
    }
    fn go(want: &[H], got: &[H], path: &str) -> Option<String> {
        for i in 0..want.len().max(got.len()) {
            let (w, g) = (want.get(i), got.get(i));
            if w == g {
                continue;
            }
            let here = format!("{path}/{i}");
            if let (Some(H::El { name: a, attrs: b, kids: c }), Some(H::El { name: x, attrs: y, kids: z })) = (w, g) {
                if a == x && b == y {
                    return go(c, z, &here);
                }
            }
            return Some(format!("at {here}:\n  expected {}\n  got      {}", short(w), short(g)));
        }
        None
    }
    go(want, got, "").unwrap_or_else(|| "no difference".into())
}

// ---------------------------------------------------------------- references

pub struct Entities {
    /// without the leading &, with ; where the name has one
    pub all: Vec<(String, String)>,
    pub map: HashMap<String, String>,
    /// single character -> names with ;
    pub by_char: HashMap<char, Vec<String>>,
}

pub fn entities() -> &'static Entities {
    static E: OnceLock<Entities> = OnceLock::new();
    E.get_or_init(|| {
        let mut all = vec![];
        let mut map = HashMap::new();
        let mut by_char: HashMap<char, Vec<String>> = HashMap::new();
        for l in include_str!("../entities.tsv").lines() {
            let (n, c) = l.split_once('\t').unwrap();
            let t: String = c.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
            let mut cs = t.chars();
            if let (Some(c), None, true) = (cs.next(), cs.next(), n.ends_with(';')) {
                by_char.entry(c).or_default().push(n.to_string());
            }
            all.push((n.to_string(), t.clone()));
            map.insert(n.to_string(), t);
        }
        Entities { all, map, by_char }
    })
}

/// One way to write `c` as a reference.
pub fn ref_for(rng: &mut Rng, c: char) -> String {
    let names = entities().by_char.get(&c);
    match rng.below(4) {
        0 => format!("&#{};", c as u32),
        1 => format!("&#x{:x};", c as u32),
        2 => format!("&#X{:X};", c as u32),
        _ => match names {
            Some(n) => format!("&{}", rng.pick(n)),
            None => format!("&#{:06};", c as u32),
        },
    }
}

// ---------------------------------------------------------------- vocabulary

pub const NAMES: [&str; 118] = [
    "a", "abbr", "address", "article", "aside", "audio", "b", "bdi", "bdo", "blockquote", "body", "button", "canvas",
    "caption", "cite", "code", "colgroup", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "div", "dl",
    "dt", "em", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head",
    "header", "hgroup", "html", "i", "image", "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "menu",
    "meter", "nav", "noscript", "object", "ol", "optgroup", "option", "output", "p", "picture", "pre", "progress", "q",
    "rp", "rt", "ruby", "s", "samp", "search", "section", "select", "slot", "small", "span", "strong", "sub",
    "summary", "sup", "svg", "table", "tbody", "td", "template", "tfoot", "th", "thead", "time", "title", "tr", "u",
    "ul", "var", "video", "basefont", "bring", "column", "embedded", "hrx", "imgs", "inputs", "linked", "metadata",
    "sources", "tracker", "wbrs", "areas", "scripts", "styled", "scriptx", "styles", "my-widget", "x-col", "svg:rect",
    "h-1.2_b",
];

pub const WORDS: [&str; 40] = [
    "a", "id", "class", "href", "x", "foo", "bar", "foo bar", "FOO", "Hello, world!", "", " ", "0", "42", "tnfr", "true",
    "https://example.com/?a=1&b=2#t", "/index.html", "naïve", "中文", "🦀", "e\u{301}", "\u{a0}", "a'b", "a\"b", "a<b>c",
    "{\"k\": [1, 2]}", "\\n\\t", "two\nlines", "tab\there", "100%", "-->", "</p>", "&amp;", "&", "&&;", "=", "`", "]]>",
    "ſtraße K",
];

fn text_char(rng: &mut Rng) -> char {
    match rng.below(20) {
        0 => *rng.pick(&['<', '>', '&', '"', '\'', '=', '/', '`', ';', '#', '!', '-', '?', '\\', ']', '[']),
        1 => *rng.pick(&['\n', '\t', ' ', ' ']),
        2 => *rng.pick(&['é', 'ß', '中', '𝔄', '\u{a0}', '\u{200b}', '\u{301}', '🦀', '\u{feff}', '\u{212a}', '\u{130}', 'ſ']),
        3 => char::from_u32(rng.range(0xa1, 0xd7ff) as u32).unwrap(),
        4 => ' ',
        5 => (b'A' + rng.below(26) as u8) as char,
        6 => (b'0' + rng.below(10) as u8) as char,
        _ => (b'a' + rng.below(26) as u8) as char,
    }
}

/// Any character that is not white space, a control or markup; every last and first byte of an encoding
pub fn edge_char(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(5) {
            0 | 1 => rng.range(0xa1, 0x24f),
            2 => rng.range(0x250, 0xffff),
            3 => rng.range(0x10000, 0x10ffff),
            _ => *rng.pick(&[0xe0, 0xc5, 0x105, 0x120, 0x3a0, 0x445, 0x2005 + 0x80, 0xfeff, 0x200b, 0x2060, 0x180e, 0x1f600, 0x3000 + 5]),
        };
        match char::from_u32(c as u32) {
            Some(c) if !c.is_whitespace() && !c.is_control() => return c,
            _ => {}
        }
    }
}

/// Sometimes other characters at either end.
fn edges(rng: &mut Rng, s: &mut String, pct: usize) {
    if rng.pct(pct) {
        s.insert(0, edge_char(rng));
    }
    if rng.pct(pct) {
        s.push(edge_char(rng));
    }
}

pub const BOM: char = '\u{feff}';

pub fn text(rng: &mut Rng, max: usize) -> String {
    if rng.pct(30) {
        return rng.pick(&WORDS).to_string();
    }
    let n = rng.small(max);
    // a byte order mark comes first in none of them: see the finding of C05
    let mut s: String = (0..n).map(|_| text_char(rng)).collect();
    if max > 4 && rng.pct(12) {
        s.insert(0, edge_char(rng));
    }
    if max > 4 && rng.pct(12) {
        s.push(edge_char(rng));
    }
    if s.starts_with(BOM) {
        s = s.trim_start_matches(BOM).to_string();
    }
    s
}

pub fn tag_name(rng: &mut Rng) -> String {
    let mut n = match rng.below(20) {
        0..=11 => rng.pick(&NAMES).to_string(),
        12 => {
            // a void or raw name with something attached
            let base = if rng.pct(80) { *rng.pick(&VOID) } else { *rng.pick(&RAW) };
            let suffix = *rng.pick(&["s", "x", "1", "-a", ":b", "group", "_", ".q", "é", "A"]);
            format!("{base}{suffix}")
        }
        13 => {
            // a proper prefix of one
            let base = if rng.pct(80) { *rng.pick(&VOID) } else { *rng.pick(&RAW) };
            base[..rng.range(1, base.len() - 1)].to_string()
        }
        _ => {
            let len = if rng.pct(2) { rng.range(50, 300) } else { rng.range(0, 8) };
            let mut s = String::new();
            s.push((b'a' + rng.below(26) as u8) as char);
            for _ in 0..len {
                s.push(match rng.below(16) {
                    0 => (b'0' + rng.below(10) as u8) as char,
                    1 => *rng.pick(&['-', '_', ':', '.']),
                    2 => *rng.pick(&['é', 'ß', '中', '🦀', '\u{212a}']),
                    3 => (b'A' + rng.below(26) as u8) as char,
                    _ => (b'a' + rng.below(26) as u8) as char,
                });
            }
            s
        }
    };
    if rng.pct(15) {
        n = mix_case(rng, &n);
    }
    if is_void(&n) || is_raw(&n) || RAWTEXT.iter().any(|r| r.eq_ignore_ascii_case(&n)) {
        n.push('q');
    }
    n
}

/// HTML5 gives these a content model of their own; nothing is promised for markup inside
pub const RAWTEXT: [&str; 7] = ["iframe", "xmp", "noembed", "noframes", "plaintext", "listing", "textarea"];

pub fn mix_case(rng: &mut Rng, s: &str) -> String {
    let m = rng.below(3);
    s.chars()
        .map(|c| match m {
            0 => c.to_ascii_uppercase(),
            1 => c.to_ascii_lowercase(),
            _ if rng.pct(50) => c.to_ascii_uppercase(),
            _ => c.to_ascii_lowercase(),
        })
        .collect()
}

pub const ATTRS: [&str; 30] = [
    "id", "class", "href", "src", "alt", "title", "name", "value", "type", "target", "rel", "style", "disabled",
    "checked", "data-x", "data-long-name", "aria-label", "xml:lang", "xlink:href", "@click", ":bind", "v-on:x.y",
    "[prop]", "(event)", "*ngIf", "#ref", "onclick", "t", "n", "_f",
];

/// What HTML, its relatives and templates know, and names close to them.
pub const ALL_ATTRS: &[&str] = &[
    "abbr", "accept", "accept-charset", "accesskey", "action", "align", "alink", "allow", "allowfullscreen", "alt", "archive",
    "async", "autocapitalize", "autocomplete", "autofocus", "autoplay", "axis", "background", "behavior", "bgcolor", "blocking",
    "border", "bordercolor", "cellpadding", "cellspacing", "char", "charoff", "charset", "checked", "cite", "class", "classid",
    "clear", "code", "codebase", "codetype", "color", "cols", "colspan", "compact", "content", "contenteditable", "controls",
    "coords", "crossorigin", "data", "datetime", "declare", "decoding", "default", "defer", "dir", "direction", "dirname",
    "disabled", "download", "draggable", "enctype", "enterkeyhint", "event", "face", "fetchpriority", "for", "form", "formaction",
    "formenctype", "formmethod", "formnovalidate", "formtarget", "frame", "frameborder", "headers", "height", "hidden", "high",
    "href", "hreflang", "hspace", "http-equiv", "id", "imagesizes", "imagesrcset", "inert", "inputmode", "integrity", "is", "ismap",
    "itemid", "itemprop", "itemref", "itemscope", "itemtype", "kind", "label", "lang", "language", "link", "list", "longdesc",
    "loop", "low", "lowsrc", "manifest", "marginheight", "marginwidth", "max", "maxlength", "media", "method", "min", "minlength",
    "multiple", "muted", "name", "nohref", "nomodule", "nonce", "noresize", "noshade", "novalidate", "nowrap", "object", "onabort",
    "onblur", "onclick", "onerror", "onload", "onmouseover", "onsubmit", "open", "optimum", "part", "pattern", "ping", "placeholder",
    "playsinline", "popover", "popovertarget", "poster", "preload", "profile", "prompt", "property", "readonly", "referrerpolicy",
    "rel", "required", "rev", "reversed", "role", "rows", "rowspan", "rules", "sandbox", "scheme", "scope", "scrolling", "selected",
    "shadowrootmode", "shape", "size", "sizes", "slot", "span", "spellcheck", "src", "srcdoc", "srclang", "srcset", "standby",
    "start", "step", "style", "summary", "tabindex", "target", "text", "title", "translate", "type", "typemustmatch", "usemap",
    "valign", "value", "valuetype", "version", "vlink", "vspace", "width", "wrap", "xmlns", "xmlns:v", "xmlns:xlink", "xml:lang",
    "xml:space", "xml:base", "xml:id", "xlink:href", "xlink:title", "xmlnsx", "xml", "xmlx", "aria-label", "aria-hidden", "data-",
    "data-x", "data-id", "data-class", "classname", "class-name", "ids", "_id", "-id", "id-", "id.", "v-if", "v-bind:class",
    "v-on:click.prevent", ":class", "@click", "#ref", "*ngif", "[class.a]", "(click)", "[(ng-model)]", "{{x}}", "$x", "%x", "^x",
    "!x", "?x", "x!", "x?", "x;", ";", ",", "x,y", "&x", "x&", "&amp;", "&amp", "+", "-", "_", ".", ":", "~", "|", "\\", "`", "0",
    "1a", "é", "名", "🦀", "\u{a0}", "\u{2028}", "\u{feff}", "attr", "attribute", "key", "ref", "k", "x", "true", "false",
    "null", "undefined", "nan", "constructor", "__proto__",
];

pub fn attr_name(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 | 1 => rng.pick(ALL_ATTRS).to_string(),
        2..=6 => rng.pick(&ATTRS).to_string(),
        7 => mix_case_owned(rng),
        _ => {
            let n = if rng.pct(2) { 200 } else { rng.range(1, 10) };
            (0..n)
                .map(|_| match rng.below(12) {
                    0 => *rng.pick(&['-', '_', ':', '.', '@', '#', '*', '[', ']', '(', ')', '!', '?', '$', '%', '^', '+', ',', ';', '|', '~', '{', '}', '\\']),
                    1 => *rng.pick(&['é', '中', '🦀', '\u{a0}', '\u{3000}', '\u{2028}']),
                    2 => (b'0' + rng.below(10) as u8) as char,
                    3 => (b'A' + rng.below(26) as u8) as char,
                    _ => (b'a' + rng.below(26) as u8) as char,
                })
                .collect()
        }
    }
}

fn mix_case_owned(rng: &mut Rng) -> String {
    let s = *rng.pick(&ATTRS);
    mix_case(rng, s)
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Cfg {
    pub nodes: usize,
    pub depth: usize,
    pub attrs: usize,
    pub text: usize,
    /// script/style
    pub raw: bool,
    pub doctype: bool,
    /// every element gets a unique attribute and every other leaf a unique text
    pub ids: bool,
}

impl Cfg {
    pub fn any(rng: &mut Rng) -> Cfg {
        let big = rng.pct(3);
        Cfg {
            nodes: if big { rng.range(100, 1500) } else { rng.range(1, 40) },
            depth: if rng.pct(5) { 40 } else { rng.range(1, 8) },
            attrs: if rng.pct(3) { 60 } else { 5 },
            text: if rng.pct(2) { 5000 } else { 60 },
            raw: true,
            doctype: true,
            ids: false,
        }
    }
}

pub fn attrs(rng: &mut Rng, max: usize, tmax: usize) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for _ in 0..rng.small(max) {
        let n = attr_name(rng);
        if seen.insert(n.to_lowercase()) {
            let v = if rng.pct(15) { String::new() } else { text(rng, tmax) };
            m.insert(n, v);
        }
    }
    m
}

pub fn raw_content(rng: &mut Rng, name: &str, max: usize) -> String {
    const BITS: [&str; 34] = [
        "if (1 < 2) { alert('x'); }", "<div>", "</div>", "<!--", "-->", "&amp;", "&lt;b&gt;", "</scrip", "</styl",
        "<script>", "<style>", "</scriptx>", "</style-x>", "</ script>", "</script/>", "\"</p>\"", "<br>", "a<b",
        "'", "\"", "<", ">", "</", "<!doctype html>", "\n", " ", "\t", "🦀", "var s = 1;", "]]>", "é", "<a href=x>",
        "</SCRIP", "x",
    ];
    let n = rng.small(max.min(200));
    let mut s = String::new();
    for _ in 0..n {
        if rng.pct(10) {
            s.push_str(if name.eq_ignore_ascii_case("script") { "</style>" } else { "</script>" });
        } else {
            s.push_str(rng.pick(&BITS));
        }
    }
    while let Some(at) = raw_close(&s, name) {
        s.truncate(at);
    }
    let mut s = s.trim().to_string();
    edges(rng, &mut s, 10);
    // "</script/" style leftovers are ended differently by browsers: keep them out at the very end
    s
}

/// Where `</name` followed by something that may end a tag name occurs.
pub fn raw_close(s: &str, name: &str) -> Option<usize> {
    let b = s.as_bytes();
    for (at, _) in s.match_indices("</") {
        let end = at + 2 + name.len();
        if end <= b.len()
            && b[at + 2..end].eq_ignore_ascii_case(name.as_bytes())
            && b.get(end).is_none_or(|c| c.is_ascii_whitespace() || *c == b'/' || *c == b'>')
        {
            return Some(at);
        }
    }
    None
}

pub fn comment_text(rng: &mut Rng, max: usize) -> String {
    const BITS: [&str; 23] = [
        "<p>", "</p>", "<!", "&amp;", "-", " - ", "<b a='", "\"", "'", ">", "é", "🦀", " note ", "\n", "</script>",
        "<script>", "<!doctype html>", "<", "x", "&#65;", "<!--", " -- ", " ",
    ];
    let n = rng.small(max.min(100));
    let mut s: String = (0..n).map(|_| *rng.pick(&BITS)).collect();
    if rng.pct(20) {
        s.push_str(&text(rng, max));
    }
    edges(rng, &mut s, 8);
    for end in ["-->", "--!>"] {
        while s.contains(end) {
            s = s.replace(end, "- ");
        }
    }
    if s.starts_with('>') || s.starts_with("->") {
        s.insert(0, ' ');
    }
    if s.ends_with('-') || s.ends_with("--!") || s.ends_with("<!") {
        s.push(' ');
    }
    s
}

pub fn doctype_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 | 1 => "html".into(),
        2 => "html SYSTEM \"about:legacy-compat\"".into(),
        3 => "html PUBLIC '-//W3C//DTD HTML 4.01//EN' 'http://www.w3.org/TR/html4/strict.dtd'".into(),
        4 if rng.pct(50) => format!("html {}", edge_char(rng)),
        _ => rng.pick(&["HTML", "math &amp; &lt;", "a<b", "x \n y", "é🦀", "svg [<!ENTITY"]).to_string(),
    }
}

pub fn forest(rng: &mut Rng, cfg: &Cfg) -> Vec<H> {
    let mut left = cfg.nodes;
    let mut uid = 0;
    let top = rng.range(1, cfg.nodes.min(8));
    gen(rng, cfg, &mut left, &mut uid, cfg.depth, top)
}

fn gen(rng: &mut Rng, cfg: &Cfg, left: &mut usize, uid: &mut usize, depth: usize, want: usize) -> Vec<H> {
    let mut out: Vec<H> = vec![];
    for _ in 0..want {
        if *left == 0 {
            break;
        }
        *left -= 1;
        *uid += 1;
        let id = *uid;
        let idattr = |m: &mut BTreeMap<String, String>| {
            if cfg.ids {
                m.insert("uid".into(), format!("n{id}"));
            }
        };
        let node = match rng.below(100) {
            0..=54 if depth > 0 => {
                let name = tag_name(rng);
                let mut a = attrs(rng, cfg.attrs, cfg.text);
                idattr(&mut a);
                let n = rng.small(if cfg.nodes > 100 { 60 } else { 12 });
                let n = if rng.pct(30) { 0 } else { n };
                let mut kids = gen(rng, cfg, left, uid, depth - 1, n);
                if name.eq_ignore_ascii_case("title") {
                    kids.retain(|k| matches!(k, H::Text(_)));
                    kids.truncate(1);
                }
                H::El { name, attrs: a, kids }
            }
            0..=69 => {
                if matches!(out.last(), Some(H::Text(_))) {
                    continue;
                }
                let mut t = text(rng, cfg.text);
                if cfg.ids {
                    t = format!("t{id}");
                }
                if t.is_empty() {
                    t.push('x');
                }
                H::Text(t)
            }
            70..=82 => {
                let mut name = rng.pick(&VOID).to_string();
                if rng.pct(20) {
                    name = mix_case(rng, &name);
                }
                let mut a = attrs(rng, cfg.attrs, cfg.text);
                idattr(&mut a);
                H::Void { name, attrs: a }
            }
            83..=89 if cfg.raw => {
                let mut name = rng.pick(&RAW).to_string();
                if rng.pct(20) {
                    name = mix_case(rng, &name);
                }
                let mut a = attrs(rng, cfg.attrs, cfg.text);
                idattr(&mut a);
                let content = raw_content(rng, &name, cfg.text);
                H::Raw { name, attrs: a, content }
            }
            90..=93 if cfg.doctype => H::Doctype(if cfg.ids { format!("d{id}") } else { doctype_text(rng) }),
            _ => H::Comment(if cfg.ids { format!("c{id}") } else { comment_text(rng, cfg.text) }),
        };
        out.push(node);
    }
    out
}

// ---------------------------------------------------------------- spelling

#[derive(Default, Debug, Clone)]
pub struct Spelled {
    pub dq: u64,
    pub sq: u64,
    pub unq: u64,
    pub bare: u64,
    pub refs: u64,
    pub selfclose: u64,
    pub casemix: u64,
    pub breaks: u64,
}

pub struct Speller<'r> {
    pub rng: &'r mut Rng,
    pub out: String,
    pub st: Spelled,
    /// percent of ordinary characters written as references
    pub refpct: usize,
    /// restrict to spellings the lenient parser reads the same way (no "/>" on non-void)
    pub html5: bool,
}

const WS: [&str; 9] = [" ", " ", " ", "  ", "\n", "\t", "\r\n", "\n    ", " \t\n "];

impl Speller<'_> {
    fn ws1(&mut self) {
        let w = *self.rng.pick(&WS);
        let w = if self.html5 && w.contains('\r') { "\n" } else { w };
        if w.contains(['\n', '\t']) {
            self.st.breaks += 1;
        }
        self.out.push_str(w);
    }
    fn ws0(&mut self, pct: usize) {
        if self.rng.pct(pct) {
            self.ws1();
        }
    }
    fn put_text(&mut self, t: &str, also: &[char]) {
        for c in t.chars() {
            if c == '&' || also.contains(&c) || (self.refpct > 0 && c != '\n' && !c.is_control() && self.rng.pct(self.refpct)) {
                let r = ref_for(self.rng, c);
                self.st.refs += 1;
                self.out.push_str(&r);
            } else {
                self.out.push(c);
            }
        }
    }
    fn attrs(&mut self, attrs: &BTreeMap<String, String>) -> bool {
        let mut order: Vec<_> = attrs.iter().collect();
        self.rng.shuffle(&mut order);
        let mut open = false; // last thing written would swallow a '/'
        for (k, v) in order {
            self.ws1();
            self.out.push_str(k);
            open = false;
            if v.is_empty() && self.rng.pct(50) {
                self.st.bare += 1;
                continue;
            }
            self.ws0(12);
            self.out.push('=');
            self.ws0(12);
            let plain = !v.is_empty()
                && !v.contains(|c: char| c.is_ascii_whitespace() || "\"'=<>`".contains(c) || c.is_control());
            if plain && self.rng.pct(40) {
                self.st.unq += 1;
                // a reference could put a forbidden character nowhere: keep the ampersands only
                self.put_text(v, &[]);
                open = true;
            } else if self.rng.pct(50) {
                self.st.sq += 1;
                self.out.push('\'');
                self.put_text(v, &['\'']);
                self.out.push('\'');
            } else {
                self.st.dq += 1;
                self.out.push('"');
                self.put_text(v, &['"']);
                self.out.push('"');
            }
        }
        open
    }
    fn start(&mut self, name: &str, attrs: &BTreeMap<String, String>, close: bool) {
        self.out.push('<');
        self.out.push_str(name);
        let open = self.attrs(attrs);
        if close {
            if open {
                self.ws1();
            } else {
                self.ws0(40);
            }
            self.st.selfclose += 1;
            self.out.push_str("/>");
        } else {
            self.ws0(15);
            self.out.push('>');
        }
    }
    fn end(&mut self, name: &str) {
        let n = if self.rng.pct(15) {
            self.st.casemix += 1;
            mix_case(self.rng, name)
        } else {
            name.to_string()
        };
        self.out.push_str("</");
        self.out.push_str(&n);
        self.ws0(10);
        self.out.push('>');
    }
    pub fn node(&mut self, n: &H) {
        match n {
            H::Comment(t) => {
                self.out.push_str("<!--");
                self.out.push_str(t);
                self.out.push_str("-->");
            }
            H::Doctype(t) => {
                self.out.push_str(self.rng.pick(&["<!DOCTYPE", "<!doctype", "<!DOCTYPE", "<!Doctype"]));
                self.out.push(*self.rng.pick(&[' ', ' ', ' ', '\t', '\n']));
                self.out.push_str(t);
                self.out.push('>');
            }
            H::Text(t) => self.put_text(t, &['<']),
            H::Void { name, attrs } => {
                let c = self.rng.pct(40);
                self.start(name, attrs, c);
            }
            H::Raw { name, attrs, content } => {
                if content.is_empty() && !self.html5 && self.rng.pct(40) {
                    self.start(name, attrs, true);
                    return;
                }
                self.start(name, attrs, false);
                self.ws0(30);
                self.out.push_str(content);
                self.ws0(30);
                self.end(name);
            }
            H::El { name, attrs, kids } => {
                if kids.is_empty() && !self.html5 && self.rng.pct(40) {
                    self.start(name, attrs, true);
                    return;
                }
                self.start(name, attrs, false);
                for k in kids {
                    self.node(k);
                }
                self.end(name);
            }
        }
    }
}

pub fn spell(rng: &mut Rng, t: &[H], refpct: usize, html5: bool) -> (String, Spelled) {
    let mut s = Speller { rng, out: String::new(), st: Spelled::default(), refpct, html5 };
    for n in t {
        s.node(n);
    }
    (s.out, s.st)
}

/// Structural or textual damage to a document (the result may be anything).
pub fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        if c.is_empty() {
            break;
        }
        let i = rng.below(c.len());
        match rng.below(9) {
            0 => {
                c.remove(i);
            }
            1 => {
                let b = *rng.pick(&['<', '>', '/', '=', '"', '\'', '&', ';', '-', '!', ' ', '\n', 'x', '#']);
                c.insert(i, b);
            }
            2 => {
                let j = rng.below(c.len());
                c.swap(i, j);
            }
            3 => c.truncate(i),
            4 => {
                let j = (i + rng.range(1, 20)).min(c.len());
                c.drain(i..j);
            }
            5 => {
                let j = (i + rng.range(1, 20)).min(c.len());
                let part: Vec<char> = c[i..j].to_vec();
                let k = rng.below(c.len());
                c.splice(k..k, part);
            }
            6 => {
                // remove one markup delimiter
                let d: Vec<usize> = (0..c.len()).filter(|k| "<>/\"'=-".contains(c[*k])).collect();
                if !d.is_empty() {
                    c.remove(*rng.pick(&d));
                }
            }
            7 => {
                let b = *rng.pick(&["</p>", "<p>", "<br>", "<!--", "-->", "<script>", "</script>", "</", "/>", "<!doctype x>", "<!doctype\nx>", "<!x>", "<?x?>", "</b x>", "/ ", "&lt;", "<i/>", "</br>", "<div a='", "\u{212a}", "é"]);
                c.splice(i..i, b.chars());
            }
            _ => c[i] = text_char(rng),
        }
    }
    c.into_iter().collect()
}
