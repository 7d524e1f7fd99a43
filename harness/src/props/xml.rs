//! C07, C08: the XML parser.
use std::{
    collections::BTreeMap,
    io::{self, Read},
};

use soupy::{
    parser::{Parser, XMLNode, XMLParser},
    Queryable, Soup,
};

use super::at;
use crate::{
    case::{clip, fam, Cx, Prop, Res, Tier},
    ensure,
    query::{self, Snap},
    xmlm::{self, Cfg, XRef, X},
};

type Parsed = Result<Vec<XMLNode>, xmltree::ParseError>;

/// Both entry points, each on a reader of its own; they must agree.
pub fn parse_with<R: Read>(mut mk: impl FnMut() -> R) -> Result<Parsed, String> {
    let p = XMLParser::parse(mk());
    let s = Soup::xml(mk());
    match (&p, &s) {
        (Ok(n), Ok(s)) => {
            query::base(s, &Snap::of(n)).map_err(|e| format!("Soup::xml and its parser differ: {e}"))?;
            let (want, top) = (xmlm::models(n), s.strict().all().map(|i| xmlm::model(&i)).collect::<Vec<X>>());
            ensure!(top == want, "Soup::xml and its parser differ {}", xmlm::diff(&want, &top));
        }
        (Err(a), Err(b)) => {
            ensure!(format!("{a:?}") == format!("{b:?}"), "Soup::xml failed with {b:?}, its parser with {a:?}");
        }
        _ => {
            return Err(format!(
                "XMLParser::parse gave {}, Soup::xml {}",
                if p.is_ok() { "a tree" } else { "an error" },
                if s.is_ok() { "a tree" } else { "an error" }
            ))
        }
    }
    Ok(p)
}
pub fn parse(bytes: &[u8]) -> Result<Parsed, String> {
    at(&String::from_utf8_lossy(bytes));
    parse_with(|| bytes)
}

pub fn show(bytes: &[u8]) -> String {
    match std::str::from_utf8(bytes) {
        Ok(s) => clip(s),
        Err(_) => format!("{:02x?}", &bytes[..bytes.len().min(3000)]),
    }
}

fn expect_tree(bytes: &[u8], want: &[X]) -> Res {
    match parse(bytes).map_err(|e| format!("{e}\ninput: {}", show(bytes)))? {
        Err(e) => Err(format!("well-formed document rejected: {e:?}\ninput: {}", show(bytes))),
        Ok(n) => {
            let got = xmlm::models(&n);
            ensure!(got == want, "wrong tree {}\ninput: {}", xmlm::diff(want, &got), show(bytes));
            Ok(())
        }
    }
}
fn expect_error(bytes: &[u8], why: &str) -> Res {
    match parse(bytes).map_err(|e| format!("{e}\ninput: {}", show(bytes)))? {
        Err(_) => Ok(()),
        Ok(n) => Err(format!(
            "malformed document accepted ({why}) as {}\ninput: {}",
            clip(&format!("{:?}", xmlm::models(&n))),
            show(bytes)
        )),
    }
}

// ---------------------------------------------------------------------- C07

fn c07_random(cx: &mut Cx) -> Res {
    for _ in 0..10 {
        let cfg = Cfg::any(&mut cx.rng);
        let d = xmlm::doc(&mut cx.rng, cfg);
        cx.eval(&d.bytes, xmlm::size(&d.nodes) >= 3);
        for (k, v) in &d.count {
            cx.count(k, *v);
        }
        cx.count(
            match d.enc {
                xmlm::Enc::Utf8 => "UTF-8 documents",
                xmlm::Enc::Utf8Bom => "UTF-8 documents with byte order mark",
                xmlm::Enc::Utf16Le | xmlm::Enc::Utf16Be => "UTF-16 documents",
                xmlm::Enc::Latin1 => "ISO-8859-1 documents",
            },
            1,
        );
        cx.sample(|| d.text.clone());
        expect_tree(&d.bytes, &d.nodes)?;
    }
    Ok(())
}

fn el(name: &str, attrs: BTreeMap<String, String>, kids: Vec<X>) -> X {
    X::El { prefix: None, ns: None, scope: None, name: name.into(), attrs, kids }
}

fn c07_shapes(cx: &mut Cx) -> Res {
    let k = match cx.tier {
        Tier::Quick => 1,
        Tier::Thorough => 1 + cx.rng.below(6),
    };
    let none = BTreeMap::new;
    let one = |i: usize| BTreeMap::from([("i".to_string(), i.to_string())]);
    let (doc, want) = match cx.idx % 6 {
        0 => {
            let n = 300 * k;
            let mut d = String::new();
            for i in 0..n {
                d.push_str(&format!("<l{i}>x{i}<e i='{i}'/>"));
            }
            for i in (0..n).rev() {
                d.push_str(&format!("</l{i}>"));
            }
            let mut t = vec![];
            for i in (0..n).rev() {
                let mut kids = vec![X::Text(format!("x{i}")), el("e", one(i), vec![])];
                kids.append(&mut t);
                t = vec![el(&format!("l{i}"), none(), kids)];
            }
            (d, t)
        }
        1 => {
            let n = 4000 * k;
            let d: String = (0..n).map(|i| format!("<e i=\"{i}\">{i}</e>")).collect();
            let kids = (0..n).map(|i| el("e", one(i), vec![X::Text(i.to_string())])).collect();
            (format!("<r>{d}</r>"), vec![el("r", none(), kids)])
        }
        2 => {
            let n = 1000 * k;
            let d: String = (0..n).map(|i| format!(" a{i}='v{i}'")).collect();
            (format!("<r{d}/>"), vec![el("r", (0..n).map(|i| (format!("a{i}"), format!("v{i}"))).collect(), vec![])])
        }
        3 => {
            let t = "text & < é ".repeat(20000 * k);
            let e = t.replace('&', "&amp;").replace('<', "&lt;");
            (
                format!("<r v='{e}'>{e}<![CDATA[{t}]]><!--{t}--></r>"),
                vec![el("r", BTreeMap::from([("v".into(), t.clone())]), vec![
                    X::Text(t.clone()),
                    X::CData(t.clone()),
                    X::Comment(t.clone()),
                ])],
            )
        }
        4 => {
            let n = 1500 * k;
            let d: String = (0..n).map(|i| format!("t{i}<!--c{i}--><![CDATA[d{i}]]><?p{i} q{i}?>")).collect();
            let kids = (0..n)
                .flat_map(|i| {
                    [
                        X::Text(format!("t{i}")),
                        X::Comment(format!("c{i}")),
                        X::CData(format!("d{i}")),
                        X::Pi(format!("p{i}"), Some(format!("q{i}"))),
                    ]
                })
                .collect();
            (format!("<r>{d}</r>"), vec![el("r", none(), kids)])
        }
        _ => {
            let n = 500 * k;
            let d: String = (0..n).map(|i| format!("<!--b{i}-->\n<?p{i}?>")).collect();
            let e: String = (0..n).map(|i| format!("\n<!--a{i}-->")).collect();
            let mut t: Vec<X> = (0..n).flat_map(|i| [X::Comment(format!("b{i}")), X::Pi(format!("p{i}"), None)]).collect();
            t.push(el("r", none(), vec![]));
            t.extend((0..n).map(|i| X::Comment(format!("a{i}"))));
            (format!("{d}<r/>{e}"), t)
        }
    };
    cx.eval(doc.as_bytes(), true);
    cx.count("large documents", 1);
    expect_tree(doc.as_bytes(), &want)
}

/// Documents of mebibytes, up to just beyond a power of two.
fn c07_huge(cx: &mut Cx) -> Res {
    let max: usize = [1 << 20, 1 << 22, 1 << 24][cx.idx as usize % 3];
    let none = BTreeMap::new;
    let unit = *cx.rng.pick(&["lorem ipsum\n", "é\n", "x\n", "🦀 \n"]);
    let long = unit.repeat(max / unit.len() + 9) + "x";
    let last = || el("last", none(), vec![]);
    let (d, mut kids) = match cx.idx as usize / 3 % 4 {
        0 => (long.clone(), vec![X::Text(long)]),
        1 => (format!("<!--{long}--><![CDATA[{long}]]>"), vec![X::Comment(long.clone()), X::CData(long)]),
        2 => {
            let v = long.replace('\n', " ");
            (format!("<a k='{v}'/>"), vec![el("a", BTreeMap::from([("k".into(), v)]), vec![])])
        }
        _ => {
            let n = max.min(1 << 21) / 16;
            (
                (0..n).map(|i| format!("<p>{i}</p>\n")).collect(),
                (0..n).map(|i| el("p", none(), vec![X::Text(i.to_string())])).collect(),
            )
        }
    };
    kids.push(last());
    let doc = format!("<r>{d}<last/></r>");
    cx.eval(doc.as_bytes(), true);
    cx.count("documents of mebibytes", 1);
    expect_tree(doc.as_bytes(), &[el("r", none(), kids)])
}

/// One dimension of a document grown to every size of interest.
fn c07_vast(cx: &mut Cx) -> Res {
    let n = super::queries::VAST[cx.idx as usize % super::queries::VAST.len()];
    let none = BTreeMap::new;
    let unit = *cx.rng.pick(&["a", "ab", "é", "中", "xy"]);
    let long: String = unit.chars().cycle().take(n).collect();
    let one = |k: &str, v: &str| BTreeMap::from([(k.to_string(), v.to_string())]);
    let r = |d: String, kids: Vec<X>| (format!("<r>{d}</r>"), vec![el("r", none(), kids)]);
    let (doc, want) = match cx.idx as usize / super::queries::VAST.len() % 10 {
        0 => r((0..n).map(|i| format!("<e i='{i}'/>")).collect(), (0..n).map(|i| el("e", one("i", &i.to_string()), vec![])).collect()),
        1 => {
            let n = n.min(20_000);
            let d: String = (0..n).map(|i| format!(" a{i}=\"{i}\"")).collect();
            (format!("<r{d}/>"), vec![el("r", (0..n).map(|i| (format!("a{i}"), i.to_string())).collect(), vec![])])
        }
        2 => r(format!("{long}<b/>{long}"), vec![X::Text(long.clone()), el("b", none(), vec![]), X::Text(long)]),
        3 => (format!("<r k='{long}'/>"), vec![el("r", one("k", &long), vec![])]),
        4 => r(format!("<!--{long}-->x"), vec![X::Comment(long), X::Text("x".into())]),
        5 => r(format!("<![CDATA[{long}<]]>x"), vec![X::CData(format!("{long}<")), X::Text("x".into())]),
        6 => r(format!("<?p {long}?>x"), vec![X::Pi("p".into(), Some(long)), X::Text("x".into())]),
        7 => (format!("<e{long} k{long}='v'>x</e{long}>"), vec![el(&format!("e{long}"), one(&format!("k{long}"), "v"), vec![X::Text("x".into())])]),
        8 => r("&lt;&amp;&#65;".repeat(n / 3), vec![X::Text("<&A".repeat(n / 3))]),
        _ => {
            let d: String = (0..n).map(|i| ["t<a/>", "<!--c-->", "<![CDATA[d]]>", "<?p q?>", "<b>x</b>"][i % 5]).collect();
            let kids = (0..n)
                .flat_map(|i| match i % 5 {
                    0 => vec![X::Text("t".into()), el("a", none(), vec![])],
                    1 => vec![X::Comment("c".into())],
                    2 => vec![X::CData("d".into())],
                    3 => vec![X::Pi("p".into(), Some("q".into()))],
                    _ => vec![el("b", none(), vec![X::Text("x".into())])],
                })
                .collect();
            r(d, kids)
        }
    };
    cx.eval(doc.as_bytes(), true);
    cx.count("documents of a critical size", 1);
    expect_tree(doc.as_bytes(), &want)
}

fn c07_chars(cx: &mut Cx) -> Res {
    let block = if cx.tier == Tier::Thorough || cx.idx < 256 { cx.idx } else { cx.rng.below(0x1100) as u64 };
    let mut d = String::from("<r>");
    let mut t = vec![];
    for i in block * 256..block * 256 + 256 {
        let Some(c) = u32::try_from(i).ok().and_then(char::from_u32) else { continue };
        if (c < ' ' && !"\t\n".contains(c)) || ('\u{7f}'..='\u{9f}').contains(&c) || (i & 0xfffe) == 0xfffe {
            continue;
        }
        if !"<&".contains(c) {
            d.push_str(&format!("<a>x{c}y</a>"));
            t.push(el("a", BTreeMap::new(), vec![X::Text(format!("x{c}y"))]));
            if !"\t\n'".contains(c) {
                d.push_str(&format!("<a k='{c}'/>"));
                t.push(el("a", BTreeMap::from([("k".into(), c.to_string())]), vec![]));
            }
        }
        d.push_str(&format!("<a k=\"&#{i};\">&#x{i:x};z&#{i};</a><!--.{c}.--><![CDATA[.{c}.]]>"));
        t.push(el("a", BTreeMap::from([("k".into(), c.to_string())]), vec![X::Text(format!("{c}z{c}"))]));
        t.push(X::Comment(format!(".{c}.")));
        t.push(X::CData(format!(".{c}.")));
        if !"->]".contains(c) {
            d.push_str(&format!("<!--{c}x{c}--><![CDATA[{c}x{c}]]>"));
            t.push(X::Comment(format!("{c}x{c}")));
            t.push(X::CData(format!("{c}x{c}")));
        }
        if !"<&\"".contains(c) && !c.is_whitespace() {
            d.push_str(&format!("<a k=\"{c}x{c}\">{c}x{c}</a>"));
            t.push(el("a", BTreeMap::from([("k".into(), format!("{c}x{c}"))]), vec![X::Text(format!("{c}x{c}"))]));
        }
        cx.count("characters checked in all positions", 1);
    }
    d.push_str("</r>");
    cx.eval(d.as_bytes(), true);
    expect_tree(d.as_bytes(), &[el("r", BTreeMap::new(), t)])
}

pub fn damage(cx: &mut Cx, b: &mut Vec<u8>) {
    for _ in 0..cx.rng.range(1, 3) {
        if b.is_empty() {
            return;
        }
        let i = cx.rng.below(b.len());
        match cx.rng.below(8) {
            0 => {
                b.remove(i);
            }
            1 => b.insert(i, *cx.rng.pick(b"<>&;/='\"-!?[] x")),
            2 => b.truncate(i),
            3 => {
                let j = (i + cx.rng.range(1, 20)).min(b.len());
                b.drain(i..j);
            }
            4 => {
                let j = (i + cx.rng.range(1, 20)).min(b.len());
                let part = b[i..j].to_vec();
                let k = cx.rng.below(b.len());
                b.splice(k..k, part);
            }
            5 => {
                let part = *cx.rng.pick(&["<!---->", "<x/>", "</a>", "<a>", "&amp;", "&nope;", "<![CDATA[ ]]>", "<?p?>", " ", "\n", "]]>", "t"]);
                b.splice(i..i, part.bytes());
            }
            6 => b[i] = cx.rng.below(256) as u8,
            _ => {
                let d: Vec<usize> = (0..b.len()).filter(|k| b"<>/\"'=".contains(&b[*k])).collect();
                if !d.is_empty() {
                    let k = *cx.rng.pick(&d);
                    b.remove(k);
                }
            }
        }
    }
}

pub fn small_doc(cx: &mut Cx) -> xmlm::Doc {
    let mut cfg = Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(20);
    xmlm::doc(&mut cx.rng, cfg)
}

/// arbitrary bytes against the tree built from xml-rs' events
fn judge_events(cx: &mut Cx, b: &[u8], wf: bool) -> Res {
    match xmlm::reference(b) {
        XRef::Wf(t) if wf => {
            cx.eval(b, true);
            cx.count("event streams compared", 1);
            expect_tree(b, &t)
        }
        XRef::Err(e) if !wf => {
            cx.eval(b, true);
            cx.count("damaged documents rejected by xml-rs", 1);
            expect_error(b, &e)
        }
        _ => Ok(()),
    }
}
fn c07_events(cx: &mut Cx) -> Res {
    for _ in 0..6 {
        let d = small_doc(cx);
        judge_events(cx, &d.bytes, true)?;
        for _ in 0..8 {
            let mut b = d.bytes.clone();
            damage(cx, &mut b);
            judge_events(cx, &b, true)?;
        }
    }
    Ok(())
}
const TOK: [&str; 25] = [
    "<![CDATA[]]]]><![CDATA[>]]>", "<![CDATA[a]]]]>", "<![CDATA[>b]]>",
    "<a>", "</a>", "<b k='v'>", "</b>", "<c/>", "t", " ", "\n", "<!--c-->", "<![CDATA[d]]>", "<![CDATA[ ]]>", "<?p q?>", "&amp;",
    "&#32;", "&#9;", "<a xmlns='u'>", "<p:a xmlns:p='v' p:k='1'>", "</p:a>", "]]", ">", "é", "<d>x</d>",
];
fn tokens(cx: &mut Cx, wf: bool) -> Res {
    for _ in 0..100 {
        let n = cx.rng.range(1, 10);
        let mut d = String::from("<r>");
        for _ in 0..n {
            d.push_str(cx.rng.pick(&TOK));
        }
        d.push_str("</r>");
        if cx.rng.pct(50) {
            // balance it
            let mut stack: Vec<&str> = vec![];
            let mut o = String::from("<r>");
            for _ in 0..n {
                let t = *cx.rng.pick(&TOK);
                if let Some(c) = t.strip_prefix("</") {
                    if stack.last() == Some(&c.trim_end_matches('>')) {
                        stack.pop();
                        o.push_str(t);
                    }
                    continue;
                }
                o.push_str(t);
                if t.starts_with('<') && !t.ends_with("/>") && !t.starts_with("<!") && !t.starts_with("<?") && !t.contains("</") {
                    stack.push(t[1..].split([' ', '>']).next().unwrap());
                }
            }
            while let Some(s) = stack.pop() {
                o.push_str(&format!("</{s}>"));
            }
            o.push_str("</r>");
            d = o;
        }
        judge_events(cx, d.as_bytes(), wf)?;
    }
    Ok(())
}
fn c07_tokens(cx: &mut Cx) -> Res {
    tokens(cx, true)
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        families: vec![
            fam("chars", 420, 0x1100, c07_chars),
            fam("vast", 140, 1400, c07_vast),
            fam("huge", 12, 48, c07_huge),
            fam("shapes", 24, 1200, c07_shapes),
            fam("random", 12_000, 300_000, c07_random),
            fam("events", 7500, 150_000, c07_events),
            fam("tokens", 8000, 100_000, c07_tokens),
        ],
        need: vec![
            ("elements", 20_000),
            ("attributes", 10_000),
            ("texts", 5000),
            ("comments", 1000),
            ("CDATA sections", 1000),
            ("processing instructions", 1000),
            ("namespace declarations", 1000),
            ("references", 2000),
            ("nodes outside the root", 1000),
            ("UTF-8 documents", 1000),
            ("UTF-16 documents", 200),
            ("ISO-8859-1 documents", 200),
            ("event streams compared", 5000),
        ],
        rule: "random documents with namespaces, all node kinds, prologs and encodings against the tree they were written from, and random/damaged bytes against the tree of xml-rs' event stream; non-trivial: at least three nodes; distinct by bytes",
        assumptions: vec![
            "the generator in harness/src/xmlm.rs writes the document its tree denotes; for the event families xml-rs' tokenizer is trusted",
            "not judged: attributes of one element that share their local name, several root elements, carriage returns",
        ],
    }
}

// ---------------------------------------------------------------------- C08

/// Delivers `data` in chunks, raising one I/O error when `fault` bytes were delivered.
pub struct Chunky<'a> {
    data: &'a [u8],
    at: usize,
    sizes: Vec<usize>,
    turn: usize,
    fault: Option<usize>,
    kind: io::ErrorKind,
    /// deliver the rest after the fault instead of failing forever
    resume: bool,
    fired: bool,
    how: How,
    log: std::rc::Rc<std::cell::RefCell<(u64, u64)>>,
}

const MARK: &str = "soupmon-injected-fault";

/// What a fault is made of.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Text,
    /// an error type of the user's own
    Own(u64),
    /// an error of the operating system
    Os(i32),
    /// an error nested in another
    Nested(u64),
    Bare,
}
#[derive(Debug)]
struct Own(u64);
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{MARK} {}", self.0)
    }
}
impl std::error::Error for Own {}

impl How {
    fn raise(self, kind: io::ErrorKind) -> io::Error {
        match self {
            How::Text => io::Error::new(kind, MARK),
            How::Own(n) => io::Error::new(kind, Own(n)),
            How::Os(n) => io::Error::from_raw_os_error(n),
            How::Nested(n) => io::Error::new(kind, io::Error::new(kind, Own(n))),
            How::Bare => kind.into(),
        }
    }
    /// The very error that was raised.
    fn is(self, kind: io::ErrorKind, e: &io::Error) -> bool {
        let own = |e: &io::Error, n: u64| e.get_ref().and_then(|x| x.downcast_ref::<Own>()).is_some_and(|o| o.0 == n);
        match self {
            How::Text => e.kind() == kind && e.to_string() == MARK,
            How::Own(n) => e.kind() == kind && own(e, n),
            How::Os(n) => e.raw_os_error() == Some(n),
            How::Nested(n) => {
                e.kind() == kind && e.get_ref().and_then(|x| x.downcast_ref::<io::Error>()).is_some_and(|x| own(x, n))
            }
            How::Bare => e.kind() == kind && e.get_ref().is_none() && e.raw_os_error().is_none(),
        }
    }
}

impl Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.borrow_mut().0 += 1;
        if self.fault == Some(self.at) && !(self.fired && self.resume) {
            self.fired = true;
            self.log.borrow_mut().1 += 1;
            return Err(self.how.raise(self.kind));
        }
        let mut n = self.sizes[self.turn % self.sizes.len()].min(buf.len()).min(self.data.len() - self.at);
        self.turn += 1;
        if let Some(f) = self.fault {
            if f > self.at {
                n = n.min(f - self.at);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn sizes(cx: &mut Cx) -> Vec<usize> {
    match cx.rng.below(6) {
        0 | 1 => vec![1],
        2 => vec![2],
        3 => vec![3],
        4 => vec![usize::MAX],
        _ => (0..cx.rng.range(1, 7)).map(|_| if cx.rng.pct(60) { cx.rng.range(1, 5) } else { cx.rng.range(1, 4096) }).collect(),
    }
}

fn c08_chunks(cx: &mut Cx) -> Res {
    let mut docs = vec![];
    for k in 0..6 {
        let d = if k == 5 && cx.rng.pct(20) {
            let mut c = Cfg::any(&mut cx.rng);
            c.nodes = 400;
            xmlm::doc(&mut cx.rng, c)
        } else {
            small_doc(cx)
        };
        let mut b = d.bytes.clone();
        docs.push(d.bytes);
        damage(cx, &mut b);
        docs.push(b);
    }
    for b in &docs {
        let whole = parse(b)?.map(|n| xmlm::models(&n)).map_err(|e| format!("{e:?}"));
        for _ in 0..3 {
            let sz = sizes(cx);
            let log = std::rc::Rc::new(std::cell::RefCell::new((0, 0)));
            let got = parse_with(|| Chunky {
                data: b,
                at: 0,
                sizes: sz.clone(),
                turn: 0,
                fault: None,
                kind: io::ErrorKind::Other,
                resume: false,
                fired: false,
                how: How::Text,
                log: log.clone(),
            })
            .map_err(|e| format!("{e}\nreads of {sz:?}\ninput: {}", show(b)))?
            .map(|n| xmlm::models(&n))
            .map_err(|e| format!("{e:?}"));
            cx.eval(&[b, format!("{sz:?}").as_bytes()].concat(), b.len() > 20);
            cx.count("chunked parses", 1);
            cx.count("reads served", log.borrow().0);
            match (&whole, &got) {
                (Ok(a), Ok(b)) if a == b => cx.count("chunked parses giving a tree", 1),
                (Err(_), Err(_)) => cx.count("chunked parses giving an error", 1),
                _ => {
                    return Err(format!(
                        "reads of {sz:?} bytes give {}, one read gives {}\ninput: {}",
                        clip(&format!("{got:?}")),
                        clip(&format!("{whole:?}")),
                        show(b)
                    ))
                }
            }
        }
    }
    Ok(())
}

/// Characters a reader adaptor could stumble over, at every place of a document,
/// read so that each byte once comes first in a read, and shifted onto the sizes
/// buffers have. The tree is that of xml-rs' events over one slice.
const EDGE: [&str; 18] = [
    "\u{feff}", "\u{feff}\u{feff}", "\u{85}", "\u{2028}", "\u{a0}", "é", "中", "𝒜", "\t", "\n", "\r\n", " ", "\u{fffd}", "ï»¿", "]", "-", "?", "\n\n",
];
fn c08_edges(cx: &mut Cx) -> Res {
    let c = EDGE[cx.idx as usize % EDGE.len()];
    let enc = [xmlm::Enc::Utf8, xmlm::Enc::Utf8Bom, xmlm::Enc::Utf16Le, xmlm::Enc::Utf16Be][cx.idx as usize / EDGE.len() % 4];
    let utf16 = matches!(enc, xmlm::Enc::Utf16Le | xmlm::Enc::Utf16Be);
    let decl = if utf16 { "<?xml version=\"1.0\" encoding=\"UTF-16\"?>" } else { "" };
    let doc = |pad: usize| {
        let pad = if pad == 0 { String::new() } else { format!("<!--{}-->", "p".repeat(pad)) };
        let dash = if c == "-" { "=" } else { c };
        xmlm::encode(&format!("{decl}<r>{pad}{c}x{c}y{c}<a k='{c}x{c}y'/><!--{dash}x{dash}y--><![CDATA[{c}x{c}y]]><?p x{c}y?>{c}</r>"), enc)
    };
    let judge = |cx: &mut Cx, b: &[u8], sz: &[usize], want: &[X], at: Option<(usize, io::ErrorKind)>| -> Res {
        let log = std::rc::Rc::new(std::cell::RefCell::new((0, 0)));
        let got = parse_with(|| Chunky {
            data: b,
            at: 0,
            sizes: sz.to_vec(),
            turn: 0,
            fault: at.map(|a| a.0),
            kind: at.map_or(io::ErrorKind::Other, |a| a.1),
            resume: true,
            fired: false,
            how: How::Text,
            log: log.clone(),
        })
        .map_err(|e| format!("{e}\nreads of {sz:?}\ninput: {}", show(b)))?;
        cx.eval(&[b, format!("{sz:?}{at:?}").as_bytes()].concat(), true);
        cx.count("reads served", log.borrow().0);
        match got {
            Ok(n) => {
                let n = xmlm::models(&n);
                ensure!(n == want, "reads of {sz:?} bytes (fault {at:?}) give another tree {}\ninput: {}", xmlm::diff(want, &n), show(b));
            }
            // a reader that retries an interrupted read may also give up on it
            Err(_) if at.is_some() => cx.count("interrupted reads reported", 1),
            Err(e) => return Err(format!("reads of {sz:?} bytes: {e:?}\ninput: {}", show(b))),
        }
        Ok(())
    };
    let b = doc(0);
    let XRef::Wf(want) = xmlm::reference(&b) else { return Ok(()) };
    for i in 1..b.len() {
        judge(cx, &b, &[i, usize::MAX], &want, None)?;
        judge(cx, &b, &[i, 1, usize::MAX], &want, None)?;
        judge(cx, &b, &[usize::MAX], &want, Some((i, io::ErrorKind::Interrupted)))?;
        cx.count("documents cut into two reads at every byte", u64::from(i == 1));
    }
    // the text begins right at, before or after the end of a buffer
    let (unit, skip) = (if utf16 { 2 } else { 1 }, xmlm::encode(&format!("{decl}<r><!---->"), enc).len());
    let sizes: &[usize] = if cx.tier == Tier::Quick { &[1024, 4096, 8192] } else { &[64, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] };
    for &size in sizes {
        for d in -4i64..=40 {
            let Ok(pad) = usize::try_from((size as i64 + d * unit - skip as i64) / unit) else { continue };
            if pad == 0 || (cx.tier == Tier::Quick && d > 4 && !cx.rng.pct(20)) {
                continue;
            }
            let b = doc(pad);
            let XRef::Wf(want) = xmlm::reference(&b) else { continue };
            judge(cx, &b, &[usize::MAX], &want, None)?;
            judge(cx, &b, &[size], &want, None)?;
            cx.count("documents shifted onto a buffer size", 1);
        }
    }
    Ok(())
}

fn c08_faults(cx: &mut Cx) -> Res {
    // an I/O error at every byte offset of a document, end of file included
    let d = small_doc(cx);
    let b = &d.bytes;
    let kinds = [
        io::ErrorKind::Other,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::TimedOut,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::ConnectionAborted,
        io::ErrorKind::NotFound,
        io::ErrorKind::InvalidInput,
        io::ErrorKind::InvalidData,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::WriteZero,
        io::ErrorKind::OutOfMemory,
        io::ErrorKind::Unsupported,
        io::ErrorKind::AlreadyExists,
        io::ErrorKind::AddrInUse,
        io::ErrorKind::ConnectionRefused,
        io::ErrorKind::NotConnected,
        io::ErrorKind::HostUnreachable,
        io::ErrorKind::NetworkDown,
        io::ErrorKind::StorageFull,
        io::ErrorKind::StaleNetworkFileHandle,
        io::ErrorKind::Deadlock,
        io::ErrorKind::ResourceBusy,
    ];
    ensure!(parse(b)?.is_ok(), "well-formed document rejected\ninput: {}", show(b));
    for off in 0..=b.len() {
        let kind = *cx.rng.pick(&kinds);
        let sz = sizes(cx);
        let resume = cx.rng.pct(30);
        let n = cx.rng.next();
        let how = *cx.rng.pick(&[How::Text, How::Own(n), How::Nested(n), How::Bare, How::Os([5, 9, 21, 104, 110, 32][n as usize % 6])]);
        cx.count("faults with an error type of the user's own", u64::from(matches!(how, How::Own(_) | How::Nested(_))));
        let log = std::rc::Rc::new(std::cell::RefCell::new((0, 0)));
        let what = format!("I/O error {kind:?} ({how:?}) after {off} of {} bytes, reads of {sz:?}", b.len());
        let got = parse_with(|| Chunky {
            data: b,
            at: 0,
            sizes: sz.clone(),
            turn: 0,
            fault: Some(off),
            kind,
            resume,
            fired: false,
            how,
            log: log.clone(),
        })
        .map_err(|e| format!("{what}: {e}\ninput: {}", show(b)))?;
        cx.eval(&[&b[..], what.as_bytes()].concat(), true);
        cx.count("I/O faults injected", log.borrow().1);
        if off == b.len() {
            cx.count("faults instead of end of file", 1);
        }
        match got {
            Ok(n) => {
                return Err(format!(
                    "{what}: a tree was returned: {}\ninput: {}",
                    clip(&format!("{:?}", xmlm::models(&n))),
                    show(b)
                ))
            }
            Err(xmltree::ParseError::MalformedXml(e)) => {
                let same = match e.kind() {
                    xml::reader::ErrorKind::Io(e) => how.is(kind, e),
                    _ => false,
                };
                ensure!(same, "{what}: the error does not carry it: {e:?}\ninput: {}", show(b));
            }
            Err(e) => ensure!(
                how != How::Bare && format!("{e:?}").contains(MARK),
                "{what}: the error does not carry it: {e:?}\ninput: {}",
                show(b)
            ),
        }
    }
    cx.sample(|| format!("{} offsets of {}", b.len() + 1, d.text));
    Ok(())
}

fn c08_truncate(cx: &mut Cx) -> Res {
    // every cut before the end of the root element
    let mut d = small_doc(cx);
    if d.enc != xmlm::Enc::Utf8 {
        if d.text.contains("ISO-8859") || d.text.contains("UTF-16") {
            d.text = d.text.replacen("ISO-8859-1", "UTF-8", 1).replacen("UTF-16", "UTF-8", 1);
            let shift = 5i64 - if d.enc == xmlm::Enc::Latin1 { 10 } else { 6 };
            d.root.end = usize::try_from(d.root.end as i64 + shift).unwrap();
        }
    }
    let b = d.text.as_bytes();
    for k in 0..d.root.end {
        cx.eval(&b[..k], true);
        cx.count("truncations before the end of the root", 1);
        expect_error(&b[..k], &format!("cut off after {k} of {} bytes, before the end of the root element", b.len()))?;
    }
    Ok(())
}

fn c08_malformed(cx: &mut Cx) -> Res {
    for _ in 0..12 {
        let mut cfg = Cfg::any(&mut cx.rng);
        cfg.nodes = cfg.nodes.min(30);
        let mut d = xmlm::doc(&mut cx.rng, cfg);
        let mut t = std::mem::take(&mut d.text);
        let r = d.root.clone();
        // tag positions inside the root, outside comments, CDATA and PIs
        let tags = |t: &str| -> Vec<(usize, usize, bool)> {
            let mut v = vec![];
            let mut i = r.start;
            while i < r.end {
                let s = &t[i..r.end];
                if let Some(x) = s.strip_prefix("<!--") {
                    i += 4 + x.find("-->").unwrap() + 3;
                } else if let Some(x) = s.strip_prefix("<![CDATA[") {
                    i += 9 + x.find("]]>").unwrap() + 3;
                } else if s.starts_with("<?") {
                    i += s.find("?>").unwrap() + 2;
                } else if s.starts_with('<') {
                    // quotes hide >
                    let mut q = None;
                    let mut e = 0;
                    for (k, c) in s.char_indices() {
                        match q {
                            Some(x) if c == x => q = None,
                            Some(_) => {}
                            None if c == '"' || c == '\'' => q = Some(c),
                            None if c == '>' => {
                                e = k + 1;
                                break;
                            }
                            None => {}
                        }
                    }
                    v.push((i, i + e, s.starts_with("</")));
                    i += e;
                } else {
                    i += s.chars().next().unwrap().len_utf8();
                }
            }
            v
        };
        let tg = tags(&t);
        let closes: Vec<_> = tg.iter().filter(|x| x.2).copied().collect();
        let opens: Vec<_> = tg.iter().filter(|x| !x.2).copied().collect();
        let any_open = *cx.rng.pick(&opens);
        let name_end = |t: &str, o: usize| o + 1 + t[o + 1..].find([' ', '\t', '\n', '/', '>']).unwrap();
        let why: &'static str = match cx.rng.below(13) {
            0 if !closes.is_empty() => {
                let c = *cx.rng.pick(&closes);
                t.replace_range(c.0..c.1, "");
                "closing tag removed"
            }
            1 if !closes.is_empty() => {
                let c = *cx.rng.pick(&closes);
                t.insert_str(c.0 + 2, "zq");
                "closing tag renamed"
            }
            2 if !closes.is_empty() => {
                let c = *cx.rng.pick(&closes);
                let s = t[c.0..c.1].to_string();
                t.insert_str(c.0, &s);
                "closing tag doubled"
            }
            3 => {
                t.insert_str(any_open.0, "<zq>");
                "element opened only"
            }
            4 => {
                t.insert_str(any_open.0, "</zq>");
                "stray closing tag"
            }
            5 => {
                let e = name_end(&t, any_open.0);
                t.insert_str(e, " zq='1' zq='2'");
                "repeated attribute"
            }
            6 => {
                // as text or in a value
                if let Some(c) = closes.first().filter(|_| cx.rng.pct(50)) {
                    t.insert_str(c.0, "&undeclared;");
                } else {
                    let e = name_end(&t, any_open.0);
                    t.insert_str(e, " zq='&undeclared;'");
                }
                "undeclared entity"
            }
            7 => {
                let e = name_end(&t, any_open.0);
                t.insert_str(e, " zq:k='1'");
                "undeclared prefix on an attribute"
            }
            8 => {
                t.insert_str(any_open.0, if any_open.0 == r.start { "<zq:e>" } else { "<zq:e/>" });
                "undeclared prefix on an element"
            }
            9 => {
                t.insert_str(r.end, "text");
                "text behind the root"
            }
            10 => {
                t.insert_str(r.start, "text");
                "text before the root"
            }
            11 => {
                t.replace_range(r.clone(), "");
                "no root"
            }
            _ => {
                let e = name_end(&t, any_open.0);
                let a = *cx.rng.pick(&[" k", " k=", " k=v", " k='<'", " ='v'", " k='v", " k='v'j='w'", " <", " k=\"&\"", " 1='v'"]);
                if a == " k='v'j='w'" {
                    // lack of space is malformed XML too, but xml-rs tolerates it in places
                    continue;
                }
                t.insert_str(e, a);
                if a == " k='v" {
                    // may swallow text up to a later quote: leave it to truncation
                    t.truncate(e + a.len());
                }
                "broken attribute"
            }
        };
        let Ok(b) = std::panic::catch_unwind(|| xmlm::encode(&t, d.enc)) else { continue };
        cx.eval(&b, true);
        cx.count(
            match why {
                "closing tag removed" | "closing tag renamed" | "closing tag doubled" | "element opened only" | "stray closing tag" => {
                    "unbalanced or mismatched tags"
                }
                "undeclared prefix on an attribute" | "undeclared prefix on an element" => "undeclared prefixes",
                "text behind the root" | "text before the root" => "text outside the root",
                o => o,
            },
            1,
        );
        expect_error(&b, why)?;
    }
    Ok(())
}

fn c08_events(cx: &mut Cx) -> Res {
    for _ in 0..6 {
        let d = small_doc(cx);
        for _ in 0..8 {
            let mut b = d.bytes.clone();
            damage(cx, &mut b);
            judge_events(cx, &b, false)?;
        }
    }
    tokens(cx, false)
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        families: vec![
            fam("chunks", 6400, 80_000, c08_chunks),
            fam("edges", 72, 288, c08_edges),
            fam("faults", 960, 12_000, c08_faults),
            fam("truncate", 1440, 20_000, c08_truncate),
            fam("malformed", 9600, 120_000, c08_malformed),
            fam("events", 6400, 80_000, c08_events),
        ],
        need: vec![
            ("chunked parses", 5000),
            ("chunked parses giving a tree", 2000),
            ("chunked parses giving an error", 500),
            ("reads served", 100_000),
            ("documents cut into two reads at every byte", 60),
            ("documents shifted onto a buffer size", 1500),
            ("I/O faults injected", 20_000),
            ("faults instead of end of file", 100),
            ("truncations before the end of the root", 20_000),
            ("unbalanced or mismatched tags", 1000),
            ("repeated attribute", 200),
            ("undeclared entity", 200),
            ("undeclared prefixes", 300),
            ("text outside the root", 300),
            ("no root", 200),
            ("broken attribute", 100),
        ],
        rule: "generated and damaged documents read through an instrumented reader: every chunking tried against one read, an I/O error at every byte offset and at end of file, every cut before the end of the root, structural malformations; non-trivial: over 20 bytes; distinct by bytes and read sizes",
        assumptions: vec![
            "ErrorKind::Interrupted is not injected (std readers may retry it)",
            "the family 'events' trusts xml-rs to tell malformed documents, the others know by construction",
        ],
    }
}
