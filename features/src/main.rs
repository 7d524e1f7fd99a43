//! featprobe CORPUS: one line per document and view, of what this build makes of it.
#![allow(unused_imports, dead_code)]
use std::{collections::BTreeMap, fmt::Debug};

use soupy::{filter, query, Node, Pattern, Queryable, Soup};

fn hash(s: &[u8]) -> u64 {
    s.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3))
}

/// A pattern of the user's own, without a hint.
#[derive(Clone)]
struct Contains(&'static str);
impl<S: AsRef<str>> Pattern<S> for Contains {
    fn matches(&self, s: &S) -> bool {
        s.as_ref().contains(self.0)
    }
}

fn show<'x, N, I>(o: &mut String, what: &str, it: I)
where
    N: Node + Clone + Debug + 'x,
    N::Text: std::fmt::Display + AsRef<str> + Ord + From<&'static str> + Debug,
    I: Iterator<Item = query::QueryItem<'x, N>>,
{
    o.push_str(what);
    for i in it.take(40) {
        o.push_str(&format!(
            "[{:?} {:?} {:?} {} {:?} {:?}]",
            i.name().map(AsRef::as_ref),
            i.text().map(AsRef::as_ref),
            i.attrs().map(|m| m.iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect::<Vec<_>>()),
            i.children().len(),
            i.get("class").map(AsRef::as_ref),
            i.all_text()
        ));
    }
}

/// Strings close to those a soup holds.
fn words<N>(soup: &Soup<N>) -> Vec<[&'static str; 3]>
where
    N: Node + Clone + Debug,
    N::Text: AsRef<str> + Ord,
{
    let mut out = vec![];
    for (k, i) in soup.iter().filter(|i| i.name().is_some()).take(6).enumerate() {
        let (a, v) = i.attrs().and_then(|m| m.iter().nth(k % 2)).map_or(("id", "x"), |(a, v)| (a.as_ref(), v.as_ref()));
        let all = [i.name().map_or("", AsRef::as_ref), a, v];
        let near = |f: &dyn Fn(&str) -> String| all.map(|w| -> &'static str { f(w).leak() });
        out.push(near(&|w| w.to_string()));
        out.push(near(&match k {
            0 => |w: &str| w.to_uppercase(),
            1 => |w: &str| w.to_lowercase(),
            2 => |w: &str| w.chars().skip(1).collect(),
            3 => |w: &str| format!("{w} "),
            4 => |w: &str| w.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            _ => |w: &str| format!("{w}x"),
        }));
    }
    out.push(["B", "ID", "X"]);
    out.push(["", "", ""]);
    out
}

fn view<N>(kind: &str, k: usize, soup: &Soup<N>)
where
    N: Node + Clone + Debug,
    N::Text: std::fmt::Display + AsRef<str> + Ord + From<&'static str> + Debug,
{
    let mut o = String::new();
    show(&mut o, "all", soup.iter());
    show(&mut o, "a", soup.tag("a").all());
    show(&mut o, "any", soup.tag(true).all());
    show(&mut o, "none", soup.tag(false).all());
    show(&mut o, "strict", soup.strict().tag(true).all());
    show(&mut o, "class", soup.class("a").all());
    show(&mut o, "class any", soup.class(true).recursive().all());
    show(&mut o, "name", soup.attr_name("id").all());
    show(&mut o, "value", soup.attr_value("x").all());
    show(&mut o, "own", soup.tag(Contains("t")).attr(Contains("a"), true).all());
    show(&mut o, "two", soup.tag("p").attr("class", true).all());
    for [n, a, v] in words(soup) {
        show(&mut o, "tag", soup.tag(n).all());
        show(&mut o, "attr", soup.attr(a, v).all());
        show(&mut o, "attr_name", soup.strict().attr_name(a).all());
        show(&mut o, "attr_value", soup.attr_value(v).all());
        show(&mut o, "attr any", soup.attr(a, true).tag(n).all());
    }
    show(&mut o, "first", soup.attr_name(true).first().into_iter());
    if let Some(i) = soup.iter().find(|i| i.children().len() > 1) {
        show(&mut o, "sub", i.query().iter());
        o.push_str(&format!("{:?}", i.descendants().map(|n| n.children().len()).collect::<Vec<_>>()));
    }
    println!("{kind} {k} {:016x} {}", hash(o.as_bytes()), o.len());
    let d = format!("{soup:?}");
    println!("{kind}-debug {k} {:016x} {}", hash(d.as_bytes()), d.len());
}

#[cfg(feature = "has-regex")]
fn with_regex<N>(kind: &str, k: usize, soup: &Soup<N>)
where
    N: Node + Clone + Debug,
    N::Text: std::fmt::Display + AsRef<str> + Ord + From<&'static str> + Debug,
{
    let mut o = String::new();
    let r = |s: &str| regex::Regex::new(s).unwrap();
    show(&mut o, "tag", soup.tag(r("^[a-d]|t$")).all());
    show(&mut o, "attr", soup.attr(r("^(id|cl)"), r(".")).all());
    show(&mut o, "value", soup.attr_value(r("x|[0-9]")).strict().all());
    show(&mut o, "class", soup.class(r("^$|a")).all());
    println!("{kind}-regex {k} {:016x} {}", hash(o.as_bytes()), o.len());
}

fn owned<N>(kind: &str, k: usize, soup: &Soup<N>)
where
    N: Node + Clone + Debug,
    N::Text: std::fmt::Display + AsRef<str> + Ord + for<'a> From<&'a str> + Debug,
{
    let mut o = String::new();
    show(&mut o, "String", soup.tag("a".to_string()).all());
    show(&mut o, "Cow", soup.attr(std::borrow::Cow::Borrowed("class"), "a".to_string()).all());
    for [n, a, v] in words(soup) {
        use std::borrow::Cow;
        show(&mut o, "String tag", soup.tag(n.to_string()).all());
        show(&mut o, "String attr", soup.attr(a.to_string(), v.to_string()).all());
        show(&mut o, "String value", soup.attr_value(v.to_string()).all());
        show(&mut o, "String class", soup.class(v.to_string()).all());
        show(&mut o, "Cow tag", soup.tag(Cow::Borrowed(n)).all());
        show(&mut o, "Cow attr", soup.attr(Cow::<str>::Owned(a.to_string()), Cow::Borrowed(v)).all());
        show(&mut o, "Cow value", soup.attr(true, Cow::<str>::Owned(v.to_string())).all());
    }
    println!("{kind}-owned {k} {:016x} {}", hash(o.as_bytes()), o.len());
}

/// Lines of `depth name key=value`, for a parser of the user's own.
#[derive(Clone, Debug, PartialEq)]
struct Own {
    name: String,
    attrs: BTreeMap<String, String>,
    kids: Vec<Own>,
}
impl Node for Own {
    type Text = String;
    fn name(&self) -> Option<&String> {
        Some(&self.name)
    }
    fn text(&self) -> Option<&String> {
        self.kids.is_empty().then_some(&self.name)
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        Some(&self.attrs)
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}
struct OwnParser;
impl soupy::parser::Parser for OwnParser {
    type Input = Vec<u8>;
    type Node = Own;
    type Error = String;
    fn parse(b: Vec<u8>) -> Result<Vec<Own>, String> {
        if b.is_empty() {
            return Err("empty".into());
        }
        Ok(b.chunks(24)
            .map(|c| Own {
                name: format!("{}", ['a', 'p', 't'][c[0] as usize % 3]),
                attrs: [("class".to_string(), "a".to_string()), (format!("id{}", c[0] % 5), "x".to_string())].into(),
                kids: c.chunks(6).map(|d| Own { name: format!("t{}", d[0]), attrs: BTreeMap::new(), kids: vec![] }).collect(),
            })
            .collect())
    }
}

fn main() {
    let b = std::fs::read(std::env::args().nth(1).expect("corpus")).expect("corpus");
    let mut p: &'static [u8] = b.leak();
    let mut k = 0;
    while !p.is_empty() {
        let kind = p[0];
        let n = u32::from_le_bytes(p[1..5].try_into().unwrap()) as usize;
        let doc = &p[5..5 + n];
        p = &p[5 + n..];
        one(kind, k, doc);
        k += 1;
    }
}

fn one(kind: u8, k: usize, doc: &'static [u8]) {
    let _ = kind;
    match Soup::new::<OwnParser>(doc.to_vec()) {
        Ok(s) => {
            view("own", k, &s);
            owned("own", k, &s);
            #[cfg(feature = "has-regex")]
            with_regex("own", k, &s);
        }
        Err(e) => println!("own {k} error {e}"),
    }
    #[cfg(feature = "has-strict")]
    if kind < 2 {
        match Soup::html_strict(std::str::from_utf8(doc).unwrap()) {
            Ok(s) => {
                view("strict", k, &s);
                #[cfg(feature = "has-regex")]
                with_regex("strict", k, &s);
            }
            Err(e) => println!("strict {k} error {:016x}", hash(format!("{e:?} {e}").as_bytes())),
        }
    }
    #[cfg(feature = "has-lenient")]
    if kind < 2 {
        let s = Soup::html(std::str::from_utf8(doc).unwrap());
        view("lenient", k, &s);
        owned("lenient", k, &s);
        #[cfg(feature = "has-regex")]
        with_regex("lenient", k, &s);
    }
    #[cfg(feature = "has-xml")]
    if kind == 2 {
        match Soup::xml(doc) {
            Ok(s) => {
                view("xml", k, &s);
                owned("xml", k, &s);
                #[cfg(feature = "has-regex")]
                with_regex("xml", k, &s);
            }
            Err(e) => println!("xml {k} error {:016x}", hash(format!("{e:?} {e}").as_bytes())),
        }
    }
}
