//! Mixed inputs and everything observable about them: the workload of the
//! concurrency, memory and history monitors.
use std::{borrow::Cow, io::Read};

use soupy::{
    parser::{HTMLNode, XMLNode},
    query::QueryItem,
    Node, Pattern, Queryable, Soup,
};

use crate::{
    case::clip,
    html,
    page,
    query::{self, forever, Ent, Good, Op, Pat, PatO, Snap, Vocab, P},
    rng::{self, Rng},
    xmlm,
};

#[derive(Clone, Debug)]
pub enum In {
    Strict(String),
    Lenient(String),
    Xml(Vec<u8>),
}

impl In {
    pub fn bytes(&self) -> &[u8] {
        match self {
            In::Strict(s) | In::Lenient(s) => s.as_bytes(),
            In::Xml(b) => b,
        }
    }
    pub fn show(&self) -> String {
        match self {
            In::Strict(s) => format!("strict HTML: {}", clip(s)),
            In::Lenient(s) => format!("lenient HTML: {}", clip(s)),
            In::Xml(b) => match std::str::from_utf8(b) {
                Ok(s) => format!("XML: {}", clip(s)),
                Err(_) => format!("XML bytes: {:02x?}", &b[..b.len().min(2000)]),
            },
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            In::Strict(_) => "strict HTML inputs",
            In::Lenient(_) => "lenient HTML inputs",
            In::Xml(_) => "XML inputs",
        }
    }
}

/// Any input, well-formed or broken; `uniq` appears in names and texts when given.
pub fn input(rng: &mut Rng, max: usize, kind: usize, uniq: Option<u64>) -> In {
    let mut cfg = html::Cfg::any(rng);
    cfg.nodes = cfg.nodes.min(max);
    let broken = rng.pct(25);
    match kind % 3 {
        0 => {
            let t = html::forest(rng, &cfg);
            let (mut d, _) = html::spell(rng, &t, 30, false);
            if broken {
                d = html::mutate(rng, &d);
            }
            if let Some(u) = uniq {
                d = format!("<u{u} a{u}=\"v{u}&amp;&eacute;\">t{u}&lt;&#{};</u{u}>{d}", 0x4e00 + u % 0x2000);
            }
            In::Strict(d)
        }
        1 => {
            let t = if rng.pct(50) { page::page(rng, max.min(60), true) } else { html::forest(rng, &cfg) };
            let (mut d, _) = html::spell(rng, &t, 30, true);
            if broken {
                d = html::mutate(rng, &d);
            }
            if let Some(u) = uniq {
                d.push_str(&format!("<unique-element-{u} unique-attribute-{u}=\"a long unique value {u}\">and a long unique text {u}</u>"));
            }
            In::Lenient(d)
        }
        _ => {
            let mut c = xmlm::Cfg::any(rng);
            c.nodes = c.nodes.min(max);
            let mut d = xmlm::doc(rng, c).bytes;
            if broken {
                for _ in 0..rng.range(1, 3) {
                    let i = rng.below(d.len());
                    match rng.below(4) {
                        0 => d.truncate(i.max(1)),
                        1 => {
                            d.remove(i);
                        }
                        2 => d.insert(i, *rng.pick(b"<>&\"'/ =x;\x00\xff")),
                        _ => d[i] = *rng.pick(b"<>&\"'/ =x;"),
                    }
                    if d.is_empty() {
                        d.push(b'<');
                    }
                }
            } else if let Some(u) = uniq {
                d = format!("<u{u} xmlns:p{u}=\"urn:{u}\" p{u}:a{u}=\"v{u}\"><c{u}>t{u}</c{u}><?p{u} x?></u{u}>").into_bytes();
            }
            In::Xml(d)
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Obs {
    pub hash: u64,
    pub nodes: u64,
    pub results: u64,
    pub failed: bool,
    pub utf8: bool,
}

impl Obs {
    fn add(&mut self, b: &[u8]) {
        let mut x = self.hash ^ rng::hash(b);
        self.hash = rng::splitmix(&mut x);
    }
    fn str(&mut self, s: &str) {
        self.utf8 &= std::str::from_utf8(s.as_bytes()).is_ok();
        self.add(s.as_bytes());
    }
    fn num(&mut self, n: usize) {
        self.add(&n.to_le_bytes());
    }
    fn node<N: Good>(&mut self, n: &N) {
        for s in [n.name(), n.text()] {
            match s {
                Some(s) => self.str(s.as_ref()),
                None => self.num(0),
            }
        }
        for (k, v) in n.attrs().into_iter().flatten() {
            self.str(k.as_ref());
            self.str(v.as_ref());
        }
        n.v_rest(&mut |s| self.str(s));
        self.num(n.children().len());
    }
}

/// Queries made from what is in the soup.
fn vocab<N: Good>(soup: &Soup<N>) -> Vocab {
    let ents = soup
        .iter()
        .map(|n| Ent {
            name: n.name().map(|s| s.as_ref().to_string()),
            text: None,
            attrs: n.attrs().map(|m| m.iter().map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string())).collect()),
            depth: 0,
            end: 0,
            kids: vec![],
        })
        .collect();
    query::vocab(&Snap { ents, top: vec![] })
}

fn stop<N: Good, W: Pattern<N::Text> + From<P> + 'static>(soup: &Soup<N>, ops: &[Op], k: usize, o: &mut Obs) {
    let mut it = query::build::<N, W>(soup, ops).all();
    for _ in 0..k {
        match it.next() {
            Some(n) => o.node::<N>(&n),
            None => break,
        }
    }
}

/// Everything one thread can see of a shared soup.
pub fn look<N: Good, W: Pattern<N::Text> + From<P> + 'static>(soup: &Soup<N>, rng: &mut Rng, o: &mut Obs, debug: bool) {
    let mut n = 0;
    for i in soup {
        o.node::<N>(&i);
        n += 1;
    }
    o.nodes += n as u64;
    o.num(n);
    if debug {
        o.str(&format!("{soup:?}"));
    }
    let v = vocab(soup);
    for _ in 0..4 {
        let ops = query::chain(rng, &v);
        let items: Vec<QueryItem<'_, N>> = query::items::<N, W>(soup, &ops);
        o.num(items.len());
        o.results += items.len() as u64;
        for i in items.iter().take(6) {
            o.node::<N>(i);
            o.str(&i.all_text());
            for x in i.descendants().take(5) {
                o.node(x);
            }
            if let Some(c) = i.get("class") {
                o.str(c.as_ref());
            }
        }
        if let Some(f) = query::first::<N, W>(soup, &ops) {
            o.node::<N>(&f);
        }
        stop::<N, W>(soup, &ops, rng.below(3), o);
    }
}

/// The same, and all that owning the soup allows, in a random order of drops.
pub fn own<N: Good, W: Pattern<N::Text> + From<P> + 'static>(soup: Soup<N>, rng: &mut Rng, o: &mut Obs, debug: bool) {
    look::<N, W>(&soup, rng, o, debug);
    let tendril = std::any::type_name::<N>().contains("tendril");
    let copy = soup.clone();
    let pick = (o.nodes > 0).then(|| rng.below(o.nodes as usize));
    let mut subs = vec![];
    let mut nodes = vec![];
    let mut it = soup.iter();
    if let Some(p) = pick {
        if let Some(i) = it.nth(p) {
            subs.push(i.query());
            nodes.push((*i).clone());
            let s = i.query();
            if let Some(j) = s.iter().last() {
                subs.push(j.query());
            }
            if let Some(j) = s.strict().tag(W::from(P::Bool(true))).first() {
                subs.push(j.query());
            }
        }
    }
    drop(it);
    let mut soup = Some(soup);
    if rng.pct(50) {
        soup = None;
    }
    for s in subs.iter().rev() {
        look::<N, W>(s, rng, o, debug && !tendril);
    }
    if rng.pct(50) {
        subs.clear();
    }
    look::<N, W>(&copy, rng, o, debug && !tendril);
    let second = query::soup_of(nodes);
    drop(copy);
    look::<N, W>(&second, rng, o, debug && !tendril);
    if rng.pct(50) {
        drop(soup);
        drop(second);
    }
}

struct Shards<'a>(&'a [u8], usize);
impl Read for Shards<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// A user's pattern or reader that panics, without the panic hook.
fn bomb() -> ! {
    std::panic::resume_unwind(Box::new(()))
}
pub struct Bomb(pub std::cell::Cell<u32>);
impl<S> Pattern<S> for Bomb {
    fn matches(&self, _: &S) -> bool {
        if self.0.get() == 0 {
            bomb();
        }
        self.0.set(self.0.get() - 1);
        self.0.get() % 2 == 0
    }
}
pub struct BombReader<'a>(pub &'a [u8]);
impl Read for BombReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            bomb();
        }
        self.0.read(b)
    }
}

/// Panics raised by the user's own code pass through the library and leave it usable.
pub fn explode(input: &In, rng: &mut Rng) {
    let k = rng.below(6) as u32;
    let cut = rng.below(input.bytes().len() + 1);
    let _ = std::panic::catch_unwind(|| match input {
        In::Strict(s) => {
            if let Ok(soup) = Soup::html_strict(s) {
                let _ = soup.tag(Bomb(k.into())).all().count();
                let _ = soup.attr(Bomb(k.into()), Bomb((k * 3).into())).all().count();
            }
        }
        In::Lenient(s) => {
            let _ = Soup::html(s).attr("class", Bomb(k.into())).all().count();
        }
        In::Xml(b) => {
            if k % 2 == 0 {
                let _ = Soup::xml(BombReader(&b[..cut]));
            } else if let Ok(soup) = Soup::xml(&b[..]) {
                let _ = soup.tag(Bomb(k.into())).all().count();
            }
        }
    });
}

/// A node whose answers differ from one call to the next.
pub struct Moody {
    salt: u64,
    calls: std::cell::Cell<u64>,
    names: [Option<String>; 2],
    texts: [Option<String>; 2],
    attrs: [Option<std::collections::BTreeMap<String, String>>; 2],
    kids: [Vec<Moody>; 2],
}
impl Moody {
    fn new(rng: &mut Rng, depth: usize) -> Moody {
        let word = |rng: &mut Rng| rng.pct(70).then(|| (*rng.pick(&["a", "b", "class", "id", "x y", "a long text of no use", ""])).to_string());
        let some = |rng: &mut Rng| {
            rng.pct(70).then(|| (0..rng.below(4)).filter_map(|_| Some((word(rng)?, word(rng)?))).collect())
        };
        let attrs = [some(rng), some(rng)];
        let mut kids = || {
            let n = if depth == 0 { 0 } else { rng.below(5) };
            (0..n).map(|_| Moody::new(rng, depth - 1)).collect()
        };
        let kids = [kids(), kids()];
        Moody { salt: rng.next(), calls: 0.into(), names: [word(rng), word(rng)], texts: [word(rng), word(rng)], attrs, kids }
    }
    fn mood(&self) -> usize {
        self.calls.set(self.calls.get() + 1);
        let mut x = self.salt ^ self.calls.get();
        rng::splitmix(&mut x) as usize >> 8
    }
}
impl Clone for Moody {
    fn clone(&self) -> Moody {
        self.mood();
        Moody {
            salt: self.salt ^ self.calls.get(),
            calls: 0.into(),
            names: self.names.clone(),
            texts: self.texts.clone(),
            attrs: self.attrs.clone(),
            kids: self.kids.clone(),
        }
    }
}
impl Node for Moody {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.names[self.mood() % 2].as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.texts[self.mood() % 2].as_ref()
    }
    fn attrs(&self) -> Option<&std::collections::BTreeMap<String, String>> {
        self.attrs[self.mood() % 2].as_ref()
    }
    fn children(&self) -> &[Moody] {
        let m = self.mood();
        let k = &self.kids[m % 2];
        &k[m / 2 % (k.len() + 1)..]
    }
}
/// Offers another value each time it is asked, and matches something else.
struct Fickle(std::cell::Cell<u32>);
impl Pattern<String> for Fickle {
    fn matches(&self, h: &String) -> bool {
        self.0.set(self.0.get() + 1);
        (h.len() + self.0.get() as usize) % 3 == 0
    }
    fn value(&self) -> Option<String> {
        self.0.set(self.0.get() + 1);
        (self.0.get() % 3 != 0).then(|| ["class", "a", "zz"][self.0.get() as usize % 3].to_string())
    }
}
/// Another text each time.
struct Shifting(std::cell::Cell<usize>, [String; 3]);
impl AsRef<str> for Shifting {
    fn as_ref(&self) -> &str {
        self.0.set(self.0.get() + 1);
        &self.1[self.0.get() % 3]
    }
}
/// Claims to have read something else than it wrote.
struct Liar<'a>(&'a [u8], usize);
impl Read for Liar<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(b)?;
        self.1 -= 1;
        Ok(match self.1 % 4 {
            0 => b.len() + self.1,
            1 => n / 2,
            _ if n == 0 => 0,
            _ => (n + 1).min(b.len()),
        })
    }
}

/// Nodes, patterns, texts and readers that keep no promise: whatever comes out
/// has to be part of what went in. Returns how many nodes were reached.
pub fn moody(rng: &mut Rng) -> Result<u64, String> {
    fn all<'a>(n: &'a Moody, out: &mut std::collections::BTreeSet<*const Moody>) {
        out.insert(n);
        for k in n.kids.iter().flatten() {
            all(k, out);
        }
    }
    let top: Vec<Moody> = (0..rng.range(1, 4)).map(|_| Moody::new(rng, 4)).collect();
    let keep = top.clone();
    let soup = query::soup_of(top);
    let mut known = std::collections::BTreeSet::new();
    for t in soup.strict().all() {
        all(unsafe { &*std::ptr::from_ref::<Moody>(&*t) }, &mut known);
    }
    let mut n = 0u64;
    let bad = std::cell::Cell::new(None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut see = |i: QueryItem<'_, Moody>| {
            let p = std::ptr::from_ref::<Moody>(&*i);
            if !known.contains(&p) {
                bad.set(Some("a traversal gave a node that is none of the soup's"));
                return;
            }
            n += 1;
            n += i.name().map_or(0, |s| s.len() as u64 & 1);
        };
        for _ in 0..3 {
            soup.iter().for_each(&mut see);
            soup.tag("a").all().for_each(&mut see);
            soup.tag(Fickle(0.into())).all().for_each(&mut see);
            soup.attr("class", true).all().for_each(&mut see);
            soup.attr(Fickle(1.into()), Fickle(2.into())).all().for_each(&mut see);
            soup.class(Fickle(3.into())).tag(true).all().for_each(&mut see);
            soup.attr_value("b").first().into_iter().for_each(&mut see);
            let mut half = soup.iter();
            half.by_ref().take(rng.below(6)).for_each(&mut see);
            let copy = soup.clone();
            if let Some(i) = soup.iter().nth(rng.below(9)) {
                let text = i.all_text();
                if std::str::from_utf8(text.as_bytes()).is_err() {
                    bad.set(Some("a returned string is not valid UTF-8"));
                }
                for d in i.descendants() {
                    if !known.contains(&std::ptr::from_ref(d)) {
                        bad.set(Some("descendants() gave a node that is none of the soup's"));
                        return;
                    }
                }
                let sub = i.query();
                let _ = (sub.iter().count(), sub.tag(true).all().count(), i.get("class").map(String::len));
            }
            drop(copy);
            half.for_each(&mut see);
        }
    }));
    drop((soup, keep));
    let _ = r;
    if let Some(b) = bad.get() {
        return Err(b.to_string());
    }
    let word = |rng: &mut Rng| match input(rng, 8, 1, None) {
        In::Lenient(s) => s,
        _ => unreachable!(),
    };
    let three = [word(rng), word(rng), word(rng)];
    let xml = input(rng, 10, 2, None);
    let lies = rng.range(20, 60);
    let _ = std::panic::catch_unwind(|| Soup::html(Shifting(0.into(), three)).iter().count());
    let _ = std::panic::catch_unwind(|| {
        let _ = Soup::xml(Liar(xml.bytes(), lies)).is_ok();
    });
    Ok(n)
}

/// Parses and observes; deterministic in `input` and `seed`.
pub fn run(input: &In, seed: u64) -> Obs {
    let mut rng = Rng::new(seed ^ rng::hash(input.bytes()));
    let mut o = Obs { utf8: true, ..Obs::default() };
    match input {
        In::Strict(s) => match Soup::html_strict(forever(s)) {
            Ok(soup) => own::<HTMLNode<Cow<'static, str>>, Pat>(soup, &mut rng, &mut o, true),
            Err(e) => {
                o.failed = true;
                o.str(&format!("{e:?}"));
            }
        },
        In::Lenient(s) => own::<_, PatO>(Soup::html(s), &mut rng, &mut o, true),
        In::Xml(b) => {
            let r = if rng.pct(50) { Soup::xml(&b[..]) } else { Soup::xml(Shards(b, rng.range(1, 9))) };
            match r {
                Ok(soup) => own::<XMLNode, PatO>(soup, &mut rng, &mut o, true),
                Err(e) => {
                    o.failed = true;
                    o.str(&format!("{e:?} {e}"));
                }
            }
        }
    }
    o
}
