//! C09-C15: queries, patterns, traversal, sub-queries, iterators; model-based on
//! soups of every kind.
use std::{borrow::Cow, collections::HashMap, fmt};

use soupy::{
    filter::{And, Attr, Filter, Or, Tag},
    parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser, XMLNode, XMLParser},
    query::{Query, QueryItem},
    Node, Pattern, Queryable, Soup,
};

use super::at;
use crate::{
    case::{clip, fam, Cx, Prop, Res},
    ensure,
    html::{self, H},
    page,
    query::{self, addr, forever, same, show, soup_of, take_log, Attrs, Ent, Good, Op, Pat, PatO, Snap, Steps, UNode, UText, View, Vocab, P},
    rng::{self, Rng},
    xmlm,
};

pub struct Env<N> {
    pub soup: Soup<N>,
    pub snap: Snap,
    pub addrs: Vec<usize>,
    pub vocab: Vocab,
    pub desc: String,
}

impl<N: Good> Env<N> {
    pub fn new(soup: Soup<N>, snap: Snap, desc: String) -> Result<Self, String> {
        let addrs = base(&soup, &snap).map_err(|e| format!("{e}\n{desc}"))?;
        let vocab = query::vocab(&snap);
        Ok(Env { soup, snap, addrs, vocab, desc })
    }
}

/// The unfiltered iteration, node by node in content and in identity.
pub fn base<N: View>(soup: &Soup<N>, snap: &Snap) -> Result<Vec<usize>, String>
where
    N::Text: AsRef<str>,
{
    let addrs = query::base(soup, snap)?;
    let mut n = 0;
    for (i, item) in soup.iter().enumerate() {
        for (j, k) in item.children().iter().enumerate() {
            ensure!(
                addr(k) == addrs[snap.ents[i].kids[j]],
                "iterating the soup gave another node than child {j} of node {i}"
            );
        }
        n += 1;
    }
    for w in snap.top.windows(2) {
        ensure!(
            addrs[w[0]] + std::mem::size_of::<N>() == addrs[w[1]] || std::mem::size_of::<N>() == 0,
            "top-level nodes {} and {} of the iteration are not the soup's own nodes in order",
            w[0],
            w[1]
        );
    }
    let mut m = 0;
    for (x, a) in soup.into_iter().zip(&addrs) {
        ensure!(addr(&*x) == *a, "iterating the soup by reference and by iter() differ");
        m += 1;
    }
    ensure!(n == m, "iterating the soup by reference gave {m} nodes, by iter() {n}");
    Ok(addrs)
}

/// Sizes around which a counter, an index or a buffer could be too small.
pub const VAST: [usize; 14] = [127, 255, 256, 257, 1023, 1024, 1025, 4096, 32_767, 32_769, 65_535, 65_536, 65_537, 70_001];

/// Very many siblings, on top or below, with a few that stand out.
fn vast_nodes(rng: &mut Rng, idx: usize) -> Vec<UNode<UText>> {
    let n = VAST[idx % VAST.len()];
    let mut special: Vec<usize> = (0..6).map(|_| rng.below(n)).collect();
    special.extend([0, n - 1, n - 2, 127, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537]);
    special.sort_unstable();
    let mk = |i: usize, kids: Vec<UNode<UText>>| {
        let s = special.binary_search(&i).is_ok();
        UNode {
            id: i as u64,
            name: (i % 5 != 0 || s).then(|| UText::from(if s { "li" } else { SN[i % 5] })),
            text: (i % 5 == 0 && !s).then(|| UText::from(format!("t{i}").as_str())),
            attrs: (s || i % 3 == 0).then(|| {
                [("id", i.to_string()), ("class", if s { "foo".into() } else { "b".into() })]
                    .into_iter()
                    .map(|(k, v)| (k.into(), UText::from(v.as_str())))
                    .collect()
            }),
            kids,
        }
    };
    let flat = |special_kids: bool| -> Vec<UNode<UText>> {
        (0..n)
            .map(|i| mk(i, if special_kids && special.binary_search(&i).is_ok() { vec![mk(1, vec![]), mk(0, vec![])] } else { vec![] }))
            .collect()
    };
    match (idx / VAST.len()) % 5 {
        0 => vec![mk(2, flat(true)), mk(0, vec![])],
        3 => flat(true),
        1 => vec![mk(0, flat(true)), mk(3, vec![])],
        2 => vec![mk(1, vec![mk(2, vec![]), mk(0, flat(false)), mk(255, vec![])])],
        // every node has one child
        _ => (0..n / 2).map(|i| mk(i, vec![mk(i + 1, vec![])])).collect(),
    }
}
fn vast<J: Job>(cx: &mut Cx) -> Res {
    let nodes = vast_nodes(&mut cx.rng, cx.idx as usize);
    cx.count("soups of up to 70 001 siblings", 1);
    user::<J, _, PatO>(cx, nodes)
}

/// More than a million nodes, and many mebibytes of text: counted, not modelled.
fn huge(cx: &mut Cx) -> Res {
    let n: usize = (1 << 20) + 3;
    let leaf = |i: usize, kids: Vec<UNode<UText>>| UNode {
        id: i as u64,
        name: (i % 2 == 0).then(|| UText::from(if i % 1024 == 0 { "li" } else { "p" })),
        text: (i % 2 == 1).then(|| UText::from("lorem ipsum dolor")),
        attrs: (i % 1024 == 0).then(|| [("id".into(), UText::from(i.to_string().as_str()))].into()),
        kids,
    };
    let all: Vec<UNode<UText>> = (0..n).map(|i| leaf(i, vec![])).collect();
    // on top, below, and below every second node
    let top = match cx.idx % 3 {
        0 => all,
        1 => vec![leaf(2, all)],
        _ => {
            let mut v = vec![];
            let mut it = all.into_iter();
            while let Some(mut a) = it.next() {
                a.kids.extend(it.next());
                v.push(a);
            }
            v
        }
    };
    let extra = usize::from(cx.idx % 3 == 1);
    let first: Vec<*const UNode<UText>> = top.iter().map(|n| n as *const _).collect();
    let all_text: usize = top.iter().map(|n| soupy::Node::all_text(n).len() + 1).sum();
    let soup = soup_of(top);
    let count = soup.iter().count();
    ensure!(count == n + extra, "{count} of {} nodes iterated", n + extra);
    let mut last = None;
    let mut li = 0;
    for i in soup.tag("li").all() {
        ensure!(last < Some(i.id), "node {} after {last:?}", i.id);
        last = Some(i.id);
        li += 1;
    }
    ensure!(li == n.div_ceil(1024), "{li} of {} elements found by tag", n.div_ceil(1024));
    let ids = soup.attr_name("id").all().count();
    ensure!(ids == li, "{ids} of {li} elements found by attribute");
    let end = (n - 1) / 1024 * 1024;
    let got = soup.attr(PatO::from(P::Str("id".into())), PatO::from(P::Str(end.to_string()))).first().map(|i| i.id);
    ensure!(got == Some(end as u64), "the last element is not found: {got:?}");
    let flat = soup.strict().all().count();
    ensure!(flat == first.len(), "{flat} of {} top-level nodes in strict mode", first.len());
    let words = n / 2;
    if cx.idx % 3 == 1 {
        ensure!(all_text == words * 18, "all_text has {} bytes and not {}", all_text - 1, words * 18 - 1);
        let q = soup.strict().first().ok_or("no first node")?.query();
        let m = q.iter().count();
        ensure!(m == n, "{m} of {n} nodes in a sub-query");
    }
    cx.count("soups of a million nodes", 1);
    cx.eval(&[cx.idx as u8], true);
    Ok(())
}

pub trait Job {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res;
}

// ------------------------------------------------------------------- soups

const SN: [&str; 9] = ["a", "b", "div", "item", "p", "Item", "h1", "h2", "li"];
const SA: [&str; 7] = ["id", "class", "k", "K", "href", "data-x", "title"];
const SV: [&str; 12] = ["", "a", "b", "a b", "a  b", "ab", "A", " a", "é", "foo", "foo bar", "true"];

fn size(rng: &mut Rng, max: usize) -> usize {
    if rng.pct(40) {
        rng.range(max.min(6), max)
    } else {
        rng.small(max) + 1
    }
}
fn kids(rng: &mut Rng) -> usize {
    if rng.pct(30) {
        rng.small(6)
    } else {
        rng.range(1, 4)
    }
}

/// Few different names and values, so that conditions meet often.
pub fn small(rng: &mut Rng, max: usize) -> Vec<H> {
    fn go(rng: &mut Rng, left: &mut usize, uid: &mut usize, depth: usize, want: usize) -> Vec<H> {
        let mut out: Vec<H> = vec![];
        for _ in 0..want {
            if *left == 0 {
                break;
            }
            *left -= 1;
            *uid += 1;
            let id = *uid;
            match rng.below(10) {
                0 | 1 => {
                    if !matches!(out.last(), Some(H::Text(_))) {
                        out.push(H::Text(format!("t{id}{}", rng.pick(&["", "\n", " x", " é"]))));
                    }
                }
                2 => out.push(H::Comment(format!("c{id}"))),
                r => {
                    let mut attrs = Attrs::new();
                    for _ in 0..rng.small(5) {
                        attrs.insert(rng.pick(&SA).to_string(), rng.pick(&SV).to_string());
                    }
                    if rng.pct(70) {
                        attrs.insert("uid".into(), format!("n{id}"));
                    }
                    if r == 3 {
                        out.push(H::Void { name: rng.pick(&["br", "img", "hr"]).to_string(), attrs });
                    } else {
                        let n = if depth == 0 { 0 } else { kids(rng) };
                        let kids = go(rng, left, uid, depth - usize::from(depth > 0), n);
                        out.push(H::El { name: rng.pick(&SN).to_string(), attrs, kids });
                    }
                }
            }
        }
        out
    }
    let mut left = size(rng, max);
    let mut uid = 0;
    let top = rng.range(1, 8);
    let depth = if rng.pct(10) { 30 } else { rng.range(1, 6) };
    go(rng, &mut left, &mut uid, depth, top)
}

fn xml_esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\n', "&#10;")
}
pub fn as_xml(t: &[H]) -> String {
    fn go(t: &[H], o: &mut String) {
        for h in t {
            match h {
                H::Text(t) => o.push_str(&xml_esc(t)),
                H::Comment(c) => o.push_str(&format!("<!--{c}-->")),
                _ => {
                    let n = h.name().unwrap();
                    o.push_str(&format!("<{n}"));
                    for (k, v) in h.attrs().unwrap() {
                        o.push_str(&format!(" {k}=\"{}\"", xml_esc(v)));
                    }
                    if h.kids().is_empty() {
                        o.push_str("/>");
                    } else {
                        o.push('>');
                        go(h.kids(), o);
                        o.push_str(&format!("</{n}>"));
                    }
                }
            }
        }
    }
    let mut o = String::from("<!--head--><root>");
    go(t, &mut o);
    o.push_str("</root><?tail x?>");
    o
}

pub fn unodes<S: Ord + for<'a> From<&'a str>>(rng: &mut Rng, max: usize) -> Vec<UNode<S>> {
    fn go<S: Ord + for<'a> From<&'a str>>(rng: &mut Rng, left: &mut usize, id: &mut u64, depth: usize, want: usize) -> Vec<UNode<S>> {
        let mut out = vec![];
        for _ in 0..want {
            if *left == 0 {
                break;
            }
            *left -= 1;
            *id += 1;
            let me = *id;
            let mut n = UNode { id: me, name: None, text: None, attrs: None, kids: vec![] };
            // any combination of parts
            if rng.pct(65) {
                n.name = Some((*rng.pick(&SN)).into());
            }
            if rng.pct(35) {
                n.text = Some((*rng.pick(&["", "x", "y z", "\n", "é"])).into());
            }
            if rng.pct(65) {
                let mut m = std::collections::BTreeMap::new();
                for _ in 0..rng.small(6) {
                    m.insert((*rng.pick(&SA)).into(), (*rng.pick(&SV)).into());
                }
                n.attrs = Some(m);
            }
            let k = if depth == 0 { 0 } else { kids(rng) };
            n.kids = go(rng, left, id, depth - usize::from(depth > 0), k);
            out.push(n);
        }
        out
    }
    let mut left = if rng.pct(3) { 0 } else { size(rng, max) };
    let top = rng.range(1, 7);
    let depth = if rng.pct(10) { 30 } else { rng.range(1, 6) };
    go(rng, &mut left, &mut 0, depth, top)
}

/// One soup of one of the kinds; the job on it.
pub fn drive<J: Job>(cx: &mut Cx, kind: usize, max: usize) -> Res {
    match kind % 9 {
        0 | 1 => {
            let t = if kind % 9 == 0 {
                small(&mut cx.rng, max)
            } else {
                let mut c = html::Cfg::any(&mut cx.rng);
                c.nodes = c.nodes.min(max);
                html::forest(&mut cx.rng, &c)
            };
            let (d, _) = html::spell(&mut cx.rng, &t, 0, false);
            at(&d);
            // declared before what borrows from it
            // whether it must parse is not this property's matter
            let (Ok(n), Ok(s)) = (StrictHTMLParser::parse(forever(&d)), Soup::html_strict(forever(&d))) else {
                cx.count("documents not parsed", 1);
                return Ok(());
            };
            let e = Env::new(s, Snap::of(&n), format!("strict HTML: {}", clip(&d)))?;
            go::<J, _, Pat>(cx, "strict HTML soups", &e)
        }
        2 => {
            let t = if cx.rng.pct(50) { page::page(&mut cx.rng, max.min(60), true) } else { small(&mut cx.rng, max) };
            let (mut d, _) = html::spell(&mut cx.rng, &t, 0, true);
            if cx.rng.pct(50) {
                d = html::mutate(&mut cx.rng, &d);
            }
            at(&d);
            let Ok(n) = LenientHTMLParser::<&str>::parse(&d);
            let e = Env::new(Soup::html(&d), Snap::of(&n), format!("lenient HTML: {}", clip(&d)))?;
            go::<J, _, PatO>(cx, "lenient HTML soups", &e)
        }
        3 | 4 => {
            let d = if kind % 9 == 3 {
                as_xml(&small(&mut cx.rng, max)).into_bytes()
            } else {
                let mut c = xmlm::Cfg::any(&mut cx.rng);
                c.nodes = c.nodes.min(max);
                xmlm::doc(&mut cx.rng, c).bytes
            };
            let show = String::from_utf8_lossy(&d).to_string();
            at(&show);
            let (Ok(n), Ok(s)) = (XMLParser::parse(&d[..]), Soup::xml(&d[..])) else {
                cx.count("documents not parsed", 1);
                return Ok(());
            };
            let e = Env::new(s, Snap::of(&n), format!("XML: {}", clip(&show)))?;
            go::<J, _, PatO>(cx, "XML soups", &e)
        }
        5 | 6 => {
            let n: Vec<UNode<UText>> = unodes(&mut cx.rng, max);
            user::<J, _, PatO>(cx, n)
        }
        7 => {
            let n: Vec<UNode<Cow<'static, str>>> = unodes::<UText>(&mut cx.rng, max).into_iter().map(cow).collect();
            user::<J, _, Pat>(cx, n)
        }
        _ => {
            let n: Vec<HTMLNode<UText>> = small(&mut cx.rng, max).iter().map(html::unmodel).collect();
            user::<J, _, PatO>(cx, n)
        }
    }
}

pub fn cow(n: UNode<UText>) -> UNode<Cow<'static, str>> {
    let c = |s: UText| Cow::Owned(s.0.to_string());
    UNode {
        id: n.id,
        name: n.name.map(c),
        text: n.text.map(c),
        attrs: n.attrs.map(|m| m.into_iter().map(|(k, v)| (c(k), c(v))).collect()),
        kids: n.kids.into_iter().map(cow).collect(),
    }
}

fn user<J: Job, N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, n: Vec<N>) -> Res {
    let snap = Snap::of(&n);
    let desc = format!("user-defined nodes: {}", clip(&format!("{n:?}")));
    at(&desc);
    let e = Env::new(soup_of(n), snap, desc)?;
    go::<J, _, W>(cx, "soups of user-defined nodes", &e)
}

fn go<J: Job, N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, what: &'static str, e: &Env<N>) -> Res {
    cx.count(what, 1);
    cx.sample(|| e.desc.clone());
    J::run::<N, W>(cx, e).map_err(|m| format!("{m}\n{}", e.desc))
}

const KINDS: [(&str, u64); 4] = [
    ("strict HTML soups", 1000),
    ("lenient HTML soups", 500),
    ("XML soups", 1000),
    ("soups of user-defined nodes", 2000),
];
fn needs(more: &[(&'static str, u64)]) -> Vec<(&'static str, u64)> {
    KINDS.iter().copied().chain(more.iter().copied()).collect()
}
const NODES: &str = "the node trees are compared by content and address with a snapshot taken by matching on the public enums, not through Node";

// ---------------------------------------------------------------------- C09

struct J09;
impl Job for J09 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        for _ in 0..12 {
            let ops = query::chain(&mut cx.rng, &e.vocab);
            let n = query::check::<N, W>(&e.soup, &e.snap, &e.addrs, &ops)?;
            let conds = ops.iter().filter(|o| o.is_cond()).count();
            cx.eval(format!("{}{}", e.desc, show(&ops)).as_bytes(), n > 0 && conds > 0);
            cx.count("queries compared", 1);
            cx.count("results compared", n as u64);
            if n > 1 && n < e.snap.ents.len() {
                cx.count("queries selecting several but not all nodes", 1);
            }
        }
        six::<N, W>(cx, e)?;
        filters::<N, W>(cx, e)?;
        // looking has changed nothing
        ensure!(base(&e.soup, &e.snap)? == e.addrs, "the soup's nodes have moved");
        Ok(())
    }
}

/// A longer conjunction than the generic chains have.
fn six<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
    let mut p = |v: &[String]| {
        let lit = cx.rng.pct(40) && !v.is_empty();
        match cx.rng.below(5) {
            _ if lit => P::Str(cx.rng.pick(v).clone()),
            0 => P::LenMod(1, 0),
            1 => P::NotEq("b".into()),
            2 => P::StartsWith(String::new()),
            _ => P::Bool(true),
        }
    };
    let v = &e.vocab;
    let ops = [
        Op::Tag(p(&v.names)),
        Op::Attr(p(&v.anames), p(&v.avals)),
        Op::AttrName(p(&v.anames)),
        Op::AttrValue(p(&v.avals)),
        Op::Class(p(&v.classes)),
        Op::Tag(p(&v.names)),
    ];
    let w = |p: &P| W::from(p.clone());
    let [Op::Tag(a), Op::Attr(b, c), Op::AttrName(d), Op::AttrValue(f), Op::Class(g), Op::Tag(h)] = &ops else { return Ok(()) };
    let got: Vec<usize> = (&e.soup)
        .tag(w(a))
        .attr(w(b), w(c))
        .attr_name(w(d))
        .attr_value(w(f))
        .class(w(g))
        .tag(w(h))
        .all()
        .map(|i| addr(&*i))
        .collect();
    let want: Vec<usize> = query::expect(&e.snap, &ops).into_iter().map(|i| e.addrs[i]).collect();
    cx.count("queries with six conditions", 1);
    ensure!(got == want, "soup{} gives {} results, expected {}", show(&ops), got.len(), want.len());
    Ok(())
}

/// A filter built from the public parts, and what it means.
enum F {
    Unit,
    Tag(P),
    Attr(P, P),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}
impl F {
    fn gen(rng: &mut Rng, v: &Vocab, depth: usize) -> F {
        match rng.below(if depth == 0 { 7 } else { 14 }) {
            0 => F::Unit,
            1..=3 => F::Tag(query::pattern(rng, &v.names, &SN)),
            4..=6 => F::Attr(query::pattern(rng, &v.anames, &SA), query::pattern(rng, &v.avals, &SV)),
            7..=10 => F::And(Box::new(F::gen(rng, v, depth - 1)), Box::new(F::gen(rng, v, depth - 1))),
            _ => F::Or(Box::new(F::gen(rng, v, depth - 1)), Box::new(F::gen(rng, v, depth - 1))),
        }
    }
    fn m(&self, e: &Ent) -> bool {
        match self {
            F::Unit => true,
            F::Tag(p) => Op::Tag(p.clone()).holds(e),
            F::Attr(n, v) => Op::Attr(n.clone(), v.clone()).holds(e),
            F::And(a, b) => a.m(e) && b.m(e),
            F::Or(a, b) => a.m(e) || b.m(e),
        }
    }
    fn show(&self) -> String {
        match self {
            F::Unit => "()".into(),
            F::Tag(p) => format!("Tag({})", p.show()),
            F::Attr(n, v) => format!("Attr({}, {})", n.show(), v.show()),
            F::And(a, b) => format!("And({}, {})", a.show(), b.show()),
            F::Or(a, b) => format!("Or({}, {})", a.show(), b.show()),
        }
    }
    fn boxed<'a, N: Good + 'a, W: Pattern<N::Text> + From<P> + 'a>(&self) -> Dyn<'a, N> {
        match self {
            F::Unit => Dyn(Box::new(())),
            F::Tag(p) => Dyn(Box::new(Tag { tag: W::from(p.clone()) })),
            F::Attr(n, v) => Dyn(Box::new(Attr { name: W::from(n.clone()), value: W::from(v.clone()) })),
            F::And(a, b) => Dyn(Box::new(And(a.boxed::<N, W>(), b.boxed::<N, W>()))),
            F::Or(a, b) => Dyn(Box::new(Or(a.boxed::<N, W>(), b.boxed::<N, W>()))),
        }
    }
}
struct Dyn<'a, N>(Box<dyn Filter<N> + 'a>);
impl<N> Filter<N> for Dyn<'_, N> {
    fn matches(&self, n: &N) -> bool {
        self.0.matches(n)
    }
}

fn filters<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
    for _ in 0..4 {
        let f = F::gen(&mut cx.rng, &e.vocab, 3);
        let d = f.boxed::<N, W>();
        for (i, item) in e.soup.iter().enumerate() {
            let (got, want) = (d.matches(&*item), f.m(&e.snap.ents[i]));
            ensure!(got == want, "{} gives {got} for node {i}: {}", f.show(), clip(&format!("{:?}", e.snap.ents[i])));
            cx.count("filter evaluations compared", 1);
            if want {
                cx.count("filter evaluations that match", 1);
            }
        }
    }
    Ok(())
}

fn c09_model(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J09>(cx, k, 60)
}
fn c09_big(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J09>(cx, k, 2500)
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        families: vec![fam("vast", 70, 560, vast::<J09>), fam("huge", 3, 3, huge), fam("model", 120_000, 900_000, c09_model), fam("big", 400, 6000, c09_big)],
        need: needs(&[
            ("queries compared", 100_000),
            ("results compared", 200_000),
            ("queries selecting several but not all nodes", 20_000),
            ("queries with six conditions", 8000),
            ("filter evaluations compared", 200_000),
            ("filter evaluations that match", 20_000),
        ]),
        rule: "the query has a condition and at least one result",
        assumptions: vec![NODES],
    }
}

// ---------------------------------------------------------------------- C10

fn results<N: Good, W: Pattern<N::Text> + From<P> + 'static>(e: &Env<N>, ops: &[Op]) -> Vec<usize> {
    query::items::<N, W>(&e.soup, ops).iter().map(|i| addr(&**i)).collect()
}

struct J10;
impl Job for J10 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        for _ in 0..6 {
            // one or two conditions, each possibly repeated
            let mut conds: Vec<Op> = vec![];
            while conds.len() < 2 {
                let o = query::op(&mut cx.rng, &e.vocab);
                if o.is_cond() {
                    conds.push(o);
                }
            }
            let scope = cx.rng.pct(50);
            let last = if scope { Op::Recursive } else { Op::Strict };
            let want: Vec<usize> = query::expect(&e.snap, &[conds.clone(), vec![last.clone()]].concat())
                .into_iter()
                .map(|i| e.addrs[i])
                .collect();
            for _ in 0..5 {
                let mut ops = conds.clone();
                if cx.rng.pct(50) {
                    let o = cx.rng.pick(&conds).clone();
                    ops.push(o);
                }
                for _ in 0..cx.rng.below(3) {
                    ops.push(if cx.rng.pct(50) { Op::Recursive } else { Op::Strict });
                }
                cx.rng.shuffle(&mut ops);
                // the deciding scope call, anywhere behind the other scope calls
                let from = ops.iter().rposition(|o| !o.is_cond()).map_or(0, |p| p + 1);
                if scope && from == 0 && cx.rng.pct(50) {
                    // the default decides
                } else {
                    let at = cx.rng.range(from, ops.len());
                    ops.insert(at, last.clone());
                }
                let got = results::<N, W>(e, &ops);
                cx.eval(format!("{}{}", e.desc, show(&ops)).as_bytes(), !want.is_empty());
                cx.count("call orders compared", 1);
                ensure!(
                    got == want,
                    "soup{} gives {} results, the same conditions in the order {} with {last:?} should give {}",
                    show(&ops),
                    got.len(),
                    show(&conds),
                    want.len()
                );
                if !want.is_empty() {
                    cx.count("call orders with results", 1);
                }
                if !ops[0].is_cond() && !ops[ops.len() - 1].is_cond() {
                    cx.count("scope calls at both ends", 1);
                }
            }
            // a further condition only removes results
            let one = results::<N, W>(e, &[conds[0].clone(), last.clone()]);
            let mut it = one.iter();
            ensure!(
                want.iter().all(|w| it.by_ref().any(|o| o == w)),
                "adding {} to soup{} adds or reorders results",
                show(&conds[1..]),
                show(&conds[..1])
            );
            cx.count("conditions added", 1);
            // shorthands
            let v = &e.vocab;
            let n = query::pattern(&mut cx.rng, &v.anames, &SA);
            let w = query::pattern(&mut cx.rng, &v.avals, &SV);
            let t = P::Bool(true);
            for (a, b) in [
                (Op::AttrName(n.clone()), Op::Attr(n.clone(), t.clone())),
                (Op::AttrValue(w.clone()), Op::Attr(t.clone(), w.clone())),
                (Op::Class(w.clone()), Op::Attr(P::Str("class".into()), w.clone())),
            ] {
                for pre in [vec![], vec![Op::Strict], vec![Op::Tag(t.clone())]] {
                    let x = [pre.clone(), vec![a.clone()]].concat();
                    let y = [pre, vec![b.clone()]].concat();
                    let (r, s) = (results::<N, W>(e, &x), results::<N, W>(e, &y));
                    ensure!(r == s, "soup{} gives {} results, soup{} {}", show(&x), r.len(), show(&y), s.len());
                    cx.count("shorthands compared", 1);
                    cx.count("shorthand results", r.len() as u64);
                }
            }
        }
        // copies of an unfinished query keep their scope
        let top: Vec<usize> = e.snap.top.iter().map(|i| e.addrs[*i]).collect();
        let (s, r) = ((&e.soup).strict(), (&e.soup).recursive());
        let list = |q: Query<'_, N, ()>| q.all().map(|i| addr(&*i)).collect::<Vec<_>>();
        for (q, want) in [
            (s, &top),
            (s.recursive(), &e.addrs),
            (s.recursive().strict(), &top),
            (r, &e.addrs),
            (r.strict(), &top),
            (r.strict().recursive(), &e.addrs),
            (s, &top),
            (r, &e.addrs),
        ] {
            ensure!(list(q) == *want, "an unfiltered query gives {} nodes, expected {}", list(q).len(), want.len());
            cx.count("unfiltered scopes", 1);
        }
        Ok(())
    }
}

fn c10_orders(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J10>(cx, k, 60)
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        families: vec![fam("vast", 70, 280, vast::<J10>), fam("orders", 60_000, 600_000, c10_orders)],
        need: needs(&[
            ("call orders compared", 200_000),
            ("call orders with results", 40_000),
            ("scope calls at both ends", 10_000),
            ("conditions added", 40_000),
            ("shorthands compared", 400_000),
            ("shorthand results", 200_000),
        ]),
        rule: "the conditions have at least one result",
        assumptions: vec![NODES],
    }
}

// ---------------------------------------------------------------------- C11

/// All ways to say "exactly this string".
fn equals(w: &str) -> Vec<P> {
    vec![
        P::Str(w.into()),
        P::Owned(w.into()),
        P::CowB(w.into()),
        P::CowO(w.into()),
        P::EqHint(w.into()),
        P::EqPlain(w.into()),
        P::Re(regex::Regex::new(&format!(r"\A(?:{})\z", regex::escape(w))).unwrap()),
    ]
}

struct J11;
impl Job for J11 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        let v = &e.vocab;
        for _ in 0..4 {
            let pos = cx.rng.below(5);
            let (from, other): (&[String], &[&str]) = match pos {
                0 => (&v.names, &SN),
                1 => (&v.anames, &SA),
                2 => (&v.avals, &SV),
                3 => (&v.classes, &SV),
                _ => (&v.anames, &SA),
            };
            let w = if from.is_empty() || cx.rng.pct(15) { cx.rng.pick(other).to_string() } else { cx.rng.pick(from).clone() };
            let second = query::pattern(&mut cx.rng, &v.avals, &SV);
            let mk = |p: P| match pos {
                0 => Op::Tag(p),
                1 => Op::AttrName(p),
                2 => Op::AttrValue(p),
                3 => Op::Class(p),
                _ => Op::Attr(p, second.clone()),
            };
            let want = results::<N, W>(e, &[mk(P::EqPlain(w.clone()))]);
            let model: Vec<usize> = query::expect(&e.snap, &[mk(P::EqPlain(w.clone()))]).into_iter().map(|i| e.addrs[i]).collect();
            ensure!(want == model, "soup{} is wrong", show(&[mk(P::EqPlain(w.clone()))]));
            for p in equals(&w) {
                let op = [mk(p)];
                let r = results::<N, W>(e, &op);
                ensure!(
                    r == want,
                    "soup{} gives {} results, other patterns for the same string {}",
                    show(&op),
                    r.len(),
                    want.len()
                );
                cx.count("equal patterns compared", 1);
                cx.count("results of equal patterns", r.len() as u64);
                cx.eval(format!("{}{}", e.desc, show(&op)).as_bytes(), !r.is_empty());
            }
            // any pattern with and without its hint
            for _ in 0..4 {
                let ops = loop {
                    let o = query::chain(&mut cx.rng, v);
                    if o.iter().any(Op::is_cond) {
                        break o;
                    }
                };
                let a = results::<N, W>(e, &ops);
                query::hide(true);
                let b = results::<N, W>(e, &ops);
                query::hide(false);
                ensure!(a == b, "soup{} gives {} results, {} when value() is hidden", show(&ops), a.len(), b.len());
                let m: Vec<usize> = query::expect(&e.snap, &ops).into_iter().map(|i| e.addrs[i]).collect();
                ensure!(a == m, "soup{} gives {} results, expected {}", show(&ops), a.len(), m.len());
                cx.count("queries with the hint hidden", 1);
            }
        }
        Ok(())
    }
}

fn hay(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.pick(&html::WORDS).to_string(),
        1 => html::text(rng, 300),
        2 => "aé🦀".repeat(rng.range(1, 40)),
        _ => html::text(rng, 20),
    }
}
/// a different string that a lookup too clever could take for w
fn alike(rng: &mut Rng, w: &str) -> String {
    match rng.below(16) {
        0 => format!("{}:{w}", *rng.pick(&["xml", "xmlns", "x", "html", "xlink", "svg", "", "*"])),
        1 => format!("{w}:{}", *rng.pick(&["lang", "x", ""])),
        2 => w.rsplit(':').next().unwrap_or("").to_string(),
        3 => w.split(':').next().unwrap_or("").to_string(),
        4 => format!("data-{w}"),
        5 => w.strip_prefix("data-").unwrap_or("data").to_string(),
        6 => w.replace('-', "_"),
        7 => w.replace(['-', '_'], ""),
        8 => format!("{}{w}", *rng.pick(&["@", "#", ".", ":", "*", "$", "^", "!", "{}", "\u{feff}", "\0"])),
        9 => format!("{w}{}", *rng.pick(&["=", "*", "$", "[]", "\0", "\n", "\u{a0}", "/", "~"])),
        10 => format!("[{w}]"),
        11 => format!("'{w}'"),
        12 => format!("\"{w}\""),
        13 => w.split_whitespace().next().unwrap_or("").to_string(),
        14 => w.trim().to_string(),
        _ => w.chars().rev().collect(),
    }
}

/// a different string close to w
fn near(rng: &mut Rng, w: &str) -> String {
    let mut c: Vec<char> = w.chars().collect();
    match rng.below(11) {
        9 | 10 => return alike(rng, w),
        0 => c.insert(0, ' '),
        1 => c.push(' '),
        2 => c.push('\u{301}'),
        3 => {
            c.pop();
        }
        4 if !c.is_empty() => {
            c.remove(0);
        }
        5 => c = w.to_uppercase().chars().collect(),
        6 => c = w.to_lowercase().chars().collect(),
        7 if !c.is_empty() => {
            let i = rng.below(c.len());
            c[i] = char::from_u32(c[i] as u32 ^ 0x20).unwrap_or('?');
        }
        _ => c.extend(w.chars()),
    }
    c.into_iter().collect()
}

fn haystack<S, W>(cx: &mut Cx, p: &P, h: &str) -> Res
where
    S: for<'a> From<&'a str> + AsRef<str>,
    W: Pattern<S> + From<P>,
{
    let pat = W::from(p.clone());
    let s: S = h.into();
    let got = pat.matches(&s);
    ensure!(got == p.m(h), "{} matches {h:?} as {}: {got}", p.show(), std::any::type_name::<S>());
    ensure!(got == pat.matches(&s), "{} matches {h:?} differently the second time", p.show());
    if let Some(v) = pat.value() {
        // a hint claims that exactly this string matches
        ensure!(
            got == (v.as_ref().as_bytes() == h.as_bytes()),
            "{} has the value {:?} as {}, but matches {h:?}: {got}",
            p.show(),
            v.as_ref(),
            std::any::type_name::<S>()
        );
        cx.count("value hints compared", 1);
    }
    cx.count("haystacks compared", 1);
    if got {
        cx.count("haystacks that match", 1);
    }
    Ok(())
}

fn c11_direct(cx: &mut Cx) -> Res {
    const RES: [&str; 16] = [
        "", "^$", "a", "^a", "a$", "(?i)foo", r"\s", r"^\w+$", "[é-ü]", r"\p{L}{3}", "(?s)^.{4}$", "a|b", r"(?m)^x$", ".", r"\b\d", "🦀",
    ];
    for _ in 0..20 {
        let w = hay(&mut cx.rng);
        let mut hs = vec![w.clone(), String::new()];
        for _ in 0..5 {
            hs.push(near(&mut cx.rng, &w));
        }
        hs.push(hay(&mut cx.rng));
        let mut ps = equals(&w);
        ps.push(P::Bool(true));
        ps.push(P::Bool(false));
        ps.push(P::Re(regex::Regex::new(cx.rng.pick(&RES)).unwrap()));
        ps.push(P::Re(regex::Regex::new(&regex::escape(&w)).unwrap()));
        // one source, several meanings
        for _ in 0..2 {
            ps.push(query::reb(&regex::escape(&w), &mut cx.rng));
            let s = *cx.rng.pick(&RES);
            ps.push(query::reb(s, &mut cx.rng));
        }
        for p in &ps {
            for h in &hs {
                cx.eval(format!("{}{h}", p.show()).as_bytes(), true);
                haystack::<String, PatO>(cx, p, h)?;
                haystack::<UText, PatO>(cx, p, h)?;
                haystack::<scraper::StrTendril, PatO>(cx, p, h)?;
                // text borrowed from a page
                let pat = Pat(p.clone());
                for s in [Cow::Borrowed(forever(h)), Cow::Owned(h.clone())] {
                    let got = Pattern::<Cow<'static, str>>::matches(&pat, &s);
                    ensure!(got == p.m(h), "{} matches {s:?} as Cow: {got}", p.show());
                    if let Some(v) = Pattern::<Cow<'static, str>>::value(&pat) {
                        ensure!(got == (v.as_ref() == h), "{} has the value {v:?}, but matches {h:?}: {got}", p.show());
                    }
                    cx.count("haystacks compared", 1);
                }
            }
        }
    }
    Ok(())
}

fn c11_soups(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J11>(cx, k, 60)
}

/// Strings that differ at one place only, far behind.
fn c11_long(cx: &mut Cx) -> Res {
    let n = VAST[cx.idx as usize % VAST.len()];
    let unit = *cx.rng.pick(&["a", "ab ", "é", "🦀x", "\n"]);
    let w: String = unit.chars().cycle().take(n).collect();
    let c: Vec<char> = w.chars().collect();
    let mut hs = vec![w.clone()];
    for at in [0, 1, n / 2, n - 2, n - 1, cx.rng.below(n)] {
        let mut d = c.clone();
        d[at] = if d[at] == 'b' { 'B' } else { 'b' };
        hs.push(d.iter().collect());
        d[at] = c[at];
        d.remove(at);
        hs.push(d.iter().collect());
        d.truncate(at);
        hs.push(d.iter().collect());
    }
    hs.push(format!("{w}{unit}"));
    hs.push(format!("{w}{w}"));
    for p in equals(&w).iter().filter(|p| !matches!(p, P::Re(_)) || n < 5000) {
        for h in &hs {
            cx.eval(format!("{n}{unit}{}{}", p.show(), rng::hash(h.as_bytes())).as_bytes(), true);
            haystack::<String, PatO>(cx, p, h).map_err(|e| clip(&e))?;
            haystack::<UText, PatO>(cx, p, h).map_err(|e| clip(&e))?;
            haystack::<scraper::StrTendril, PatO>(cx, p, h).map_err(|e| clip(&e))?;
            let got = Pattern::<Cow<'static, str>>::matches(&Pat(p.clone()), &Cow::Owned(h.clone()));
            ensure!(got == p.m(h), "a pattern of {n} times {unit:?} matches as Cow: {got}, {}", clip(h));
            cx.count("long strings compared", 1);
        }
    }
    Ok(())
}

/// Every character before, behind, inside and instead of others.
fn c11_chars(cx: &mut Cx) -> Res {
    let block = if cx.idx < 512 { cx.idx } else { cx.rng.below(0x2200) as u64 };
    for i in block * 128..block * 128 + 128 {
        let Some(c) = u32::try_from(i).ok().and_then(char::from_u32) else { continue };
        let w = *cx.rng.pick(&["w", "", "ab", "é", "12"]);
        let mut all = vec![w.to_string(), format!("{c}"), format!("{c}{w}"), format!("{w}{c}"), format!("{w}{c}{w}"), format!("{c}{w}{c}"), format!("{w}{c}{c}")];
        all.push(c.to_lowercase().collect());
        all.push(c.to_uppercase().collect());
        all.push(char::from_u32(i as u32 ^ 0x20).unwrap_or('?').into());
        all.push(char::from_u32(i as u32 ^ 0x80).unwrap_or('?').into());
        // the plain string, and one (for the first characters each) of those with the character
        let one = cx.rng.range(1, 6);
        let mut ps = vec![];
        for (k, p) in all[..7].iter().enumerate() {
            if k == 0 || k == one || i < 0x400 {
                ps.extend(equals(p));
            }
        }
        ps.retain(|p| !matches!(p, P::Re(_)) || i % 16 == 0);
        for p in &ps {
            for h in &all {
                cx.eval(format!("{}{h}", p.show()).as_bytes(), true);
                haystack::<String, PatO>(cx, p, h)?;
                let got = Pattern::<Cow<'static, str>>::matches(&Pat(p.clone()), &Cow::Owned(h.clone()));
                ensure!(got == p.m(h), "{} matches {h:?} as Cow: {got}", p.show());
                if i % 8 == 0 {
                    haystack::<UText, PatO>(cx, p, h)?;
                    haystack::<scraper::StrTendril, PatO>(cx, p, h)?;
                }
            }
        }
        cx.count("characters tried", 1);
    }
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        families: vec![
            fam("long", VAST.len() as u64, 20 * VAST.len() as u64, c11_long),
            fam("direct", 3000, 100_000, c11_direct),
            fam("chars", 600, 0x2200, c11_chars),
            fam("soups", 30_000, 600_000, c11_soups),
        ],
        need: needs(&[
            ("long strings compared", 1000),
            ("characters tried", 70_000),
            ("haystacks compared", 1_000_000),
            ("haystacks that match", 200_000),
            ("value hints compared", 300_000),
            ("equal patterns compared", 100_000),
            ("results of equal patterns", 100_000),
            ("queries with the hint hidden", 80_000),
        ]),
        rule: "the pattern selects something in the soup, or a (pattern, string) pair",
        assumptions: vec![NODES, "Regex::is_match is the meaning of a regular expression"],
    }
}

// ---------------------------------------------------------------------- C12

struct J12;
impl Job for J12 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        let v = &e.vocab;
        // get against attrs against the snapshot
        let mut names: Vec<String> = SA.iter().map(ToString::to_string).collect();
        for _ in 0..6 {
            if !v.anames.is_empty() {
                let n = cx.rng.pick(&v.anames).clone();
                names.push(near(&mut cx.rng, &n));
                names.push(n);
            }
        }
        for (i, item) in e.soup.iter().enumerate().take(400) {
            let ent = &e.snap.ents[i];
            let own = ent.attrs.iter().flat_map(|a| a.keys());
            let mut more = vec![];
            for n in own.clone().take(4) {
                more.push(alike(&mut cx.rng, n));
            }
            cx.count("lookups by a name like one present", more.len() as u64);
            for n in own.chain(&names).chain(&more) {
                let got = item.get(forever(n)).map(|s| s.as_ref().to_string());
                let want = ent.attrs.as_ref().and_then(|a| a.get(n)).cloned();
                ensure!(got == want, "get({n:?}) of node {i} is {got:?}, expected {want:?}: {}", clip(&format!("{ent:?}")));
                cx.count("lookups compared", 1);
                if want.is_some() {
                    cx.count("lookups that find an attribute", 1);
                }
                // the very value held in the map
                if let Some(g) = item.get(forever(n)) {
                    ensure!(
                        item.attrs().is_some_and(|a| a.iter().any(|(k, v)| k.as_ref() == n && addr(v) == addr(g))),
                        "get({n:?}) of node {i} is not the value in attrs()"
                    );
                }
            }
        }
        for _ in 0..6 {
            // a condition for one attribute of some element, exact or not
            let (n, w) = if v.pairs.is_empty() || cx.rng.pct(20) {
                (query::pattern(&mut cx.rng, &v.anames, &SA), query::pattern(&mut cx.rng, &v.avals, &SV))
            } else {
                let (k, _) = cx.rng.pick(&v.pairs).clone();
                let (l, w) = cx.rng.pick(&v.pairs).clone();
                match cx.rng.below(6) {
                    4 => (P::Str(alike(&mut cx.rng, &k)), P::Str(w)),
                    5 => (P::Str(k), P::Str(alike(&mut cx.rng, &w))),
                    // name of one attribute, value of another
                    0 => (P::Str(k), P::Str(w)),
                    1 => (P::Str(l), P::Str(w)),
                    2 => (query::pattern(&mut cx.rng, &[l], &SA), P::Str(w)),
                    _ => (P::Str(l), query::pattern(&mut cx.rng, &[w], &SV)),
                }
            };
            let f = Attr { name: W::from(n.clone()), value: W::from(w.clone()) };
            let op = Op::Attr(n.clone(), w.clone());
            for (i, item) in e.soup.iter().enumerate() {
                let ent = &e.snap.ents[i];
                let want = op.holds(ent);
                let got = f.matches(&*item);
                ensure!(
                    got == want,
                    "Attr({}, {}) gives {got} for node {i}: {}",
                    n.show(),
                    w.show(),
                    clip(&format!("{ent:?}"))
                );
                query::hide(true);
                let hidden = f.matches(&*item);
                query::hide(false);
                ensure!(hidden == want, "the same without the value hint of the name differs");
                cx.count("attribute conditions compared", 1);
                if want {
                    cx.count("attribute conditions that hold", 1);
                }
                let a = ent.attrs.iter().flatten();
                if !want && a.clone().any(|(k, _)| n.m(k)) && a.clone().any(|(_, x)| w.m(x)) {
                    cx.count("name and value met by different attributes only", 1);
                }
            }
            let ops = [op];
            let k = query::check::<N, W>(&e.soup, &e.snap, &e.addrs, &ops)?;
            cx.eval(format!("{}{}", e.desc, show(&ops)).as_bytes(), k > 0);
            // class: the entire value
            let c = [Op::Class(query::pattern(&mut cx.rng, &v.classes, &SV))];
            cx.count("class results", query::check::<N, W>(&e.soup, &e.snap, &e.addrs, &c)? as u64);
        }
        Ok(())
    }
}
fn c12_soups(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J12>(cx, k, 60)
}
/// Elements with very many attributes.
fn c12_many(cx: &mut Cx) -> Res {
    let n = if cx.idx % 50 == 0 { cx.rng.range(1000, 3000) } else { cx.rng.range(20, 300) };
    let mut attrs = std::collections::BTreeMap::new();
    for i in 0..n {
        let k = if n >= 1000 { i } else { cx.rng.below(500) };
        attrs.insert(UText::from(format!("a{k:03}").as_str()), UText::from(format!("v{}", i % 7).as_str()));
    }
    let kids = unodes(&mut cx.rng, 5);
    let nodes = vec![UNode { id: 0, name: Some("e".into()), text: None, attrs: Some(attrs), kids }];
    user::<J12, _, PatO>(cx, nodes)
}
/// More attributes than any counter would expect, and long names and values.
fn c12_vast(cx: &mut Cx) -> Res {
    let n = VAST[cx.idx as usize % VAST.len()];
    let name = |i: usize| format!("a{i:06}");
    let long = "n".repeat(n);
    let mut attrs: std::collections::BTreeMap<UText, UText> =
        (0..n).map(|i| (UText::from(name(i).as_str()), UText::from(format!("v{i}").as_str()))).collect();
    attrs.insert(UText::from(long.as_str()), UText::from(format!("{long}x").as_str()));
    let soup = soup_of(vec![UNode { id: 0, name: Some(UText::from("e")), text: None, attrs: Some(attrs), kids: vec![] }]);
    let item = soup.first().ok_or("the soup has lost its node")?;
    let mut at: Vec<usize> = vec![0, 1, n / 2, n - 1, n, n + 1, 254, 255, 256, 65_535, 65_536];
    at.extend((0..20).map(|_| cx.rng.below(n)));
    for i in at {
        let (k, v) = (name(i), format!("v{i}"));
        let want = (i < n).then(|| v.clone());
        let got = item.get(forever(&k)).map(|s| s.as_ref().to_string());
        ensure!(got == want, "get({k:?}) of an element with {n} attributes is {got:?}, expected {want:?}");
        let mut is = vec![];
        for (p, q) in [
            (P::Str(k.clone()), P::Bool(true)),
            (P::Bool(true), P::Str(v.clone())),
            (P::EqPlain(k.clone()), P::Str(v.clone())),
            (P::Str(k.clone()), P::EqPlain(v.clone())),
            (P::StartsWith(k.clone()), P::Re(regex::Regex::new(&format!("^{v}$")).unwrap())),
        ] {
            is.push(soup.attr(PatO::from(p), PatO::from(q)).all().count());
        }
        let one = usize::from(i < n);
        ensure!(is == [one; 5], "conditions for {k}={v} on an element with {n} attributes give {is:?} results, expected {one}");
        let other = format!("v{}", (i + 1) % n.max(2));
        let c = soup.attr(PatO::from(P::Str(k.clone())), PatO::from(P::Str(other.clone()))).all().count();
        ensure!(c == 0, "{k}={other} is met by different attributes only, but selects the element");
        cx.count("lookups among very many attributes", 1);
    }
    let got = item.get(forever(&long)).map(|s| s.as_ref().to_string());
    ensure!(got.as_deref() == Some(&format!("{long}x")), "get() of a name of {n} letters is {}", clip(&format!("{got:?}")));
    ensure!(item.get(forever(&format!("{long}n"))).is_none(), "get() of a name one letter longer finds it");
    ensure!(soup.attr(PatO::from(P::Str(long.clone())), PatO::from(P::Str(format!("{long}x")))).first().is_some(), "a condition on a long name and value");
    ensure!(soup.attr(PatO::from(P::Str(long.clone())), PatO::from(P::Str(long.clone()))).first().is_none(), "a long value is matched by a part of it");
    cx.eval(&n.to_le_bytes(), true);
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        families: vec![fam("soups", 160_000, 700_000, c12_soups), fam("many", 4000, 30_000, c12_many), fam("vast", VAST.len() as u64, 200, c12_vast)],
        need: needs(&[
            ("lookups among very many attributes", 300),
            ("lookups compared", 1_000_000),
            ("lookups that find an attribute", 200_000),
            ("lookups by a name like one present", 200_000),
            ("attribute conditions compared", 300_000),
            ("attribute conditions that hold", 30_000),
            ("name and value met by different attributes only", 3000),
            ("class results", 3000),
        ]),
        rule: "the attribute condition selects something",
        assumptions: vec![NODES],
    }
}

// ---------------------------------------------------------------------- C13

struct J13;
impl Job for J13 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        let n = e.snap.ents.len();
        let step = 1 + n / 150;
        let off = cx.rng.below(step);
        let mut cat = vec![];
        for (i, item) in e.soup.iter().enumerate() {
            let ent = &e.snap.ents[i];
            ensure!(same(&*item, ent), "node {i} has changed");
            if ent.depth == 0 {
                cat.extend(item.descendants().map(addr));
            }
            if i % step != off && ent.depth > 0 {
                continue;
            }
            let want = &e.addrs[i..ent.end];
            let got: Vec<usize> = item.descendants().map(addr).collect();
            ensure!(
                got == want,
                "descendants() of node {i} gives {} nodes ({:?}), expected {}",
                got.len(),
                clip(&format!("{:?}", got.iter().map(|a| e.addrs.iter().position(|b| a == b)).collect::<Vec<_>>())),
                want.len()
            );
            let kids: Vec<usize> = ent.kids.iter().map(|k| e.addrs[*k]).collect();
            ensure!(item.children().iter().map(addr).eq(kids.iter().copied()), "children() of node {i} is wrong");
            if let Some([a, b]) = item.direct() {
                ensure!(a == kids, "iter() of node {i} gives {} nodes, expected {}", a.len(), kids.len());
                ensure!(b == kids, "iterating node {i} by reference gives {} nodes, expected {}", b.len(), kids.len());
                cx.count("direct iterations compared", 1);
            }
            let text = e.snap.texts(i).join("\n");
            let got = item.all_text();
            ensure!(got == text, "all_text() of node {i} is {}, expected {}", clip(&got), clip(&text));
            cx.eval(format!("{i}{}", e.desc).as_bytes(), want.len() > 2);
            cx.count("nodes traversed", want.len() as u64);
            cx.count("subtrees compared", 1);
            if e.snap.texts(i).len() > 1 {
                cx.count("subtrees with several texts", 1);
            }
            if ent.depth >= 5 {
                cx.count("subtrees at depth 5 or more", 1);
            }
        }
        ensure!(cat == e.addrs, "the descendants of the top-level nodes together are not the soup");
        Ok(())
    }
}
fn c13_soups(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J13>(cx, k, 80)
}
fn c13_shapes(cx: &mut Cx) -> Res {
    let el = |i: usize, kids| UNode { id: i as u64, name: Some(UText::from("e")), text: None, attrs: None, kids };
    let tx = |i: usize| UNode { id: i as u64, name: None, text: Some(UText::from(format!("t{i}").as_str())), attrs: None, kids: vec![] };
    let n = cx.rng.range(50, 400);
    let nodes = match cx.idx % 5 {
        // deep, with siblings on both sides
        0 => {
            let mut v = vec![];
            for i in 0..n {
                v = vec![tx(3 * i), el(3 * i + 1, v), tx(3 * i + 2)];
            }
            v
        }
        1 => (0..n * 10).map(tx).collect(),
        2 => vec![el(0, (0..n * 10).map(|i| if i % 3 == 0 { el(i, vec![]) } else { tx(i) }).collect())],
        // complete binary tree
        3 => {
            fn bin(d: usize) -> UNode<UText> {
                UNode {
                    id: d as u64,
                    name: None,
                    text: Some(UText::from(format!("d{d}").as_str())),
                    attrs: None,
                    kids: if d == 0 { vec![] } else { vec![bin(d - 1), bin(d - 1)] },
                }
            }
            vec![bin(9), bin(2)]
        }
        // comb: every level has an empty element last
        _ => {
            let mut v = vec![tx(0)];
            for i in 0..n {
                v = vec![el(i, v), el(i, vec![])];
            }
            v
        }
    };
    cx.count("large shapes", 1);
    user::<J13, _, PatO>(cx, nodes)
}

/// What counts as text: exactly the text nodes (and CDATA), content untouched.
fn c13_kinds(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let w: Vec<String> = (0..7).map(|_| hay(&mut cx.rng)).collect();
        let t = |i: usize| UText::from(w[i].as_str());
        let n: HTMLNode<UText> = HTMLNode::Element {
            name: "e".into(),
            attrs: [("k".into(), t(0))].into(),
            children: vec![
                HTMLNode::Text(t(1)),
                HTMLNode::Comment(t(2)),
                HTMLNode::Doctype(t(3)),
                HTMLNode::Void { name: "br".into(), attrs: [].into() },
                HTMLNode::RawElement { name: "script".into(), attrs: [].into(), content: t(4) },
                HTMLNode::Element { name: "i".into(), attrs: [].into(), children: vec![HTMLNode::Text(t(5))] },
                HTMLNode::Text(t(6)),
            ],
        };
        let want = format!("{}\n{}\n{}", w[1], w[5], w[6]);
        cx.eval(want.as_bytes(), true);
        ensure!(n.all_text() == want, "all_text() is {:?}, expected {want:?} for {n:?}", n.all_text());
        for k in n.children() {
            let is = matches!(k, HTMLNode::Text(_));
            ensure!(k.text().is_some() == is, "text() of {k:?} is {:?}", k.text());
            ensure!(is || !k.all_text().contains('\n') || k.children().len() == 1, "{k:?}");
        }
        let x = XMLNode::Element(soupy::parser::XMLElement {
            name: "e".into(),
            children: vec![
                XMLNode::CData(w[0].clone()),
                XMLNode::Comment(w[1].clone()),
                XMLNode::Text(w[2].clone()),
                XMLNode::ProcessingInstruction("p".into(), Some(w[3].clone())),
                XMLNode::Element(soupy::parser::XMLElement {
                    name: "f".into(),
                    children: vec![XMLNode::Text(w[4].clone()), XMLNode::CData(w[5].clone())],
                    ..Default::default()
                }),
            ],
            ..Default::default()
        });
        let want = format!("{}\n{}\n{}\n{}", w[0], w[2], w[4], w[5]);
        ensure!(x.all_text() == want, "all_text() is {:?}, expected {want:?} for {x:?}", x.all_text());
        cx.count("text kinds compared", 1);
    }
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        families: vec![
            fam("soups", 160_000, 800_000, c13_soups),
            fam("shapes", 360, 2000, c13_shapes),
            fam("vast", 70, 560, vast::<J13>), fam("huge", 3, 3, huge),
            fam("kinds", 1800, 10_000, c13_kinds),
        ],
        need: needs(&[
            ("subtrees compared", 100_000),
            ("nodes traversed", 500_000),
            ("direct iterations compared", 20_000),
            ("subtrees with several texts", 5000),
            ("subtrees at depth 5 or more", 1000),
            ("large shapes", 50),
            ("text kinds compared", 4000),
        ]),
        rule: "the subtree has at least three nodes",
        assumptions: vec![NODES],
    }
}

// ---------------------------------------------------------------------- C14

/// The part of a snapshot below a node.
fn below(snap: &Snap, i: usize) -> Snap {
    let e = &snap.ents[i];
    Snap {
        ents: snap.ents[i + 1..e.end]
            .iter()
            .map(|x| Ent {
                depth: x.depth - e.depth - 1,
                end: x.end - i - 1,
                kids: x.kids.iter().map(|k| k - i - 1).collect(),
                ..x.clone()
            })
            .collect(),
        top: e.kids.iter().map(|k| k - i - 1).collect(),
    }
}

/// The Debug form; a tendril's tells whether its buffer is shared, which cloning changes.
fn stable_debug<N: fmt::Debug>(s: &Soup<N>) -> Option<String> {
    (!std::any::type_name::<N>().contains("tendril")).then(|| format!("{s:?}"))
}

/// A node, with a preference for those with much below them.
fn inner(rng: &mut Rng, snap: &Snap) -> usize {
    (0..3)
        .map(|_| rng.below(snap.ents.len()))
        .max_by_key(|i| snap.ents[*i].end - i)
        .unwrap()
}

struct J14;
impl Job for J14 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        let n = e.snap.ents.len();
        if n == 0 {
            return Ok(());
        }
        for _ in 0..5 {
            let ops = query::chain(&mut cx.rng, &e.vocab);
            let hits = query::expect(&e.snap, &ops);
            let pick = if hits.is_empty() || cx.rng.pct(30) { inner(&mut cx.rng, &e.snap) } else { hits[cx.rng.below(hits.len())] };
            let item: QueryItem<'_, N> = match hits.iter().position(|h| *h == pick) {
                Some(k) => query::items::<N, W>(&e.soup, &ops).swap_remove(k),
                None => e.soup.iter().nth(pick).ok_or("the soup has lost a node")?,
            };
            ensure!(addr(&*item) == e.addrs[pick], "soup{} gave the wrong item", show(&ops));
            dig::<N, W>(cx, &e.snap, pick, item, 4)?;
        }
        // clones outlive the original
        let keep_node = {
            let i = cx.rng.below(n);
            let it = e.soup.iter().nth(i).ok_or("the soup has lost a node")?;
            (i, (*it).clone())
        };
        let debug = stable_debug(&e.soup);
        let copy = e.soup.clone();
        ensure!(stable_debug(&copy) == debug, "a clone has another Debug form");
        let second = {
            let third = copy.clone();
            base(&third, &e.snap).map_err(|m| format!("clone of a clone: {m}"))?;
            third.iter().next().map(|i| i.query())
        };
        if let Some(s) = second {
            base(&s, &below(&e.snap, 0)).map_err(|m| format!("sub-soup of a dropped clone: {m}"))?;
        }
        let a = base(&copy, &e.snap).map_err(|m| format!("clone: {m}"))?;
        ensure!(n > 300 || a.iter().all(|x| !e.addrs.contains(x)), "a clone shares nodes with the original");
        for _ in 0..3 {
            let ops = query::chain(&mut cx.rng, &e.vocab);
            query::check::<N, W>(&copy, &e.snap, &a, &ops).map_err(|m| format!("on a clone: {m}"))?;
        }
        cx.count("clones compared", 1);
        // a soup cloned onto another
        let mut onto = match cx.rng.below(4) {
            0 => soup_of(vec![]),
            1 => e.soup.iter().nth(cx.rng.below(n)).ok_or("the soup has lost a node")?.query(),
            2 => soup_of(vec![keep_node.1.clone(); e.snap.top.len().min(30) + 2]),
            _ => copy.clone(),
        };
        onto.clone_from(&e.soup);
        let b = base(&onto, &e.snap).map_err(|m| format!("soup cloned onto another: {m}"))?;
        ensure!(n > 300 || b.iter().all(|x| !e.addrs.contains(x)), "a soup cloned onto another shares nodes with the original");
        let mut other = (*e.soup.iter().nth(cx.rng.below(n)).ok_or("the soup has lost a node")?).clone();
        other.clone_from(&keep_node.1);
        ensure!(stable_debug(&soup_of(vec![other])) == stable_debug(&soup_of(vec![keep_node.1.clone()])), "a node cloned onto another differs");
        cx.count("clones onto others", 2);
        // clones and copies of queries select what the query selects
        for scope in [false, true, true] {
            let q = if scope { (&e.soup).strict() } else { (&e.soup).recursive() };
            #[allow(clippy::clone_on_copy)]
            let (copy, twin, third) = (q, q.clone(), q.clone().clone());
            let conds: Vec<Op> = loop {
                let c: Vec<Op> = query::chain(&mut cx.rng, &e.vocab).into_iter().filter(Op::is_cond).collect();
                if !c.is_empty() {
                    break c;
                }
            };
            let ops = [vec![if scope { Op::Strict } else { Op::Recursive }], conds.clone()].concat();
            let want: Vec<usize> = query::expect(&e.snap, &ops).into_iter().map(|i| e.addrs[i]).collect();
            let bare: Vec<usize> = if scope { e.snap.top.iter().map(|i| e.addrs[*i]).collect() } else { e.addrs.clone() };
            let mut onto = if cx.rng.pct(50) { (&e.soup).strict() } else { (&e.soup).recursive() };
            #[allow(clippy::clone_on_copy)]
            onto.clone_from(&q);
            for (how, q) in [("query", q), ("copy", copy), ("clone", twin), ("clone of a clone", third), ("clone onto another", onto)] {
                let got: Vec<usize> = q.all().map(|i| addr(&*i)).collect();
                ensure!(got == bare, "a {how} of soup{} gives {} nodes, expected {}", show(&ops[..1]), got.len(), bare.len());
                let mut it = query::extend::<N, W>(q, &conds).all();
                let mut got = vec![];
                while let Some(i) = it.next() {
                    got.push(addr(&*i));
                }
                ensure!(got == want, "soup{} by way of a {how} of the first call gives {} nodes, expected {}", show(&ops), got.len(), want.len());
                cx.count("clones of queries compared", 1);
            }
        }
        let node = keep_node.1.clone();
        ensure!(
            node == keep_node.1 && node == *e.soup.iter().nth(keep_node.0).ok_or("lost")?,
            "a cloned node differs from its original"
        );
        let s = soup_of(vec![node]);
        let mut sub = below(&e.snap, keep_node.0);
        // put the node itself back on top
        for x in &mut sub.ents {
            x.depth += 1;
            x.end += 1;
            x.kids.iter_mut().for_each(|k| *k += 1);
        }
        sub.ents.insert(
            0,
            Ent { depth: 0, end: sub.ents.len() + 1, kids: sub.top.iter().map(|k| k + 1).collect(), ..e.snap.ents[keep_node.0].clone() },
        );
        sub.top = vec![0];
        base(&s, &sub).map_err(|m| format!("soup of a cloned node: {m}"))?;
        drop(copy);
        drop(s);
        ensure!(keep_node.1 == *e.soup.iter().nth(keep_node.0).ok_or("lost")?, "a clone changed when others were dropped");
        ensure!(stable_debug(&e.soup) == debug, "the soup has changed");
        ensure!(base(&e.soup, &e.snap)? == e.addrs, "the soup's nodes have moved");
        Ok(())
    }
}

/// The sub-soup of one item, queries on it, and further down.
fn dig<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, snap: &Snap, i: usize, item: QueryItem<'_, N>, depth: usize) -> Res {
    let snap = below(snap, i);
    let sub = item.query();
    let again = item.query();
    let third = item.clone().query();
    let addrs = base(&sub, &snap).map_err(|e| format!("query() of an item: {e}"))?;
    base(&third, &snap).map_err(|e| format!("query() of a copied item: {e}"))?;
    for (a, b) in item.children().iter().zip(sub.strict().all()) {
        ensure!(*a == *b, "query() holds a node that differs from the child");
    }
    cx.count("sub-soups compared", 1);
    cx.count("nodes in sub-soups", snap.ents.len() as u64);
    let v = query::vocab(&snap);
    for _ in 0..3 {
        let ops = query::chain(&mut cx.rng, &v);
        let k = query::check::<N, W>(&sub, &snap, &addrs, &ops).map_err(|e| format!("on a sub-soup: {e}"))?;
        cx.count("sub-queries compared", 1);
        cx.count("sub-query results", k as u64);
        cx.eval(format!("{:?}{}", snap.ents.first(), show(&ops)).as_bytes(), k > 0);
    }
    if depth > 0 && !snap.ents.is_empty() {
        let p = inner(&mut cx.rng, &snap);
        if cx.rng.pct(50) {
            let it = sub.iter().nth(p).ok_or("the sub-soup has lost a node")?;
            dig::<N, W>(cx, &snap, p, it, depth - 1)?;
        } else {
            // the parent soup goes away before its sub-soup is used
            let low = sub.iter().nth(p).ok_or("the sub-soup has lost a node")?.query();
            drop(sub);
            let s = below(&snap, p);
            let a = base(&low, &s).map_err(|e| format!("sub-soup after its parent was dropped: {e}"))?;
            let ops = query::chain(&mut cx.rng, &v);
            query::check::<N, W>(&low, &s, &a, &ops).map_err(|e| format!("on a sub-soup after its parent was dropped: {e}"))?;
            cx.count("parents dropped first", 1);
            cx.count("deepest sub-soups", u64::from(depth == 1));
        }
    }
    base(&again, &snap).map_err(|e| format!("an earlier sub-soup has changed: {e}"))?;
    Ok(())
}

fn c14_soups(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J14>(cx, k, 60)
}

/// Soups outlive what they were made from.
fn c14_owned(cx: &mut Cx) -> Res {
    for _ in 0..5 {
        let t = small(&mut cx.rng, 40);
        let (d, _) = html::spell(&mut cx.rng, &t, 2, true);
        let x = as_xml(&t);
        let l = {
            let temp = d.clone();
            Soup::html(temp)
        };
        let s = {
            let temp = x.clone().into_bytes();
            Soup::xml(&temp[..]).map_err(|e| format!("{e:?}"))?
        };
        let Ok(ln) = LenientHTMLParser::<&str>::parse(&d);
        base(&l, &Snap::of(&ln)).map_err(|m| format!("lenient soup after its text was dropped: {m}\n{}", clip(&d)))?;
        let sub = l.iter().next().map(|i| i.query());
        drop(l);
        if let Some(s) = sub {
            base(&s, &below(&Snap::of(&ln), 0)).map_err(|m| format!("lenient sub-soup: {m}\n{}", clip(&d)))?;
        }
        let xn = XMLParser::parse(x.as_bytes()).map_err(|e| format!("{e:?}"))?;
        base(&s, &Snap::of(&xn)).map_err(|m| format!("XML soup after its text was dropped: {m}\n{x}"))?;
        cx.eval(d.as_bytes(), true);
        cx.count("texts dropped first", 1);
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        families: vec![fam("vast", 70, 280, vast::<J14>), fam("huge", 3, 3, huge), fam("soups", 60_000, 600_000, c14_soups), fam("owned", 2400, 10_000, c14_owned)],
        need: needs(&[
            ("sub-soups compared", 80_000),
            ("nodes in sub-soups", 100_000),
            ("sub-queries compared", 200_000),
            ("sub-query results", 100_000),
            ("clones compared", 10_000),
            ("clones onto others", 20_000),
            ("clones of queries compared", 50_000),
            ("parents dropped first", 5000),
            ("deepest sub-soups", 100),
            ("texts dropped first", 900),
        ]),
        rule: "a sub-query with results",
        assumptions: vec![NODES],
    }
}

// ---------------------------------------------------------------------- C15

/// Which node owns the string at an address.
fn owners<N: Good>(e: &Env<N>) -> HashMap<usize, usize> {
    let mut m = HashMap::new();
    for (i, item) in e.soup.iter().enumerate() {
        let n: &N = &item;
        if let Some(s) = n.name() {
            m.insert(addr(s), i);
        }
        for (k, v) in n.attrs().into_iter().flatten() {
            m.insert(addr(k), i);
            m.insert(addr(v), i);
        }
    }
    m
}

/// Steps one query to its end, looking at what was evaluated meanwhile.
fn lazy<'a, N: Good + 'a>(mut it: Steps<'a, N>, want: &[usize], own: &HashMap<usize, usize>, addrs: &[usize]) -> Result<u64, String> {
    let n = addrs.len();
    let mut seen = 0;
    ensure!(take_log().is_empty(), "building a query or all() evaluates conditions before the first next()");
    for k in 0..=want.len() {
        let (lo, hi) = it.size_hint();
        let left = want.len() - k;
        ensure!(lo <= left && hi.is_none_or(|h| left <= h), "size_hint ({lo}, {hi:?}) with {left} items left");
        ensure!(take_log().is_empty(), "size_hint() evaluates conditions");
        let g = it.next().map(|i| addr(&*i));
        let w = want.get(k).map(|i| addrs[*i]);
        ensure!(g == w, "next() number {k} gives the wrong node");
        let log = take_log();
        seen += log.len() as u64;
        let bound = want.get(k).copied().unwrap_or(n);
        for a in log {
            if let Some(i) = own.get(&a) {
                ensure!(*i <= bound, "next() number {k} gave node {bound} but evaluated a condition on node {i} behind it");
            }
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "an exhausted iterator gives another item");
        let (lo, hi) = it.size_hint();
        ensure!(lo == 0, "an exhausted iterator has size_hint ({lo}, {hi:?})");
    }
    take_log();
    Ok(seen)
}

/// One method of Iterator, called on the library's own type, against repeated next().
fn adapt<I: Iterator>(rng: &mut Rng, mut pre: I, key: fn(&I::Item) -> usize, want: &[usize]) -> Res {
    let n = want.len();
    let k = rng.below(n + 2);
    // start from the middle as often as not
    let off = if rng.pct(50) { rng.below(n + 1) } else { 0 };
    for i in 0..off {
        ensure!(pre.next().map(|x| key(&x)) == want.get(i).copied(), "next() {i}");
    }
    let rest = &want[off..];
    let (lo, hi) = pre.size_hint();
    ensure!(
        lo <= rest.len() && hi.is_none_or(|h| rest.len() <= h),
        "size_hint after {off} items of {n}: ({lo}, {hi:?}), repeated next() gives {}",
        rest.len()
    );
    let keys = |v: Vec<I::Item>| v.iter().map(key).collect::<Vec<_>>();
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            ensure!(a == b, "{} after {off} items of {n} (k = {k}): {a:?}, repeated next() gives {b:?}", $what);
        }};
    }
    match rng.below(18) {
        17 => {
            for i in 0..=rest.len() {
                let (lo, hi) = pre.size_hint();
                let left = rest.len() - i;
                ensure!(
                    lo <= left && hi.is_none_or(|h| left <= h),
                    "size_hint after {} items of {n}: ({lo}, {hi:?}), repeated next() gives {left}",
                    off + i
                );
                eq!("next()", pre.next().map(|x| key(&x)), rest.get(i).copied());
            }
            let (lo, hi) = pre.size_hint();
            ensure!(lo == 0, "size_hint of an exhausted iterator: ({lo}, {hi:?})");
        }
        0 => eq!("count()", pre.count(), rest.len()),
        1 => eq!("last()", pre.last().map(|x| key(&x)), rest.last().copied()),
        2 => {
            eq!("nth()", pre.nth(k).map(|x| key(&x)), rest.get(k).copied());
            eq!("next() after nth()", pre.next().map(|x| key(&x)), rest.get(k + 1).copied());
        }
        3 => eq!("skip()", keys(pre.skip(k).collect()), rest.iter().copied().skip(k).collect::<Vec<_>>()),
        4 => eq!("step_by()", keys(pre.step_by(k + 1).collect()), rest.iter().copied().step_by(k + 1).collect::<Vec<_>>()),
        5 => eq!(
            "fold()",
            pre.fold(vec![], |mut v, x| {
                v.push(key(&x));
                v
            }),
            rest.to_vec()
        ),
        6 => eq!("collect()", keys(pre.collect()), rest.to_vec()),
        7 => {
            eq!("take()", keys(pre.by_ref().take(k).collect()), rest.iter().copied().take(k).collect::<Vec<_>>());
            eq!("the rest", keys(pre.collect()), rest.iter().copied().skip(k).collect::<Vec<_>>());
        }
        8 => {
            let t = rest.get(k).copied();
            eq!("find()", pre.find(|x| Some(key(x)) == t).map(|x| key(&x)), t);
            eq!("next() after find()", pre.next().map(|x| key(&x)), if t.is_some() { rest.get(k + 1).copied() } else { None });
        }
        9 => eq!("position()", pre.position(|x| Some(key(&x)) == rest.get(k).copied()), rest.get(k).map(|_| k)),
        10 => eq!("any()", pre.any(|_| true), !rest.is_empty()),
        11 => {
            let mut c = 0;
            pre.for_each(|_| c += 1);
            eq!("for_each()", c, rest.len());
        }
        12 => {
            let mut p = pre.peekable();
            eq!("peek()", p.peek().map(key), rest.first().copied());
            eq!("after peek()", keys(p.collect()), rest.to_vec());
        }
        13 => {
            // exhaust with nth, then everything stays empty
            eq!("nth() beyond the end", pre.nth(rest.len()).map(|x| key(&x)), None);
            for _ in 0..3 {
                eq!("next() after the end", pre.next().map(|x| key(&x)), None);
            }
            eq!("nth() after the end", pre.nth(0).map(|x| key(&x)), None);
            eq!("count() after the end", pre.count(), 0);
        }
        14 => eq!("max_by_key()", pre.max_by_key(key).map(|x| key(&x)), rest.iter().max().copied()),
        15 => {
            let mut left = k;
            let r = pre.try_fold(vec![], |mut v, x| {
                v.push(key(&x));
                if left == 0 {
                    return Err(v);
                }
                left -= 1;
                Ok(v)
            });
            eq!("try_fold()", r.unwrap_or_else(|v| v), rest.iter().copied().take(k + 1).collect::<Vec<_>>());
            eq!("the rest after try_fold()", keys(pre.collect()), rest.iter().copied().skip(k + 1).collect::<Vec<_>>());
        }
        _ => eq!("partition()", keys(pre.partition::<Vec<_>, _>(|_| true).0), rest.to_vec()),
    }
    Ok(())
}

struct J15;
impl Job for J15 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &Env<N>) -> Res {
        let own = owners(e);
        for _ in 0..6 {
            let ops = query::chain(&mut cx.rng, &e.vocab);
            let want = query::expect(&e.snap, &ops);
            let wa: Vec<usize> = want.iter().map(|i| e.addrs[*i]).collect();
            take_log();
            query::logging(true);
            let seen = lazy(query::build::<N, W>(&e.soup, &ops).all(), &want, &own, &e.addrs);
            query::logging(false);
            let seen = seen.map_err(|m| format!("soup{}: {m}", show(&ops)))?;
            cx.count("steps watched", want.len() as u64 + 1);
            cx.count("evaluations located", seen);
            cx.eval(format!("{}{}", e.desc, show(&ops)).as_bytes(), want.len() > 1);
            if want.len() > 1 {
                cx.count("iterators with several items", 1);
            }
            // first()
            take_log();
            query::logging(true);
            let f = query::build::<N, W>(&e.soup, &ops).first().map(|i| addr(&*i));
            query::logging(false);
            let log = take_log();
            ensure!(f == wa.first().copied(), "soup{}.first() is not the first item of all()", show(&ops));
            if let Some(b) = want.first() {
                let far = log.into_iter().filter_map(|a| own.get(&a).copied()).max();
                ensure!(
                    far.is_none_or(|i| i <= *b),
                    "soup{}.first() is node {b}, but a condition was evaluated on node {far:?}",
                    show(&ops)
                );
            }
            for _ in 0..4 {
                let q = query::build::<N, W>(&e.soup, &ops).all();
                adapt(&mut cx.rng, q, |i| addr(&**i), &wa).map_err(|m| format!("soup{}: {m}", show(&ops)))?;
                cx.count("adaptors compared", 1);
            }
        }
        adapt(&mut cx.rng, e.soup.iter(), |i| addr(&**i), &e.addrs).map_err(|m| format!("soup.iter(): {m}"))?;
        adapt(&mut cx.rng, e.soup.strict().all(), |i| addr(&**i), &e.snap.top.iter().map(|i| e.addrs[*i]).collect::<Vec<_>>())
            .map_err(|m| format!("soup.strict().all(): {m}"))?;
        // several iterators over one soup at once, with and without conditions
        let p: Vec<P> = (0..3).map(|_| query::pattern(&mut cx.rng, &e.vocab.names, &SN)).collect();
        let v = query::pattern(&mut cx.rng, &e.vocab.avals, &SV);
        let q = (&e.soup).strict();
        let r = q.recursive();
        let w = |p: &P| W::from(p.clone());
        let mut its: Vec<(Box<dyn Iterator<Item = usize> + '_>, Vec<usize>, usize)> = vec![];
        let ex = |ops: &[Op]| query::expect(&e.snap, ops).into_iter().map(|i| e.addrs[i]).collect::<Vec<_>>();
        macro_rules! push {
            ($q:expr, $ops:expr) => {
                its.push((Box::new($q.into_iter().map(|i| addr(&*i))), ex($ops), 0))
            };
        }
        for p in &p {
            push!(r.tag(w(p)), &[Op::Tag(p.clone())]);
            push!(r.tag(w(p)), &[Op::Tag(p.clone())]);
            push!(q.tag(w(p)), &[Op::Strict, Op::Tag(p.clone())]);
        }
        push!(r.attr_value(w(&v)), &[Op::AttrValue(v.clone())]);
        push!(r.tag(w(&p[0])).attr_value(w(&v)), &[Op::Tag(p[0].clone()), Op::AttrValue(v.clone())]);
        push!(q, &[Op::Strict]);
        push!(q, &[Op::Strict]);
        #[allow(clippy::clone_on_copy)]
        {
            push!(r.clone(), &[]);
        }
        push!(r, &[]);
        push!(&e.soup, &[]);
        push!(e.soup.iter(), &[]);
        // traversals too
        if let Some(first) = (&e.soup).first() {
            let n: &N = e.soup.iter().next().map(|_| ()).and(node_ref(&e.soup)).ok_or("no first node")?;
            ensure!(addr(n) == addr(&*first), "first() of the soup is not its first node");
            let want = e.addrs[..e.snap.ents[0].end].to_vec();
            its.push((Box::new(n.descendants().map(addr)), want.clone(), 0));
            its.push((Box::new(n.descendants().map(addr)), want.clone(), 0));
            for _ in 0..4 {
                adapt(&mut cx.rng, n.descendants(), |x| addr(*x), &want).map_err(|m| format!("descendants(): {m}"))?;
                cx.count("adaptors compared", 1);
            }
            // and of any other node, its children likewise
            for _ in 0..3 {
                let i = cx.rng.below(e.snap.ents.len());
                let item = e.soup.iter().nth(i).ok_or("the soup has fewer nodes")?;
                let want = &e.addrs[i..e.snap.ents[i].end];
                adapt(&mut cx.rng, item.descendants(), |x| addr(*x), want).map_err(|m| format!("descendants() of node {i}: {m}"))?;
                cx.count("adaptors compared", 1);
            }
        }
        let total: usize = its.iter().map(|i| i.1.len() + 2).sum();
        for _ in 0..total.min(600) {
            let i = cx.rng.below(its.len());
            if cx.rng.pct(2) && its.len() > 3 {
                drop(its.swap_remove(i));
                cx.count("iterators dropped half-way", 1);
                continue;
            }
            let (it, want, at) = &mut its[i];
            let burst = cx.rng.range(1, 4);
            for _ in 0..burst {
                let g = it.next();
                ensure!(
                    g == want.get(*at).copied(),
                    "interleaved iteration: item {at} of an iterator of {} is wrong ({:?})",
                    want.len(),
                    g.map(|a| e.addrs.iter().position(|b| *b == a))
                );
                *at += 1;
                cx.count("interleaved steps", 1);
            }
        }
        for (it, want, at) in &mut its {
            let got: Vec<usize> = it.collect();
            ensure!(got == want.get(*at..).unwrap_or(&[]), "the rest of an interleaved iterator is wrong");
        }
        Ok(())
    }
}

/// The first node with the lifetime of the soup.
fn node_ref<N: Good>(s: &Soup<N>) -> Option<&N> {
    struct Hold<'x, N>(QueryItem<'x, N>);
    let h = Hold(s.iter().next()?);
    // QueryItem derefs with its own lifetime only; the node lives as long as the soup
    let p: *const N = std::ptr::from_ref(&*h.0);
    Some(unsafe { &*p })
}

fn c15_soups(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    drive::<J15>(cx, k, 50)
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        families: vec![fam("vast", 70, 280, vast::<J15>), fam("soups", 120_000, 700_000, c15_soups)],
        need: needs(&[
            ("steps watched", 100_000),
            ("evaluations located", 200_000),
            ("iterators with several items", 10_000),
            ("adaptors compared", 100_000),
            ("interleaved steps", 500_000),
            ("iterators dropped half-way", 5000),
        ]),
        rule: "the query has at least two results",
        assumptions: vec![NODES, "a string a condition is evaluated on is located by its address"],
    }
}
