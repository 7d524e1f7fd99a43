//! C23: equality of nodes.
use std::borrow::Cow;

use soupy::{
    parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser, XMLNode, XMLParser},
    Queryable, Soup,
};

use super::at;
use crate::{
    case::{clip, fam, Cx, Prop, Res},
    ensure,
    html::{self, H},
    page,
    rng::Rng,
    xmlm::{self, X},
};

/// == and != on all pairs of nodes, against the equality of their models.
fn pairs<N: PartialEq + Clone, M: PartialEq>(cx: &mut Cx, nodes: &[(N, M)], show: &dyn Fn(&N) -> String) -> Res {
    for (a, ma) in nodes {
        ensure!(*a == a.clone() && !(*a != a.clone()), "a clone is not equal to its node: {}", show(a));
        for (b, mb) in nodes {
            let want = ma == mb;
            let (eq, ne) = (a == b, a != b);
            ensure!(
                eq == want && ne != want,
                "== gives {eq} and != gives {ne} for two {} trees:\n{}\n{}",
                if want { "equal" } else { "different" },
                show(a),
                show(b)
            );
            cx.count(if want { "pairs of equal trees" } else { "pairs of different trees" }, 1);
        }
    }
    Ok(())
}

/// One small change somewhere in the tree.
pub(super) fn change_h(rng: &mut Rng, t: &mut Vec<H>) {
    fn nth<'a>(t: &'a mut Vec<H>, n: &mut usize) -> Option<(&'a mut Vec<H>, usize)> {
        for i in 0..t.len() {
            if *n == 0 {
                return Some((t, i));
            }
            *n -= 1;
            let inside = match &t[i] {
                H::El { kids, .. } => html::size(kids),
                _ => 0,
            };
            if *n < inside {
                let H::El { kids, .. } = &mut t[i] else { unreachable!() };
                return nth(kids, n);
            }
            *n -= inside;
        }
        None
    }
    let size = html::size(t);
    if size == 0 {
        t.push(H::Text("x".into()));
        return;
    }
    let mut n = rng.below(size);
    let Some((list, i)) = nth(t, &mut n) else { return };
    let tweak = |rng: &mut Rng, s: &mut String| match rng.below(6) {
        0 => s.push(*rng.pick(&['x', ' ', '\n', '\u{301}', '\u{0}', 'é'])),
        1 => s.insert(0, *rng.pick(&['x', ' ', 'A'])),
        2 => {
            s.pop();
        }
        3 => *s = s.to_ascii_uppercase(),
        4 => *s = s.trim().to_string(),
        _ => {
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let k = rng.below(c.len());
                c[k] = if c[k] == 'y' { 'z' } else { 'y' };
            }
            *s = c.into_iter().collect();
        }
    };
    match rng.below(9) {
        0 => {
            list.remove(i);
        }
        1 => {
            let c = list[i].clone();
            list.insert(i, c);
        }
        2 => {
            let j = rng.below(list.len());
            list.swap(i, j);
        }
        3 => list.insert(i, H::Text(String::new())),
        4 => {
            // another kind of node with the same content
            list[i] = match list[i].clone() {
                H::Text(s) => H::Comment(s),
                H::Comment(s) => H::Doctype(s),
                H::Doctype(s) => H::Text(s),
                H::Void { name, attrs } => H::El { name, attrs, kids: vec![] },
                H::El { name, attrs, kids } if kids.is_empty() => {
                    if rng.pct(50) {
                        H::Void { name, attrs }
                    } else {
                        H::Raw { name, attrs, content: String::new() }
                    }
                }
                H::El { name, attrs, kids } => {
                    H::El { name, attrs, kids: vec![H::El { name: "i".into(), attrs: Default::default(), kids }] }
                }
                H::Raw { name, attrs, content } => H::El { name, attrs, kids: vec![H::Text(content)] },
            }
        }
        _ => match &mut list[i] {
            H::Text(s) | H::Comment(s) | H::Doctype(s) => tweak(rng, s),
            H::Raw { name, attrs, content } => match rng.below(3) {
                0 => tweak(rng, name),
                1 => tweak(rng, content),
                _ => change_attrs(rng, attrs),
            },
            H::El { name, attrs, .. } | H::Void { name, attrs } => {
                if rng.pct(40) {
                    tweak(rng, name);
                } else {
                    change_attrs(rng, attrs);
                }
            }
        },
    }
}

fn change_attrs(rng: &mut Rng, m: &mut std::collections::BTreeMap<String, String>) {
    let keys: Vec<String> = m.keys().cloned().collect();
    if keys.is_empty() || rng.pct(20) {
        m.insert(format!("k{}", rng.below(3)), String::new());
        return;
    }
    let k = rng.pick(&keys).clone();
    let v = m.remove(&k).unwrap();
    match rng.below(5) {
        0 => {}
        1 => {
            m.insert(v, k);
        }
        2 => {
            m.insert(k + "x", v);
        }
        3 => {
            m.insert(k.to_ascii_uppercase(), v);
        }
        _ => {
            m.insert(k, v + " ");
        }
    }
}

fn c23_built(cx: &mut Cx) -> Res {
    let mut cfg = html::Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(40);
    let base = html::forest(&mut cx.rng, &cfg);
    let mut all = vec![base.clone(), base.clone()];
    for _ in 0..8 {
        let mut t = cx.rng.pick(&all).clone();
        change_h(&mut cx.rng, &mut t);
        all.push(t);
    }
    let root = |t: &Vec<H>| H::El { name: "r".into(), attrs: Default::default(), kids: t.clone() };
    for t in &all {
        cx.eval(format!("{t:?}").as_bytes(), html::size(t) > 1);
    }
    let show = |n: &HTMLNode<String>| clip(&format!("{:?}", html::model(n)));
    let v: Vec<(HTMLNode<String>, H)> = all.iter().map(|t| (html::unmodel(&root(t)), root(t))).collect();
    pairs(cx, &v, &show)?;
    // the same texts, borrowed or owned
    let w: Vec<(HTMLNode<Cow<'_, str>>, H)> =
        v.iter().enumerate().map(|(i, (n, m))| (cows(n, i % 2 == 0), m.clone())).collect();
    let v = w;
    pairs(cx, &v, &|n| clip(&format!("{:?}", html::model(n))))
}

fn cows<'a>(n: &'a HTMLNode<String>, owned: bool) -> HTMLNode<Cow<'a, str>> {
    fn c(s: &str, owned: bool) -> Cow<'_, str> {
        if owned {
            Cow::Owned(s.to_string())
        } else {
            Cow::Borrowed(s)
        }
    }
    let m = |m: &'a std::collections::BTreeMap<String, String>| m.iter().map(|(k, v)| (c(k, owned), c(v, owned))).collect();
    match n {
        HTMLNode::Comment(s) => HTMLNode::Comment(c(s, owned)),
        HTMLNode::Doctype(s) => HTMLNode::Doctype(c(s, owned)),
        HTMLNode::Text(s) => HTMLNode::Text(c(s, owned)),
        HTMLNode::Void { name, attrs } => HTMLNode::Void { name: c(name, owned), attrs: m(attrs) },
        HTMLNode::RawElement { name, attrs, content } => {
            HTMLNode::RawElement { name: c(name, owned), attrs: m(attrs), content: c(content, owned) }
        }
        HTMLNode::Element { name, attrs, children } => HTMLNode::Element {
            name: c(name, owned),
            attrs: m(attrs),
            children: children.iter().map(|k| cows(k, owned)).collect(),
        },
    }
}

/// Nodes of parsed documents: other spellings of one tree, and small damage.
fn c23_parsed(cx: &mut Cx) -> Res {
    let mut cfg = html::Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(25);
    let lenient = cx.idx % 3 == 1;
    match cx.idx % 3 {
        0 | 1 => {
            let t = if lenient { page::page(&mut cx.rng, 20, false) } else { html::forest(&mut cx.rng, &cfg) };
            let mut docs: Vec<String> = (0..3).map(|_| html::spell(&mut cx.rng, &t, 20, true).0).collect();
            for _ in 0..6 {
                if cx.rng.pct(50) {
                    let mut u = t.clone();
                    change_h(&mut cx.rng, &mut u);
                    docs.push(html::spell(&mut cx.rng, &u, 20, true).0);
                } else {
                    let d = cx.rng.pick(&docs).clone();
                    docs.push(html::mutate(&mut cx.rng, &d));
                }
            }
            at(&docs.join("\n----\n"));
            for d in &docs {
                cx.eval(d.as_bytes(), d.contains('<'));
            }
            if lenient {
                let mut v = vec![];
                for d in &docs {
                    let Ok(n) = LenientHTMLParser::<&str>::parse(d);
                    v.extend(n.into_iter().rev().take(3).map(|n| {
                        let m = html::model(&n);
                        (n, m)
                    }));
                }
                pairs(cx, &v, &|n| clip(&format!("{:?}", html::model(n))))?;
                // one element and its parent's copy of it
                let s = Soup::html(&docs[0]);
                for i in s.tag(true).all().take(5) {
                    let q = i.query();
                    let top: Vec<_> = q.strict().all().map(|x| html::model(&*x)).collect();
                    ensure!(top == html::models(soupy::Node::children(&*i)), "query() changed the children");
                    ensure!(q.strict().all().zip(soupy::Node::children(&*i)).all(|(a, b)| *a == *b), "the children of a node and of its query() are not equal");
                    cx.count("children compared with those of a sub-query", 1);
                }
            } else {
                let mut v = vec![];
                for d in &docs {
                    if let Ok(n) = StrictHTMLParser::parse(d) {
                        v.extend(n.into_iter().rev().take(3).map(|n| {
                            let m = html::model(&n);
                            (n, m)
                        }));
                    }
                }
                pairs(cx, &v, &|n| clip(&format!("{:?}", html::model(n))))?;
            }
        }
        _ => {
            let mut v: Vec<(XMLNode, X)> = vec![];
            let mut c = xmlm::Cfg::any(&mut cx.rng);
            c.nodes = c.nodes.min(20);
            let d = xmlm::doc(&mut cx.rng, c);
            let mut docs = vec![d.bytes.clone(), d.bytes.clone()];
            if d.enc != xmlm::Enc::Latin1 {
                if let Some(i) = d.text.find('<').filter(|_| !d.text.starts_with("<?xml")) {
                    docs.push(xmlm::encode(&d.text[i..], xmlm::Enc::Utf8Bom));
                }
            }
            for _ in 0..8 {
                let mut b = cx.rng.pick(&docs).clone();
                let i = cx.rng.below(b.len());
                match cx.rng.below(4) {
                    0 => b[i] = b[i].wrapping_add(1),
                    1 => b[i] ^= 0x20,
                    2 => b.insert(i, *cx.rng.pick(b"ax :1-")),
                    _ => {
                        b.remove(i);
                    }
                }
                docs.push(b);
            }
            for d in &docs {
                at(&String::from_utf8_lossy(d));
                cx.eval(d, true);
                if let Ok(n) = XMLParser::parse(&d[..]) {
                    v.extend(n.into_iter().map(|n| {
                        let m = xmlm::model(&n);
                        (n, m)
                    }));
                }
            }
            let k = v.len();
            for _ in 0..(10 * usize::from(k > 0)) {
                let (mut n, _) = v[cx.rng.below(k)].clone();
                change_x(&mut cx.rng, &mut n);
                let m = xmlm::model(&n);
                v.push((n, m));
            }
            pairs(cx, &v, &|n| clip(&format!("{:?}", xmlm::model(n))))?;
        }
    }
    Ok(())
}

fn change_x(rng: &mut Rng, n: &mut XMLNode) {
    if let XMLNode::Element(e) = n {
        if !e.children.is_empty() && rng.pct(60) {
            let i = rng.below(e.children.len());
            return change_x(rng, &mut e.children[i]);
        }
    }
    let at = n;
    match at {
        XMLNode::Element(e) => match rng.below(8) {
            0 => e.prefix = if e.prefix.is_none() { Some(String::new()) } else { None },
            1 => e.namespace = Some("urn:x".into()),
            2 => e.namespaces = None,
            3 => e.name.push('x'),
            4 => change_attrs(rng, &mut e.attributes),
            5 => e.children.push(XMLNode::Text(String::new())),
            6 => {
                e.children.pop();
            }
            _ => e.children.reverse(),
        },
        XMLNode::ProcessingInstruction(a, b) => match rng.below(3) {
            0 => a.push('x'),
            1 => *b = if b.is_none() { Some(String::new()) } else { None },
            _ => *b = Some("y".into()),
        },
        XMLNode::Comment(s) => {
            let s = std::mem::take(s);
            *at = if rng.pct(50) { XMLNode::CData(s) } else { XMLNode::Comment(s + " ") };
        }
        XMLNode::CData(s) => {
            let s = std::mem::take(s);
            *at = if rng.pct(50) { XMLNode::Text(s) } else { XMLNode::CData(s + " ") };
        }
        XMLNode::Text(s) => {
            let s = std::mem::take(s);
            *at = if rng.pct(50) { XMLNode::CData(s) } else { XMLNode::Text(s + " ") };
        }
    }
}

/// Nodes that differ in one place only, in vectors of any length and at any depth.
fn c23_sizes(cx: &mut Cx) -> Res {
    let n = super::queries::VAST[cx.idx as usize % super::queries::VAST.len()];
    let leaf = |i: usize, odd: bool| H::El {
        name: "a".into(),
        attrs: [("k".to_string(), if odd { "odd".into() } else { (i % 7).to_string() })].into(),
        kids: vec![H::Text("x".into())],
    };
    let at = [0, n / 2, n - 1][cx.idx as usize / super::queries::VAST.len() % 3];
    let wide = |odd: Option<usize>| H::El {
        name: "r".into(),
        attrs: Default::default(),
        kids: (0..n).map(|i| leaf(i, odd == Some(i))).collect(),
    };
    let long = |odd: Option<usize>| H::Text((0..n).map(|i| if odd == Some(i) { 'y' } else { 'x' }).collect());
    let many = |odd: Option<usize>| H::Void {
        name: "br".into(),
        attrs: (0..n).map(|i| (format!("a{i}"), if odd == Some(i) { "y".into() } else { String::new() })).collect(),
    };
    let deep = |odd: Option<usize>| {
        let n = n.min(300);
        let odd = odd.map(|o| o * n / super::queries::VAST[cx.idx as usize % super::queries::VAST.len()]);
        let mut h = H::Text("x".into());
        for i in 0..n {
            h = H::El { name: if odd == Some(i) { "b" } else { "a" }.into(), attrs: Default::default(), kids: vec![h] };
        }
        h
    };
    let mut v: Vec<(HTMLNode<String>, H)> = vec![];
    for (a, b) in [
        (wide(None), wide(Some(at))),
        (long(None), long(Some(at))),
        (many(None), many(Some(at))),
        (deep(None), deep(Some(at))),
    ] {
        for h in [a.clone(), a, b] {
            v.push((html::unmodel(&h), h));
        }
    }
    cx.eval(format!("{n} {at}").as_bytes(), true);
    cx.count("sizes compared", 1);
    pairs(cx, &v, &|n| clip(&format!("{:?}", html::model(n))))
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        families: vec![
            fam("built", 12_000, 200_000, c23_built),
            fam("parsed", 6000, 200_000, c23_parsed),
            fam("sizes", 42, 420, c23_sizes),
        ],
        need: vec![
            ("pairs of equal trees", 100_000),
            ("pairs of different trees", 500_000),
            ("children compared with those of a sub-query", 2000),
            ("sizes compared", 42),
        ],
        rule: "== and != on all pairs of a set of trees that are equal or differ in one place; distinct by tree or document, non-trivial with more than one node or markup",
        assumptions: vec!["the trees are compared through models made by matching on the public enums"],
    }
}
