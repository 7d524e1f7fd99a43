//! C25: conversion of scraper and xmltree trees, and the entry points.
use std::{
    borrow::Cow,
    collections::{BTreeMap, VecDeque},
    io::{BufReader, Cursor, Read},
};

use ego_tree::{NodeId, NodeRef, Tree};
use html5ever::{Attribute, LocalName, Namespace, QualName};
use scraper::{node as sn, Node as SN};
use soupy::{
    parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser, XMLElement, XMLNode, XMLParser},
    Queryable, Soup,
};

use super::{
    at, equal,
    lenient::{canon, expected, Exp},
    xml,
};
use crate::{
    case::{clip, fam, Cx, Prop, Res},
    ensure,
    html::{self, H},
    page, query,
    query::{forever, Snap},
    rng::Rng,
    xmlm::{self, X},
};

type Lenient = HTMLNode<scraper::StrTendril>;

/// The conversions are asked for by way of the type of their source, so that this still builds
/// for a tree that keeps one of them to itself; there is nothing to judge then.
struct Via<T>(T);

trait Offered {
    fn lenient(&self) -> Option<Result<Lenient, ()>>;
}
impl<T: Clone> Offered for Via<T>
where
    Lenient: TryFrom<T>,
{
    fn lenient(&self) -> Option<Result<Lenient, ()>> {
        Some(self.0.clone().try_into().map_err(|_| ()))
    }
}

trait OfferedNode {
    fn node(&self) -> Option<XMLNode>;
}
impl<T: Clone + Into<XMLNode>> OfferedNode for Via<T> {
    fn node(&self) -> Option<XMLNode> {
        Some(self.0.clone().into())
    }
}

trait OfferedElement {
    fn element(&self) -> Option<XMLElement>;
}
impl<T: Clone + Into<XMLElement>> OfferedElement for Via<T> {
    fn element(&self) -> Option<XMLElement> {
        Some(self.0.clone().into())
    }
}

trait Withheld {
    fn lenient(&self) -> Option<Result<Lenient, ()>> {
        None
    }
    fn node(&self) -> Option<XMLNode> {
        None
    }
    fn element(&self) -> Option<XMLElement> {
        None
    }
}
impl<T> Withheld for &Via<T> {}

fn lenient_of(n: NodeRef<'_, SN>) -> Option<Result<Lenient, ()>> {
    (&Via(n)).lenient()
}

fn xml_of(n: xmltree::XMLNode) -> Option<XMLNode> {
    (&Via(n)).node()
}

fn xml_element_of(e: xmltree::Element) -> Option<XMLElement> {
    (&Via(e)).element()
}

fn lenient_offered() -> bool {
    lenient_of(Tree::new(SN::Document).root()).is_some()
}

const VAST: [usize; 12] = [63, 64, 127, 128, 255, 256, 257, 4096, 32_768, 65_535, 65_536, 70_000];

fn qual(ns: &str, local: &str) -> QualName {
    QualName::new(None, Namespace::from(ns), LocalName::from(local))
}

const HTML_NS: &str = "http://www.w3.org/1999/xhtml";
const NS: [&str; 4] = [HTML_NS, "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML", ""];

/// A tendril of one of its three makes: inline, owned, part of another.
fn tendril(rng: &mut Rng, s: &str) -> scraper::StrTendril {
    if rng.pct(30) {
        let long: scraper::StrTendril = format!("{}{s}{}", "<".repeat(20), "&".repeat(20)).as_str().into();
        return long.subtendril(20, s.len() as u32);
    }
    s.into()
}

/// The node of a scraper tree that `h` stands for, and its children.
fn source<'a>(rng: &mut Rng, h: &'a H) -> (SN, Cow<'a, [H]>) {
    let el = |rng: &mut Rng, name: &str, attrs: &BTreeMap<String, String>| {
        let ns = if html::VOID.contains(&name) || rng.pct(70) { HTML_NS } else { *rng.pick(&NS) };
        let mut list: Vec<Attribute> = attrs
            .iter()
            .map(|(k, v)| Attribute { name: qual("", k), value: v.as_str().into() })
            .collect();
        rng.shuffle(&mut list);
        SN::Element(sn::Element::new(qual(ns, name), list))
    };
    match h {
        H::Comment(c) => (SN::Comment(sn::Comment { comment: tendril(rng, c) }), Cow::Borrowed(&[])),
        H::Doctype(d) => {
            let name = tendril(rng, d);
            let (p, s) = *rng.pick(&[("", ""), ("-//W3C//DTD HTML 4.01//EN", "http://www.w3.org/TR/html4/strict.dtd"), ("", "about:legacy-compat")]);
            (SN::Doctype(sn::Doctype { name, public_id: p.into(), system_id: s.into() }), Cow::Borrowed(&[]))
        }
        H::Text(t) => (SN::Text(sn::Text { text: tendril(rng, t) }), Cow::Borrowed(&[])),
        H::El { name, attrs, kids } => (el(rng, name, attrs), Cow::Borrowed(kids)),
        H::Void { name, attrs } => (el(rng, name, attrs), Cow::Borrowed(&[])),
        H::Raw { name, attrs, content } => (el(rng, name, attrs), Cow::Owned(vec![H::Text(content.clone())])),
    }
}

/// What the conversion of such a node is: scraper has no raw elements.
fn plain(h: &H) -> H {
    match h {
        H::Raw { name, attrs, content } => H::El { name: name.clone(), attrs: attrs.clone(), kids: vec![H::Text(content.clone())] },
        H::El { name, attrs, kids } => H::El { name: name.clone(), attrs: attrs.clone(), kids: kids.iter().map(plain).collect() },
        H::Void { name, attrs } if !html::VOID.contains(&name.as_str()) => {
            H::El { name: name.clone(), attrs: attrs.clone(), kids: vec![] }
        }
        h => h.clone(),
    }
}

/// Nodes no HTML tree has; they and what is below them are left out.
fn noise(rng: &mut Rng) -> SN {
    match rng.below(4) {
        0 => SN::Fragment,
        1 => SN::Document,
        _ => SN::ProcessingInstruction(sn::ProcessingInstruction { target: "xml-stylesheet".into(), data: "x='<y>'".into() }),
    }
}

fn grow(rng: &mut Rng, tree: &mut Tree<SN>, at: NodeId, kids: &[H], dirt: bool) {
    let mut ids = vec![None; kids.len()];
    let mut order: Vec<usize> = (0..kids.len()).collect();
    // the order of making is not that of the document
    if kids.len() < 200 {
        rng.shuffle(&mut order);
    }
    for i in order {
        let (n, below) = source(rng, &kids[i]);
        let id = tree.orphan(n).id();
        grow(rng, tree, id, &below, dirt);
        ids[i] = Some(id);
    }
    let dirty = dirt && rng.pct(30);
    let backwards = rng.pct(30);
    if backwards {
        ids.reverse();
    }
    for id in ids.into_iter().flatten() {
        let mut p = tree.get_mut(at).unwrap();
        if backwards {
            p.prepend_id(id);
        } else {
            p.append_id(id);
        }
        if dirty && !kids.is_empty() && rng.pct(30) {
            let mut n = if backwards { p.prepend(noise(rng)) } else { p.append(noise(rng)) };
            if rng.pct(60) {
                n.append(SN::Text(sn::Text { text: "not in the tree".into() }));
                n.append(SN::Element(sn::Element::new(qual(HTML_NS, "p"), vec![])));
            }
        }
    }
}

/// Every node of the tree, each converted alone, against what is read off the tree itself.
fn judge_nodes(cx: &mut Cx, tree: &Tree<SN>) -> Res {
    for n in tree.nodes() {
        let Some(got) = lenient_of(n) else { return Ok(()) };
        match (expected(n), got) {
            (Exp::Gone, Err(())) => cx.count("nodes refused", 1),
            (Exp::Gone, Ok(g)) => return Err(format!("a {:?} node became {}", n.value(), clip(&format!("{:?}", html::model(&g))))),
            (Exp::Node(h, _), Err(())) => return Err(format!("refused: {}", clip(&format!("{h:?}")))),
            (Exp::Node(_, false), Ok(_)) => {}
            (Exp::Node(h, true), Ok(g)) => {
                cx.count("nodes converted alone", 1);
                let (w, g) = (canon(vec![h]), canon(vec![html::model(&g)]));
                ensure!(w == g, "wrong conversion {}", html::diff(&w, &g));
            }
        }
    }
    Ok(())
}

fn below(n: NodeRef<'_, SN>) -> Vec<Lenient> {
    n.children().filter_map(|c| lenient_of(c)?.ok()).collect()
}

fn convert(cx: &mut Cx, t: &[H], dirt: bool) -> Res {
    let root = match cx.rng.below(5) {
        0 => SN::Fragment,
        1 => SN::Element(sn::Element::new(qual(HTML_NS, "main"), vec![])),
        2 => SN::ProcessingInstruction(sn::ProcessingInstruction { target: "a".into(), data: "b".into() }),
        _ => SN::Document,
    };
    let mut tree = Tree::new(root);
    let r = tree.root().id();
    grow(&mut cx.rng, &mut tree, r, t, dirt);
    let before = tree.clone();
    let want = canon(t.iter().map(plain).collect());
    let got = below(tree.root());
    let m = canon(html::models(&got));
    ensure!(m == want, "wrong conversion {}", html::diff(&want, &m));
    if html::size(t) < 400 {
        judge_nodes(cx, &tree)?;
    }
    ensure!(before == tree, "the conversion changed its source");
    let again = below(tree.root());
    ensure!(got == again, "converting twice gives different trees");
    drop(before);
    drop(tree);
    drop(again);
    let m = canon(html::models(&got));
    ensure!(m == want, "the tree changed when its source was dropped {}", html::diff(&want, &m));
    cx.count("trees converted", 1);
    cx.eval(format!("{t:?}").as_bytes(), html::size(t) > 2);
    Ok(())
}

fn c25_built(cx: &mut Cx) -> Res {
    if !lenient_offered() {
        cx.count("scraper conversion not offered", 1);
        return Ok(());
    }
    let cfg = html::Cfg::any(&mut cx.rng);
    let mut t = html::forest(&mut cx.rng, &cfg);
    // nothing a parser gives: empty and adjacent texts, doctypes inside, odd names
    for _ in 0..cx.rng.below(8) {
        equal::change_h(&mut cx.rng, &mut t);
    }
    at(&format!("{t:?}"));
    cx.sample(|| clip(&format!("{t:?}")));
    convert(cx, &t, cx.idx % 2 == 1)
}

fn c25_vast(cx: &mut Cx) -> Res {
    if !lenient_offered() {
        return Ok(());
    }
    let n = VAST[cx.idx as usize % VAST.len()];
    let t = |s: &str| H::Text(s.into());
    let el = |kids: Vec<H>| H::El { name: "p".into(), attrs: Default::default(), kids };
    let h = match cx.idx as usize / VAST.len() % 5 {
        0 => el((0..n).map(|i| t(&format!("t{i}"))).collect()),
        1 => el((0..n).map(|i| el(if i % 2 == 0 { vec![] } else { vec![t("")] })).collect()),
        2 => H::El { name: "a".into(), attrs: (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect(), kids: vec![t("x")] },
        3 => el(vec![t(&"é".repeat(n)), H::Comment("-".repeat(n)), H::Doctype("d".repeat(n)), H::El {
            name: "n".repeat(n),
            attrs: [("k".repeat(n), "&".repeat(n))].into(),
            kids: vec![t("")],
        }]),
        _ => {
            let mut h = t("deepest");
            for _ in 0..n.min(256) {
                h = el(vec![h, H::Void { name: "br".into(), attrs: Default::default() }]);
            }
            h
        }
    };
    at(&format!("vast {n}"));
    cx.count("sizes around powers of two", 1);
    convert(cx, &[h], false)
}

/// Parsed pages and fragments, and such trees after some editing.
fn c25_edited(cx: &mut Cx) -> Res {
    if !lenient_offered() {
        return Ok(());
    }
    let doc = if cx.rng.pct(50) {
        let p = page::page(&mut cx.rng, 40, false);
        html::spell(&mut cx.rng, &p, 10, true).0
    } else {
        let cfg = html::Cfg { nodes: 40, ..html::Cfg::any(&mut cx.rng) };
        let f = html::forest(&mut cx.rng, &cfg);
        let s = html::spell(&mut cx.rng, &f, 10, true).0;
        html::mutate(&mut cx.rng, &s)
    };
    at(&doc);
    let mut d = if cx.idx % 2 == 0 {
        cx.count("fragments", 1);
        scraper::Html::parse_fragment(&doc)
    } else {
        scraper::Html::parse_document(&doc)
    };
    for step in 0..4 {
        judge_nodes(cx, &d.tree)?;
        // the top of the soup a user would make of it
        let top = below(d.tree.root());
        let mut want = vec![];
        let mut clear = true;
        for c in d.tree.root().children() {
            if let Exp::Node(h, ok) = expected(c) {
                clear &= ok;
                want.push(h);
            }
        }
        if clear {
            let (want, got) = (canon(want), canon(html::models(&top)));
            ensure!(want == got, "wrong conversion {}", html::diff(&want, &got));
        }
        cx.eval(format!("{doc}{step}{}", top.len()).as_bytes(), top.len() > 1 || doc.contains('<'));
        // then change something
        let all: Vec<NodeId> = d.tree.nodes().map(|n| n.id()).collect();
        for _ in 0..cx.rng.range(1, 6) {
            let (a, b) = (*cx.rng.pick(&all), *cx.rng.pick(&all));
            let root = d.tree.root().id();
            // html5ever can leave a node that names a parent which does not list it
            let lost = |x: NodeId, t: &Tree<SN>| t.get(x).unwrap().parent().is_some_and(|p| p.children().all(|c| c.id() != x));
            if lost(a, &d.tree) || lost(b, &d.tree) {
                cx.count("nodes their parent does not list", 1);
                continue;
            }
            let inside = |x: NodeId, y: NodeId, t: &Tree<SN>| t.get(y).unwrap().ancestors().any(|p| p.id() == x);
            match cx.rng.below(5) {
                0 if a != root => d.tree.get_mut(a).unwrap().detach(),
                1 if a != root && a != b && !inside(a, b, &d.tree) => {
                    d.tree.get_mut(b).unwrap().append_id(a);
                }
                2 if a != root && a != b && !inside(a, b, &d.tree) => {
                    d.tree.get_mut(b).unwrap().prepend_id(a);
                }
                3 => {
                    let mut n = d.tree.get_mut(a).unwrap();
                    n.append(SN::Text(sn::Text { text: "".into() }));
                    n.append(SN::Text(sn::Text { text: " new & unescaped < ".into() }));
                }
                _ => {
                    let n = noise(&mut cx.rng);
                    if matches!(d.tree.get(a).unwrap().value(), SN::Element(e) if !html::VOID.contains(&e.name())) {
                        d.tree.get_mut(a).unwrap().prepend(n);
                    }
                }
            }
            cx.count("edits of parsed trees", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ XML

fn word(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => " ".into(),
        2 => "\n\t".into(),
        3 => html::text(rng, 2000),
        4 => (*rng.pick(&["a", "xmlns", "xml:lang", "A", "é", "a b", "&amp;", "<", "]]>", "\0", "\u{feff}x"])).into(),
        _ => html::text(rng, 20),
    }
}

fn maybe(rng: &mut Rng) -> Option<String> {
    rng.pct(50).then(|| word(rng))
}

fn bindings(rng: &mut Rng) -> Option<BTreeMap<String, String>> {
    rng.pct(60).then(|| (0..rng.below(5)).map(|_| (word(rng), word(rng))).collect())
}

fn tree_x(rng: &mut Rng, depth: usize, left: &mut usize) -> X {
    *left = left.saturating_sub(1);
    match rng.below(10) {
        0 => X::Comment(word(rng)),
        1 => X::CData(word(rng)),
        2 | 3 => X::Text(word(rng)),
        4 => X::Pi(word(rng), maybe(rng)),
        _ => element_x(rng, depth, left),
    }
}

fn element_x(rng: &mut Rng, depth: usize, left: &mut usize) -> X {
    let n = if depth == 0 { 0 } else { rng.below(6) };
    X::El {
        prefix: maybe(rng),
        ns: maybe(rng),
        scope: bindings(rng),
        name: word(rng),
        attrs: (0..rng.below(6)).map(|_| (word(rng), word(rng))).collect(),
        kids: (0..n).map_while(|_| (*left > 0).then(|| tree_x(rng, depth - 1, left))).collect(),
    }
}

fn element_of(x: &X) -> xmltree::Element {
    let X::El { prefix, ns, scope, name, attrs, kids } = x else { unreachable!() };
    let mut e = xmltree::Element::new(name);
    e.prefix.clone_from(prefix);
    e.namespace.clone_from(ns);
    e.namespaces = scope.clone().map(xmltree::Namespace);
    e.attributes = attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    e.children = kids.iter().map(node_of).collect();
    e
}

fn node_of(x: &X) -> xmltree::XMLNode {
    use xmltree::XMLNode as N;
    match x {
        X::El { .. } => N::Element(element_of(x)),
        X::Comment(s) => N::Comment(s.clone()),
        X::CData(s) => N::CData(s.clone()),
        X::Text(s) => N::Text(s.clone()),
        X::Pi(a, b) => N::ProcessingInstruction(a.clone(), b.clone()),
    }
}

fn convert_x(cx: &mut Cx, x: &X) -> Res {
    if let Some(got) = xml_of(node_of(x)) {
        let got = xmlm::model(&got);
        ensure!(&got == x, "wrong conversion {}", xmlm::diff(std::slice::from_ref(x), &[got]));
        cx.count("XML nodes converted", 1);
    }
    if let X::El { .. } = x {
        if let Some(e) = xml_element_of(element_of(x)) {
            let got = xmlm::model(&XMLNode::Element(e));
            ensure!(&got == x, "wrong conversion of an element {}", xmlm::diff(std::slice::from_ref(x), &[got]));
            cx.count("XML elements converted", 1);
        }
    }
    cx.eval(format!("{x:?}").as_bytes(), !x.kids().is_empty());
    Ok(())
}

fn c25_xml(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let (depth, mut left) = (cx.rng.range(1, 7), cx.rng.range(1, 80));
        let x = if cx.rng.pct(70) { element_x(&mut cx.rng, depth, &mut left) } else { tree_x(&mut cx.rng, depth, &mut left) };
        at(&format!("{x:?}"));
        cx.sample(|| clip(&format!("{x:?}")));
        convert_x(cx, &x)?;
    }
    Ok(())
}

fn c25_xml_vast(cx: &mut Cx) -> Res {
    let n = VAST[cx.idx as usize % VAST.len()];
    let el = |kids: Vec<X>| X::El { prefix: None, ns: None, scope: None, name: "e".into(), attrs: Default::default(), kids };
    let many = |p: &str| (0..n).map(|i| (format!("{p}{i}"), format!("v{i}"))).collect::<BTreeMap<_, _>>();
    let s = |c: &str| c.repeat(n);
    let x = match cx.idx as usize / VAST.len() % 5 {
        0 => el((0..n).map(|i| X::Text(if i % 3 == 0 { String::new() } else { format!("t{i}") })).collect()),
        1 => el((0..n).map(|i| if i % 2 == 0 { el(vec![]) } else { X::CData(format!("{i}")) }).collect()),
        2 => X::El { prefix: Some(s("p")), ns: Some(s("u")), scope: Some(many("n")), name: s("e"), attrs: many("k"), kids: vec![] },
        3 => el(vec![X::Text(s("é")), X::Text(s(" ")), X::Comment(s("-")), X::CData(s("]")), X::Pi(s("t"), Some(s("d"))), X::Pi(s("t"), None)]),
        _ => {
            let mut x = X::Text("deepest".into());
            for i in 0..n.min(256) {
                x = el(vec![x, X::Text(format!("{i}"))]);
            }
            x
        }
    };
    at(&format!("vast {n}"));
    cx.count("sizes around powers of two", 1);
    convert_x(cx, &x)
}

// --------------------------------------------------------------- entry points

/// A user's parser that hands on to a built-in one.
struct Through<P>(std::marker::PhantomData<P>);
impl<P: Parser> Parser for Through<P> {
    type Input = P::Input;
    type Node = P::Node;
    type Error = P::Error;
    fn parse(i: P::Input) -> Result<Vec<P::Node>, P::Error> {
        P::parse(i)
    }
}

fn xml_by<R: Read>(cx: &mut Cx, what: &str, mk: &dyn Fn() -> R, want: &Result<Vec<X>, String>) -> Res {
    let ways: [(&str, Result<Vec<X>, String>); 3] = [
        ("XMLParser::parse", XMLParser::parse(mk()).map(|n| xmlm::models(&n)).map_err(|e| format!("{e:?}"))),
        (
            "Soup::xml",
            Soup::xml(mk()).map(|s| s.strict().all().map(|i| xmlm::model(&i)).collect()).map_err(|e| format!("{e:?}")),
        ),
        (
            "Soup::new",
            Soup::new::<Through<XMLParser<R>>>(mk())
                .map(|s| s.strict().all().map(|i| xmlm::model(&i)).collect())
                .map_err(|e| format!("{e:?}")),
        ),
    ];
    for (way, got) in ways {
        ensure!(&got == want, "{way} of {what} gives {}\nand not {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")));
        cx.count("ways to parse compared", 1);
    }
    Ok(())
}

fn c25_entries(cx: &mut Cx) -> Res {
    match cx.idx % 3 {
        0 => {
            let cfg = html::Cfg { nodes: 20, ..html::Cfg::any(&mut cx.rng) };
            let f = html::forest(&mut cx.rng, &cfg);
            let mut d = html::spell(&mut cx.rng, &f, 10, false).0;
            if cx.rng.pct(40) {
                d = html::mutate(&mut cx.rng, &d);
            }
            at(&d);
            let d = forever(&d);
            let want = StrictHTMLParser::parse(d);
            cx.count(if want.is_ok() { "strict documents" } else { "strict errors" }, 1);
            cx.eval(d.as_bytes(), d.contains('<'));
            let top = |s: Soup<HTMLNode<Cow<'static, str>>>| s.strict().all().map(|i| (*i).clone()).collect::<Vec<_>>();
            for (way, got) in [
                ("Soup::html_strict", Soup::html_strict(d).map(top)),
                ("Soup::new", Soup::new::<StrictHTMLParser>(d).map(top)),
                ("Soup::new of another parser", Soup::new::<Through<StrictHTMLParser>>(d).map(top)),
            ] {
                ensure!(got == want, "{way} gives {}\nand not {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")));
                if let (Err(nom::Err::Error(a) | nom::Err::Failure(a)), Err(nom::Err::Error(b) | nom::Err::Failure(b))) = (&got, &want) {
                    ensure!(a.input.as_ptr() == b.input.as_ptr(), "{way}: the error is at another place");
                }
                cx.count("ways to parse compared", 1);
            }
        }
        1 => {
            let p = page::page(&mut cx.rng, 20, false);
            let mut d = html::spell(&mut cx.rng, &p, 10, true).0;
            if cx.rng.pct(50) {
                d = html::mutate(&mut cx.rng, &d);
            }
            at(&d);
            let Ok(want) = LenientHTMLParser::<&str>::parse(&d);
            let snap = Snap::of(&want);
            cx.eval(d.as_bytes(), d.contains('<'));
            let same = |way: &str, s: &Soup<Lenient>| -> Res {
                query::base(s, &snap).map_err(|e| format!("{way}: {e}"))?;
                ensure!(s.strict().all().zip(&want).all(|(a, b)| *a == *b), "{way} gives another tree");
                Ok(())
            };
            same("Soup::html(&str)", &Soup::html(d.as_str()))?;
            same("Soup::html(String)", &Soup::html(d.clone()))?;
            same("Soup::html(&String)", &Soup::html(&d))?;
            same("Soup::html(Box<str>)", &Soup::html(d.clone().into_boxed_str()))?;
            same("Soup::html(Rc<str>)", &Soup::html(std::rc::Rc::<str>::from(d.as_str())))?;
            same("Soup::html(Arc<str>)", &Soup::html(std::sync::Arc::<str>::from(d.as_str())))?;
            same("Soup::html(Cow)", &Soup::html(Cow::Owned::<str>(d.clone())))?;
            same("Soup::html(StrTendril)", &Soup::html(&*scraper::StrTendril::from(d.as_str())))?;
            let Ok(s) = Soup::new::<LenientHTMLParser<String>>(d.clone());
            same("Soup::new", &s)?;
            let Ok(s) = Soup::new::<Through<LenientHTMLParser<&str>>>(&d);
            same("Soup::new of another parser", &s)?;
            cx.count("ways to parse compared", 10);
        }
        _ => {
            let cfg = xmlm::Cfg { nodes: 20, ..xmlm::Cfg::any(&mut cx.rng) };
            let mut b = xmlm::doc(&mut cx.rng, cfg).bytes;
            if cx.rng.pct(40) {
                xml::damage(cx, &mut b);
            }
            at(&String::from_utf8_lossy(&b));
            cx.eval(&b, b.len() > 10);
            let want = XMLParser::parse(&b[..]).map(|n| xmlm::models(&n)).map_err(|e| format!("{e:?}"));
            cx.count(if want.is_ok() { "XML documents" } else { "XML errors" }, 1);
            // what the tree's own parser gives, converted by hand
            let by_hand = xmltree::Element::parse_all(&b[..])
                .map(|v| v.into_iter().map(|n| Some(xmlm::model(&xml_of(n)?))).collect::<Option<Vec<X>>>())
                .map_err(|e| format!("{e:?}"));
            let same = match (&by_hand, &want) {
                // the tree keeps the conversion to itself
                (Ok(None), _) => true,
                (Ok(Some(a)), Ok(b)) => a == b,
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            ensure!(same, "XMLParser::parse gives {}\nand xmltree {}", clip(&format!("{want:?}")), clip(&format!("{by_hand:?}")));
            let half = b.len() / 2;
            xml_by(cx, "a slice", &|| &b[..], &want)?;
            xml_by(cx, "a cursor", &|| Cursor::new(b.clone()), &want)?;
            xml_by(cx, "a small buffer", &|| BufReader::with_capacity(1, &b[..]), &want)?;
            xml_by(cx, "a boxed reader", &|| Box::new(&b[..]) as Box<dyn Read>, &want)?;
            xml_by(cx, "a deque", &|| b.iter().copied().collect::<VecDeque<u8>>(), &want)?;
            xml_by(cx, "a chain", &|| b[..half].chain(std::io::empty()).chain(&b[half..]), &want)?;
            xml_by(cx, "a limited reader", &|| b.chain(&b"<junk"[..]).take(b.len() as u64), &want)?;
            // a borrowed reader stays with the caller
            let mut r = Cursor::new(&b);
            let got = Soup::xml(&mut r).map(|s| s.strict().all().map(|i| xmlm::model(&i)).collect::<Vec<X>>()).map_err(|e| format!("{e:?}"));
            ensure!(got == want, "Soup::xml of a borrowed reader gives another result");
        }
    }
    Ok(())
}

pub fn c25() -> Prop {
    let html = lenient_offered();
    let xml = xml_element_of(xmltree::Element::new("a")).is_some();
    Prop {
        id: "C25",
        families: vec![
            fam("vast", 60, 60, c25_vast),
            fam("xml-vast", 60, 60, c25_xml_vast),
            fam("built", 16_000, 400_000, c25_built),
            fam("edited", 6000, 150_000, c25_edited),
            fam("xml-built", 3000, 100_000, c25_xml),
            fam("entries", 9000, 200_000, c25_entries),
        ],
        need: [
            (html, "trees converted", 16_000),
            (html, "nodes converted alone", 500_000),
            (html, "nodes refused", 20_000),
            (html, "edits of parsed trees", 30_000),
            (html, "fragments", 2000),
            (xml, "XML elements converted", 20_000),
            (true, "ways to parse compared", 50_000),
            (true, "strict errors", 200),
            (true, "XML errors", 200),
            (html, "sizes around powers of two", 120),
        ]
        .into_iter()
        .filter_map(|(offered, what, n)| offered.then_some((what, n)))
        .collect(),
        rule: "trees built by hand, parsed, or parsed and edited, and documents given to every entry point; non-trivial: more than two nodes; distinct by tree or input",
        assumptions: vec![
            "attributes of one element that share a local name, and childless void names outside HTML, are not judged",
        ],
    }
}
