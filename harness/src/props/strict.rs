//! C01-C04: the strict HTML parser.
use std::collections::BTreeMap;

use soupy::{
    parser::{HTMLNode, Parser, StrictHTMLParser},
    Node, Queryable, Soup,
};

use super::at;
use crate::{
    case::{clip, fam, Cx, Prop, Res, Tier},
    ensure,
    html::{self, Cfg, H},
    query::{self, forever, Snap},
    refhtml::{self, Ref},
};

/// Both entry points; they must agree.
pub fn strict(doc: &str) -> Result<Result<Vec<H>, String>, String> {
    at(doc);
    let p = StrictHTMLParser::parse(doc);
    let s = Soup::html_strict(doc);
    match (p, s) {
        (Ok(n), Ok(s)) => {
            query::base(&s, &Snap::of(&n)).map_err(|e| format!("Soup::html_strict and its parser differ: {e}"))?;
            let m = html::models(&n);
            if doc.len() < 2000 {
                let top: Vec<H> = s.strict().all().map(|i| html::model(&*i)).collect();
                ensure!(top == m, "Soup::html_strict and its parser differ {}", html::diff(&m, &top));
            }
            Ok(Ok(m))
        }
        (Err(e), Err(_)) => Ok(Err(clip(&format!("{e:?}")))),
        (p, s) => Err(format!(
            "StrictHTMLParser::parse gave {}, Soup::html_strict {}",
            if p.is_ok() { "a tree" } else { "an error" },
            if s.is_ok() { "a tree" } else { "an error" }
        )),
    }
}

pub fn expect_tree(doc: &str, want: &[H]) -> Res {
    match strict(doc).map_err(|e| format!("{e}\ninput: {}", clip(doc)))? {
        Err(e) => Err(format!("well-formed document rejected: {e}\ninput: {}", clip(doc))),
        Ok(got) if got == want => Ok(()),
        Ok(got) => Err(format!("wrong tree {}\ninput: {}", html::diff(want, &got), clip(doc))),
    }
}

fn expect_error(doc: &str, why: &str, pos: usize) -> Res {
    match strict(doc).map_err(|e| format!("{e}\ninput: {}", clip(doc)))? {
        Err(_) => Ok(()),
        Ok(t) => Err(format!(
            "malformed document accepted ({why} at byte {pos}) as {}\ninput: {}",
            clip(&format!("{t:?}")),
            clip(doc)
        )),
    }
}

fn count_tree(cx: &mut Cx, t: &[H]) {
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    html::walk(t, &mut |h, d| {
        let k = match h {
            H::Comment(_) => "comments",
            H::Doctype(_) => "doctypes",
            H::El { .. } => "elements",
            H::Raw { .. } => "script/style elements",
            H::Void { .. } => "void elements",
            H::Text(_) => "texts",
        };
        *n.entry(k).or_insert(0) += 1;
        *n.entry("attributes").or_insert(0) += h.attrs().map_or(0, |a| a.len() as u64);
        if d >= 8 {
            *n.entry("nodes at depth 8 or more").or_insert(0) += 1;
        }
    });
    for (k, v) in n {
        cx.count(k, v);
    }
}

fn count_spelling(cx: &mut Cx, s: &html::Spelled) {
    cx.count("double-quoted values", s.dq);
    cx.count("single-quoted values", s.sq);
    cx.count("unquoted values", s.unq);
    cx.count("bare attributes", s.bare);
    cx.count("character references", s.refs);
    cx.count("self-closing spellings", s.selfclose);
    cx.count("closing tags in other case", s.casemix);
    cx.count("tabs or newlines inside tags", s.breaks);
}

// ---------------------------------------------------------------------- C01

fn c01_random(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let cfg = Cfg::any(&mut cx.rng);
        let t = html::forest(&mut cx.rng, &cfg);
        // the oracle is the tree the text was made from; spell it twice
        for _ in 0..2 {
            let pct = if cx.rng.pct(30) { 10 } else { 0 };
            let (doc, sp) = html::spell(&mut cx.rng, &t, pct, false);
            cx.eval(doc.as_bytes(), html::size(&t) >= 3);
            expect_tree(&doc, &t)?;
            count_spelling(cx, &sp);
            cx.sample(|| doc.clone());
        }
        count_tree(cx, &t);
    }
    Ok(())
}

pub fn el(name: &str, attrs: &[(&str, &str)], kids: Vec<H>) -> H {
    H::El { name: name.into(), attrs: amap(attrs), kids }
}
fn amap(a: &[(&str, &str)]) -> BTreeMap<String, String> {
    a.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn c01_shapes(cx: &mut Cx) -> Res {
    let k = match cx.tier {
        Tier::Quick => 1,
        Tier::Thorough => 1 + cx.rng.below(8),
    };
    let mut names = vec![];
    for _ in 0..8 {
        let n = html::tag_name(&mut cx.rng);
        names.push(if n.eq_ignore_ascii_case("title") { "ti".to_string() } else { n });
    }
    let name = |i: usize| names[i % names.len()].as_str();
    let t: Vec<H> = match cx.idx % 10 {
        0 => {
            // deep, a leaf on every level
            let mut n = vec![];
            for i in 0..400 * k {
                let mut kids = vec![H::Void { name: "br".into(), attrs: amap(&[("d", &i.to_string())]) }];
                kids.append(&mut n);
                kids.push(H::Text(format!("t{i}")));
                n = vec![el(name(i), &[("level", &i.to_string())], kids)];
            }
            n
        }
        1 => (0..3000 * k).map(|i| el(name(i), &[("i", &i.to_string())], vec![H::Text(i.to_string())])).collect(),
        2 => (0..3000 * k).map(|i| H::Void { name: html::VOID[i % 13].into(), attrs: amap(&[("i", &i.to_string())]) }).collect(),
        3 => {
            let a: BTreeMap<String, String> = (0..1500 * k).map(|i| (format!("a{i}"), format!("v{i}"))).collect();
            vec![H::El { name: "x".into(), attrs: a, kids: vec![] }]
        }
        4 => vec![el("p", &[("long", &"v&\"'<>".repeat(20000 * k))], vec![H::Text("txt &<".repeat(20000 * k))])],
        5 => (0..1000 * k)
            .map(|i| H::Raw { name: html::RAW[i % 2].into(), attrs: amap(&[]), content: format!("if (a < {i}) {{}}") })
            .collect(),
        6 => (0..1000 * k).map(|i| H::Comment(format!(" <p>{i}</p> "))).collect(),
        7 => {
            // alternating text and elements, nested twice
            let inner: Vec<H> = (0..200)
                .map(|i| if i % 2 == 0 { H::Text(format!("a{i}")) } else { el("b", &[], vec![H::Text(format!("b{i}"))]) })
                .collect();
            (0..20 * k).map(|i| el(name(i), &[], inner.clone())).collect()
        }
        8 => {
            // the same name inside itself
            let mut n = vec![H::Text("core".into())];
            for i in 0..300 * k {
                n = vec![H::Text(format!("l{i}")), el(name(0), &[], n), el(name(0), &[], vec![]), H::Text(format!("r{i}"))];
            }
            n
        }
        _ => {
            let long = "n".repeat(20000 * k);
            vec![el(&long, &[(&long, &long)], vec![H::Text(long.clone()), H::Comment(long.clone())])]
        }
    };
    let (doc, sp) = html::spell(&mut cx.rng, &t, 0, false);
    cx.eval(doc.as_bytes(), true);
    cx.count("large documents", 1);
    count_spelling(cx, &sp);
    expect_tree(&doc, &t)
}

/// One dimension of a document grown to every size of interest.
/// Documents of mebibytes, up to just beyond a power of two.
fn c01_huge(cx: &mut Cx) -> Res {
    let max: usize = [1 << 20, 1 << 22, 1 << 24][cx.idx as usize % 3];
    let unit = *cx.rng.pick(&["lorem <ipsum>\n", "é\n&", "x\n", "🦀 \r\n"]);
    let long = || unit.repeat(max / unit.len() + 9);
    let tail = |mut v: Vec<H>| {
        v.push(H::Void { name: "hr".into(), attrs: amap(&[("id", "last")]) });
        v.push(H::Text("end".into()));
        v
    };
    let t = tail(match cx.idx as usize / 3 % 5 {
        0 => vec![H::Text(long())],
        1 => vec![el("p", &[("k", &long())], vec![H::Text("x".into())])],
        2 => vec![H::Comment(long()), H::Raw { name: "style".into(), attrs: amap(&[]), content: format!("{}<p>x", long().trim()) }],
        3 => (0..max.min(1 << 21) / 16).map(|i| el("p", &[], vec![H::Text(i.to_string())])).collect(),
        _ => (0..max.min(1 << 21) / 16)
            .map(|i| if i % 2 == 0 { H::Text(format!("\n{i}\n")) } else { el("p", &[], vec![H::Text("\n".into()), el("b", &[], vec![])]) })
            .collect(),
    });
    let (doc, sp) = html::spell(&mut cx.rng, &t, 0, false);
    cx.eval(doc.as_bytes(), true);
    cx.count("documents of mebibytes", 1);
    count_spelling(cx, &sp);
    expect_tree(&doc, &t)
}

fn c01_vast(cx: &mut Cx) -> Res {
    let n = super::queries::VAST[cx.idx as usize % super::queries::VAST.len()];
    let dim = cx.idx as usize / super::queries::VAST.len() % 14;
    let unit = *cx.rng.pick(&["a", "ab", "é", "🦀", "x y"]);
    let long: String = unit.chars().cycle().take(n).collect();
    let word: String = if unit == "x y" { "xy".chars() } else { unit.chars() }.cycle().take(n).collect();
    let id = |i: usize| amap(&[("i", &i.to_string())]);
    let t: Vec<H> = match dim {
        0 => (0..n).map(|i| el("i", &[("k", &i.to_string())], vec![])).collect(),
        1 => vec![el("p", &[], (0..n).map(|i| H::Void { name: "br".into(), attrs: id(i) }).collect())],
        2 => vec![H::El { name: "p".into(), attrs: (0..n).map(|i| (format!("a{i}"), i.to_string())).collect(), kids: vec![] }],
        3 => vec![el("p", &[], vec![H::Text(long.clone()), el("b", &[], vec![]), H::Text(long.clone())])],
        4 => vec![el("p", &[("k", &long), ("l", "m")], vec![]), H::Void { name: "img".into(), attrs: amap(&[("k", &word)]) }],
        5 => vec![H::Comment(long.clone()), H::Text("x".into())],
        6 => vec![H::Raw { name: "script".into(), attrs: amap(&[("k", "v")]), content: format!("{long}<p>x") }, H::Text("x".into())],
        7 => vec![H::Doctype(long.clone()), H::Text("x".into())],
        8 => vec![el(&format!("t{word}"), &[("k", "v")], vec![H::Text("x".into())])],
        9 => vec![el("p", &[(&word, "v"), ("l", "m")], vec![H::Text("x".into())])],
        // many references
        10 => vec![el("p", &[("k", &"<&".repeat(n / 2))], vec![H::Text("<>".repeat(n / 2))])],
        // many of everything
        11 => (0..n)
            .map(|i| match i % 6 {
                0 => H::Text(i.to_string()),
                1 => H::Comment(i.to_string()),
                2 => H::Raw { name: "style".into(), attrs: amap(&[]), content: i.to_string() },
                3 => H::Void { name: "hr".into(), attrs: id(i) },
                4 => el("p", &[], vec![H::Text(i.to_string())]),
                _ => H::Doctype(i.to_string()),
            })
            .collect(),
        12 => vec![H::El { name: "p".into(), attrs: (0..n).map(|i| (format!("a{i}"), String::new())).collect(), kids: vec![H::Text("x".into())] }],
        // nesting, with something behind each closing tag
        _ => {
            let mut v = vec![H::Text("core".into())];
            for i in 0..n.min(2000) {
                v = vec![el("p", &[], v), H::Text(i.to_string())];
            }
            v
        }
    };
    let (doc, sp) = html::spell(&mut cx.rng, &t, 0, false);
    cx.eval(doc.as_bytes(), true);
    cx.count("documents of a critical size", 1);
    count_spelling(cx, &sp);
    expect_tree(&doc, &t)
}

const SUFFIX: [&str; 24] = [
    "", "s", "x", "1", "0", "-", "-a", "_", "_b", ":", ":c", ".", ".d", "group", "ed", "é", "\u{212a}", "\u{130}", "A",
    "Z9", "n", "t", "\u{4e2d}", "r",
];

fn c01_names(cx: &mut Cx) -> Res {
    // every void/raw name (and its prefixes) with every suffix, in three spellings
    let bases: Vec<&str> = html::VOID.iter().chain(&html::RAW).copied().collect();
    let base = bases[cx.idx as usize % bases.len()];
    for cut in 1..=base.len() {
        for suf in SUFFIX {
            for case in 0..4 {
                let b = &base[..cut];
                let n = match case {
                    0 => b.to_string(),
                    1 => b.to_uppercase(),
                    2 => b.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                    _ => b.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
                };
                let n = format!("{n}{suf}");
                let node = |attrs: BTreeMap<String, String>, kids: Vec<H>| {
                    if html::is_void(&n) {
                        H::Void { name: n.clone(), attrs }
                    } else if html::is_raw(&n) {
                        H::Raw { name: n.clone(), attrs, content: String::new() }
                    } else {
                        H::El { name: n.clone(), attrs, kids }
                    }
                };
                let none = BTreeMap::new();
                let one = amap(&[("k", "v")]);
                let pre = H::Text("a".into());
                let post = el("i", &[], vec![]);
                let mut docs: Vec<(String, H)> = vec![
                    (format!("<{n}/>"), node(none.clone(), vec![])),
                    (format!("<{n} />"), node(none.clone(), vec![])),
                    (format!("<{n}\n/>"), node(none.clone(), vec![])),
                    (format!("<{n} k=v />"), node(one.clone(), vec![])),
                    (format!("<{n}\tk='v'/>"), node(one.clone(), vec![])),
                ];
                if html::is_void(&n) {
                    docs.push((format!("<{n}>"), node(none.clone(), vec![])));
                    docs.push((format!("<{n} k=\"v\">"), node(one.clone(), vec![])));
                    docs.push((format!("<{n}\n>"), node(none.clone(), vec![])));
                } else {
                    let close = if case % 2 == 0 { n.to_ascii_uppercase() } else { n.to_ascii_lowercase() };
                    docs.push((format!("<{n}></{close}>"), node(none.clone(), vec![])));
                    docs.push((format!("<{n} k=v></{n} >"), node(one.clone(), vec![])));
                    docs.push((format!("<{n}\nk></{n}\n>"), node(amap(&[("k", "")]), vec![])));
                    if !html::is_raw(&n) {
                        let kids = vec![H::Void { name: "br".into(), attrs: none.clone() }, el("b", &[], vec![H::Text("t".into())])];
                        docs.push((format!("<{n}><br><b>t</b></{close}>"), node(none.clone(), kids)));
                    }
                }
                for (d, h) in docs {
                    let d = format!("a{d}<i></i>");
                    cx.eval(d.as_bytes(), true);
                    expect_tree(&d, &[pre.clone(), h, post.clone()])?;
                }
            }
        }
    }
    cx.count("void/script/style name boundaries", (base.len() * SUFFIX.len() * 4) as u64);
    Ok(())
}

/// Every element with every attribute, alone and with others.
fn c01_attributes(cx: &mut Cx) -> Res {
    let e = html::NAMES[cx.idx as usize % html::NAMES.len()];
    for n in html::ALL_ATTRS {
        let v = *cx.rng.pick(&["v", "", "true", "false", "0", "-1", "a b", "A", "#", "javascript:x", n]);
        let written = match cx.rng.below(3) {
            0 if v.is_empty() => n.to_string(),
            1 => format!("{n} = '{v}'"),
            _ => format!("{n}=\"{v}\""),
        };
        let other = *cx.rng.pick(html::ALL_ATTRS);
        let (attrs, written) = if other == *n || cx.rng.pct(50) {
            (amap(&[(n, v)]), written)
        } else if cx.rng.pct(50) {
            (amap(&[(n, v), (other, "o")]), format!("{other}=o {written}"))
        } else {
            (amap(&[(n, v), (other, "o")]), format!("{written} {other}='o'"))
        };
        // an ampersand in a name is a character like any other, in a value it may begin a reference
        let attrs: BTreeMap<String, String> = attrs.into_iter().map(|(k, v)| (k, refhtml::decode(&v).unwrap_or(v))).collect();
        let el = |attrs| H::El { name: e.into(), attrs, kids: vec![] };
        let docs = [
            (format!("<{e} {written}></{e}>"), el(attrs.clone())),
            (format!("<{e} {written} />"), el(attrs.clone())),
            (format!("<img {written}>"), H::Void { name: "img".into(), attrs: attrs.clone() }),
            (format!("<style {written}></style>"), H::Raw { name: "style".into(), attrs, content: String::new() }),
        ];
        for (k, (d, h)) in docs.into_iter().enumerate() {
            if k > 1 && cx.idx % 16 != 0 {
                continue;
            }
            cx.eval(d.as_bytes(), true);
            expect_tree(&d, &[h])?;
            cx.count("elements with a known attribute", 1);
        }
    }
    Ok(())
}

fn c01_attrs(cx: &mut Cx) -> Res {
    // every combination of quoting and whitespace, on every kind of element
    const GAP: [&str; 6] = ["", " ", "\n", "\t", "\r\n", "  \t\n"];
    const VAL: [&str; 14] =
        ["v", "", "tnfr\\", "a/b", "x/", "it's", "say \"hi\"", "a=b", "1<2>3", "é 中", "\n", "true", "/", "https://e.x/?a=1&amp;b#c"];
    const NAME: [&str; 10] = ["k", "data-x", "xml:lang", "@click", "t", "n", "é", "K1_", ":a.b", "a-"];
    let kind = cx.idx as usize % 3;
    let name = NAME[(cx.idx as usize / 3) % NAME.len()];
    for (vi, val) in VAL.iter().enumerate() {
        for before in &GAP[1..] {
            for g1 in GAP {
                for g2 in GAP {
                    for (ei, end) in GAP.iter().enumerate() {
                        for q in 0..3 {
                            let plain = !val.is_empty()
                                && !val.contains(|c: char| c.is_ascii_whitespace() || "\"'=<>`".contains(c));
                            let w = match q {
                                0 if val.contains('"') => continue,
                                0 => format!("\"{val}\""),
                                1 if val.contains('\'') => continue,
                                1 => format!("'{val}'"),
                                _ if !plain => continue,
                                _ => val.to_string(),
                            };
                            // a second attribute behind it, of another style
                            let second = match (vi + q + ei) % 4 {
                                0 => "",
                                1 => " z",
                                2 => "\nz=1",
                                _ => "\tz = ''",
                            };
                            let slash = (vi + ei + q) % 2 == 0;
                            if slash && q == 2 && second.is_empty() && end.is_empty() {
                                continue;
                            }
                            let slash2 = slash && !(second == "\nz=1" && end.is_empty());
                            let close = if slash2 { "/>" } else { ">" };
                            let mut attrs = amap(&[(name, &val.replace("&amp;", "&"))]);
                            match (vi + q + ei) % 4 {
                                0 => {}
                                2 => drop(attrs.insert("z".into(), "1".into())),
                                _ => drop(attrs.insert("z".into(), String::new())),
                            }
                            let tag = format!("{before}{name}{g1}={g2}{w}{second}{end}{close}");
                            let (doc, h) = match kind {
                                0 => (format!("<img{tag}"), H::Void { name: "img".into(), attrs }),
                                1 => (
                                    format!("<div{tag}{}", if slash2 { "" } else { "</div>" }),
                                    H::El { name: "div".into(), attrs, kids: vec![] },
                                ),
                                _ => (
                                    format!("<script{tag}{}", if slash2 { "" } else { "</script>" }),
                                    H::Raw { name: "script".into(), attrs, content: String::new() },
                                ),
                            };
                            cx.eval(doc.as_bytes(), true);
                            expect_tree(&doc, &[h])?;
                        }
                    }
                }
            }
        }
    }
    cx.count("attribute spelling grids", 1);
    Ok(())
}

fn scalar(i: u64) -> Option<char> {
    u32::try_from(i).ok().and_then(char::from_u32)
}

fn c01_chars(cx: &mut Cx) -> Res {
    // each scalar value once, in text, values, names, comments and scripts; one
    // document holds a block of 256 (quick: one document in 16 above the BMP's start)
    let block = match cx.tier {
        Tier::Quick => {
            if cx.idx < 256 {
                cx.idx
            } else {
                cx.rng.below(0x1100) as u64
            }
        }
        Tier::Thorough => cx.idx,
    };
    let mut t = vec![];
    let mut doc = String::new();
    for i in block * 256..block * 256 + 256 {
        let Some(c) = scalar(i) else { continue };
        if c == '\0' || c == '\x0c' {
            continue;
        }
        let text_ok = !"<&".contains(c);
        if text_ok {
            doc.push_str(&format!("<i>{c}</i><i>a{c}b</i>"));
            t.push(el("i", &[], vec![H::Text(c.to_string())]));
            t.push(el("i", &[], vec![H::Text(format!("a{c}b"))]));
            cx.count("characters in text", 2);
        }
        if !"\"&".contains(c) {
            doc.push_str(&format!("<b v=\"{c}\"/>"));
            t.push(el("b", &[("v", &c.to_string())], vec![]));
        }
        if !"'&".contains(c) {
            doc.push_str(&format!("<b v='x{c}'/>"));
            t.push(el("b", &[("v", &format!("x{c}"))], vec![]));
        }
        if !c.is_whitespace() && !c.is_control() && !"\"'=<>`&/".contains(c) {
            doc.push_str(&format!("<b v={c}></b><br v=p{c}q>"));
            t.push(el("b", &[("v", &c.to_string())], vec![]));
            t.push(H::Void { name: "br".into(), attrs: amap(&[("v", &format!("p{c}q"))]) });
            cx.count("characters in unquoted values", 2);
        }
        if !c.is_control() && !c.is_whitespace() && !"\"'>/=<".contains(c) {
            doc.push_str(&format!("<b {c}=1></b><b a{c} z></b>"));
            t.push(el("b", &[(&c.to_string(), "1")], vec![]));
            t.push(el("b", &[(&format!("a{c}"), ""), ("z", "")], vec![]));
            cx.count("characters in attribute names", 2);
        }
        if (c.is_ascii_alphanumeric() || "-_.:".contains(c)) || (c >= '\u{a0}' && c.is_alphanumeric()) {
            doc.push_str(&format!("<x{c}></x{c}><x{c}y k></x{c}y>"));
            t.push(el(&format!("x{c}"), &[], vec![]));
            t.push(el(&format!("x{c}y"), &[("k", "")], vec![]));
            cx.count("characters in tag names", 2);
        }
        doc.push_str(&format!("<!--c{c}.-->"));
        t.push(H::Comment(format!("c{c}.")));
        doc.push_str(&format!("<script>a{c}b</script>"));
        t.push(H::Raw { name: "script".into(), attrs: amap(&[]), content: format!("a{c}b") });
    }
    cx.eval(doc.as_bytes(), true);
    expect_tree(&doc, &t)
}

/// Every character at the ends of everything that has ends, those of the document included.
fn c01_ends(cx: &mut Cx) -> Res {
    let block = if cx.idx < 512 { cx.idx } else { cx.rng.below(0x2200) as u64 };
    for i in block * 128..block * 128 + 128 {
        let Some(c) = scalar(i) else { continue };
        if c == '\0' || c == '\x0c' || "<&".contains(c) {
            continue;
        }
        let s = format!("{c}x{c}");
        let text = |s: &str| H::Text(s.to_string());
        let mut docs = vec![
            (format!("<p/>{c}"), vec![el("p", &[], vec![]), text(&c.to_string())]),
            (format!("<p>{s}</p>{s}"), vec![el("p", &[], vec![text(&s)]), text(&s)]),
            (format!("<p>{c}{c}</p>y{c}{c}"), vec![el("p", &[], vec![text(&format!("{c}{c}"))]), text(&format!("y{c}{c}"))]),
        ];
        if c != '\u{feff}' {
            docs.push((s.clone(), vec![text(&s)]));
            docs.push((format!("{c}<p/>"), vec![text(&c.to_string()), el("p", &[], vec![])]));
        }
        if !"-> \t\r\n".contains(c) {
            docs.push((format!("<!--{s}--><!--{c}-->"), vec![H::Comment(s.clone()), H::Comment(c.to_string())]));
            docs.push((format!("<!doctype {s}><p/>"), vec![H::Doctype(s.clone()), el("p", &[], vec![])]));
        }
        for q in ['"', '\''] {
            if q != c {
                docs.push((
                    format!("<p k={q}{s}{q} l={q}{c}{q}></p>"),
                    vec![el("p", &[("k", &s), ("l", &c.to_string())], vec![])],
                ));
            }
        }
        for (d, t) in docs {
            cx.eval(d.as_bytes(), true);
            expect_tree(&d, &t)?;
        }
        cx.count("characters at the ends of contents", 1);
    }
    Ok(())
}

fn judge_wf(cx: &mut Cx, doc: &str) -> Res {
    match refhtml::parse(doc) {
        Ref::Wf(t) => {
            cx.eval(doc.as_bytes(), t.len() > 1 || doc.contains('<'));
            cx.count("reference: well-formed", 1);
            expect_tree(doc, &t)
        }
        Ref::Malformed(..) => Ok(()),
        Ref::Unspec(_) => Ok(()),
    }
}
fn judge_bad(cx: &mut Cx, doc: &str) -> Res {
    match refhtml::parse(doc) {
        Ref::Malformed(w, p) => {
            cx.eval(doc.as_bytes(), true);
            cx.count("reference: malformed", 1);
            cx.count(
                match w {
                    "comment without end" => "malformed: comment without end",
                    "doctype without end" => "malformed: doctype without end",
                    "closing tag matches no open element" => "malformed: closing tag matches nothing",
                    "element left open" => "malformed: element left open",
                    "script or style without end" => "malformed: script or style without end",
                    "cut off in a quoted value" => "malformed: cut off in a quoted value",
                    "= without a value" => "malformed: = without a value",
                    "= without a name" => "malformed: = without a name",
                    "< starts no tag" => "malformed: < starts no tag",
                    "<! starts no comment or doctype" => "malformed: <! starts no comment or doctype",
                    "</ without a name" => "malformed: </ without a name",
                    "closing tag with more than a name" => "malformed: closing tag with more than a name",
                    "solidus in a tag" => "malformed: solidus in a tag",
                    "quote for a name" | "quote in a name" => "malformed: quote for or in a name",
                    _ => "malformed: cut off in a tag",
                },
                1,
            );
            expect_error(doc, w, p)
        }
        _ => Ok(()),
    }
}

pub fn mutated(cx: &mut Cx, judge: fn(&mut Cx, &str) -> Res) -> Res {
    for _ in 0..6 {
        let mut cfg = Cfg::any(&mut cx.rng);
        cfg.nodes = cfg.nodes.min(30);
        cfg.text = cfg.text.min(80);
        let t = html::forest(&mut cx.rng, &cfg);
        let (doc, _) = html::spell(&mut cx.rng, &t, 0, false);
        for _ in 0..8 {
            let m = html::mutate(&mut cx.rng, &doc);
            judge(cx, &m)?;
            cx.sample(|| m.clone());
        }
    }
    Ok(())
}
fn c01_mutated(cx: &mut Cx) -> Res {
    mutated(cx, judge_wf)
}

const TOK: [&str; 30] = [
    "<a>", "</a>", "<b>", "</b>", "<br>", "</br>", "<br/>", "<a/>", "x", "<", ">", "<!--", "-->", "<script>", "</script>",
    "<!doctype x>", "</A >", "<a k", "=", " ", "\"", "'", "v", "/>", "&lt;", "<style>", "</style>", "<col", "<colg>", "</colg>",
];
/// the i-th short sequence of tokens
fn small_doc(mut i: u64) -> String {
    let mut s = String::new();
    let n = TOK.len() as u64;
    // lengths 1,2,3,...
    let mut len = 1;
    let mut block = n;
    while i >= block {
        i -= block;
        block *= n;
        len += 1;
    }
    for _ in 0..len {
        s.push_str(TOK[(i % n) as usize]);
        i /= n;
    }
    s
}
pub fn small(cx: &mut Cx, judge: fn(&mut Cx, &str) -> Res) -> Res {
    for k in 0..1000 {
        let d = small_doc(cx.idx * 1000 + k);
        judge(cx, &d)?;
    }
    cx.count("short token sequences enumerated", 1000);
    Ok(())
}
fn c01_small(cx: &mut Cx) -> Res {
    small(cx, judge_wf)
}
/// longer random sequences of the same tokens
pub fn tokens(cx: &mut Cx, judge: fn(&mut Cx, &str) -> Res) -> Res {
    for _ in 0..200 {
        let n = cx.rng.range(4, 14);
        let d: String = (0..n).map(|_| *cx.rng.pick(&TOK)).collect();
        judge(cx, &d)?;
    }
    Ok(())
}
fn c01_tokens(cx: &mut Cx) -> Res {
    tokens(cx, judge_wf)
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        families: vec![
            fam("names", 15, 15, c01_names),
            fam("attrs", 30, 30, c01_attrs),
            fam("couples", 118, 1180, c01_couples),
            fam("attributes", 118, 1180, c01_attributes),
            fam("chars", 420, 0x1100, c01_chars),
            fam("ends", 600, 0x2200, c01_ends),
            fam("vast", 196, 1960, c01_vast),
            fam("huge", 15, 60, c01_huge),
            fam("small", 28, 840, c01_small),
            fam("shapes", 40, 2000, c01_shapes),
            fam("random", 10_000, 400_000, c01_random),
            fam("tokens", 9000, 100_000, c01_tokens),
            fam("mutated", 9000, 200_000, c01_mutated),
        ],
        need: vec![
            ("characters at the ends of contents", 60_000),
            ("elements", 10_000),
            ("void elements", 1000),
            ("script/style elements", 1000),
            ("comments", 1000),
            ("doctypes", 200),
            ("attributes", 10_000),
            ("unquoted values", 1000),
            ("bare attributes", 500),
            ("closing tags in other case", 1000),
            ("documents of a critical size", 190),
            ("elements inside or behind others", 190_000),
            ("tabs or newlines inside tags", 1000),
            ("nodes at depth 8 or more", 100),
            ("reference: well-formed", 2000),
            ("characters in text", 10_000),
        ],
        rule: "random trees (0-1500 nodes) written in random spellings, name/attribute spelling grids, every character in every position, enumerated and mutated token sequences the reference calls well-formed; non-trivial: at least three nodes or any markup; distinct by document text",
        assumptions: vec![
            "the tree model and the reference parser in harness/src/{html,refhtml}.rs state what the document denotes",
            "not judged: form feeds and NUL, repeated attributes, attributes not separated by space, markup in title/textarea/iframe-like elements, malformed documents (C02)",
        ],
    }
}

// ---------------------------------------------------------------------- C02

fn c02_damage(cx: &mut Cx) -> Res {
    for _ in 0..10 {
        let mut cfg = Cfg::any(&mut cx.rng);
        cfg.nodes = cfg.nodes.min(60);
        let t = html::forest(&mut cx.rng, &cfg);
        let (doc, _) = html::spell(&mut cx.rng, &t, 0, false);
        // where tags start and end, by the reference's eyes: just the delimiters
        let lts: Vec<usize> = doc.match_indices('<').map(|m| m.0).collect();
        let closes: Vec<usize> = doc.match_indices("</").map(|m| m.0).collect();
        for _ in 0..8 {
            let mut d = doc.clone();
            match cx.rng.below(15) {
                12 if !closes.is_empty() => {
                    // more than a name in a closing tag
                    let at = *cx.rng.pick(&closes);
                    if let Some(k) = d[at..].find('>') {
                        let n = *cx.rng.pick(&[" x", "/", " /", " a=b", " a='b'", "=", "\"", " '", " é", "\n</", "<", " <b", "$", "!", "?", "&amp;", " class=\"c\""]);
                        d.insert_str(at + k, n);
                    }
                }
                13 if !lts.is_empty() => {
                    // a '<' that starts nothing
                    let at = *cx.rng.pick(&lts);
                    let n = *cx.rng.pick(&[
                        "<![CDATA[x]]>", "<![CDATA[]]>", "<!x>", "<!>", "<!->", "<! doctype html>", "<!doctypehtml>", "<!DOCTYPE>", "<!ELEMENT a>",
                        "<?x?>", "<?xml version=\"1.0\"?>", "<?>", "</>", "</ p>", "</!>", "</?>", "</é>", "<é>", "<é></é>", "<\n>", "< p></p>", "<->",
                        "<_a></_a>", "<:a></:a>", "<=>", "<'a'>", "<&lt;>", "<.>", "<<", "<>", "<></>",
                    ]);
                    d.insert_str(at, n);
                }
                14 => {
                    // a solidus or quotation mark inside a tag
                    let gts: Vec<usize> = d.match_indices('>').map(|m| m.0).filter(|k| *k > 0).collect();
                    if !gts.is_empty() {
                        let at = *cx.rng.pick(&gts);
                        let n = *cx.rng.pick(&["/ ", " / ", " /x", " a=\"b\"/ c", " \"", " '", " \"a\"", " 'a'=b", " a\"", " a'b'", " /=", "//", " / /", " ''", " \"\"=\"\""]);
                        d.insert_str(at, n);
                    }
                }
                0 if !closes.is_empty() => {
                    // drop a closing tag
                    let at = *cx.rng.pick(&closes);
                    let end = d[at..].find('>').map_or(d.len(), |k| at + k + 1);
                    d.replace_range(at..end, "");
                }
                1 if !closes.is_empty() => {
                    // rename a closing tag by one letter
                    let at = *cx.rng.pick(&closes) + 2;
                    if d.is_char_boundary(at) {
                        d.insert(at, 'z');
                    }
                }
                2 if !lts.is_empty() => {
                    let at = *cx.rng.pick(&lts);
                    let n = *cx.rng.pick(&["</p>", "</br>", "</div>", "</zz>", "</script>", "</IMG>", "</html >"]);
                    d.insert_str(at, n);
                }
                3 if !lts.is_empty() => {
                    let at = *cx.rng.pick(&lts);
                    let n = *cx.rng.pick(&["<p>", "<div class=x>", "<zz>", "<script>", "<style>", "<!--", "<!doctype ", "<", "< ", "<="]);
                    d.insert_str(at, n);
                }
                4 => d.push_str(cx.rng.pick(&["<", "</", "<p", "<p>", "</p>", "<!--", "<!-- a --", "<!doctype html", "<a href=\"x", "<br", "<br a=", "<script>", "<script>a</script", "<style></styl", "x</br>", "<p/></p>"])),
                5 => d.insert_str(0, cx.rng.pick(&["</p>", "<p>", "<b><i></b></i>", "</br>", "<a =x></a>", "<a x=></a>", "<br = >", "<br x= >"])),
                6 if closes.len() >= 2 => {
                    // swap the names of two closing tags
                    let (a, b) = (*cx.rng.pick(&closes), *cx.rng.pick(&closes));
                    let (a, b) = (a.min(b), a.max(b));
                    let ea = a + d[a..].find('>').unwrap_or(0);
                    let eb = b + d[b..].find('>').unwrap_or(0);
                    if ea < b {
                        let (ta, tb) = (d[a..ea].to_string(), d[b..eb].to_string());
                        d.replace_range(b..eb, &ta);
                        d.replace_range(a..ea, &tb);
                    }
                }
                7 if !lts.is_empty() => {
                    // remove a '>' behind a '<'
                    let at = *cx.rng.pick(&lts);
                    if let Some(k) = d[at..].find('>') {
                        d.remove(at + k);
                    }
                }
                8 => {
                    if let Some(k) = d.rfind(['"', '\'']) {
                        d.remove(k);
                    }
                }
                9 => {
                    let eqs: Vec<usize> = d.match_indices('=').map(|m| m.0).collect();
                    if !eqs.is_empty() {
                        let at = *cx.rng.pick(&eqs);
                        let n = *cx.rng.pick(&["=", " = ", "= >", " =x "]);
                        d.replace_range(at..=at, n);
                    }
                }
                10 if !closes.is_empty() => {
                    // duplicate a closing tag
                    let at = *cx.rng.pick(&closes);
                    let end = d[at..].find('>').map_or(d.len(), |k| at + k + 1);
                    let c = d[at..end].to_string();
                    d.insert_str(at, &c);
                }
                _ => {
                    let g: Vec<usize> = (0..d.len()).filter(|i| d.is_char_boundary(*i)).collect();
                    if !g.is_empty() {
                        let at = *cx.rng.pick(&g);
                        d.insert(at, '<');
                    }
                }
            }
            cx.sample(|| d.clone());
            judge_bad(cx, &d)?;
        }
    }
    Ok(())
}

fn c02_truncate(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(25);
    cfg.text = cfg.text.min(60);
    cfg.attrs = cfg.attrs.min(6);
    let mut t = html::forest(&mut cx.rng, &cfg);
    if cx.rng.pct(60) {
        t = vec![el("html", &[], t)];
    }
    let (doc, _) = html::spell(&mut cx.rng, &t, 0, false);
    for (i, _) in doc.char_indices() {
        judge_bad(cx, &doc[..i])?;
        cx.count("truncation points", 1);
    }
    Ok(())
}
/// Every HTML element inside every other: what HTML would close by itself stays open,
/// and what it would move stays where it is.
fn couples(cx: &mut Cx, judge: fn(&mut Cx, &str) -> Res) -> Res {
    let p = html::NAMES[cx.idx as usize % html::NAMES.len()];
    let up = p.to_uppercase();
    for c in html::NAMES {
        let other = cx.rng.pick(&html::NAMES);
        for d in [
            format!("<{p}><{c}>x</{p}>"),
            format!("<{p}><{c}></{p}>"),
            format!("<{p}>y<{c} a=b>x</{up}>z"),
            format!("<{p}><{c}>x<{c}>y</{c}></{p}>"),
            format!("<{p}><{c}>x<{other}>y</{c}></{p}>"),
            format!("<{other}><{p}><{c}>x</{p}></{other}>"),
            format!("<{p}><{c}>x</{c}></{p}>"),
            format!("<{p}>w<{c}>x</{c}>y<{c}>z</{c}></{p}>"),
            format!("<{p}>x</{p}><{c}>y</{c}>"),
            format!("<{p}>x</{c}>"),
            format!("<{p}>x<{c}>y</{other}></{p}>"),
            format!("<{p}>x<{c}>"),
            format!("<{p}>x</{p}></{c}>"),
            format!("<{p}>x</{p}><{c}>"),
        ] {
            judge(cx, &d)?;
            cx.count("elements inside or behind others", 1);
        }
    }
    Ok(())
}
fn c01_couples(cx: &mut Cx) -> Res {
    couples(cx, judge_wf)
}
fn c02_couples(cx: &mut Cx) -> Res {
    couples(cx, judge_bad)
}
fn c02_mutated(cx: &mut Cx) -> Res {
    mutated(cx, judge_bad)
}
fn c02_small(cx: &mut Cx) -> Res {
    small(cx, judge_bad)
}
fn c02_tokens(cx: &mut Cx) -> Res {
    tokens(cx, judge_bad)
}

/// Closing tags whose name differs from the open one in a single character, for every
/// character: other cases of letters beyond ASCII (case is ignored for ASCII letters
/// alone), neighbours, missing and doubled ones.
fn c02_letters(cx: &mut Cx) -> Res {
    let block = if cx.idx < 512 { cx.idx } else { cx.rng.below(0x1100) as u64 };
    for i in block * 256..block * 256 + 256 {
        let Some(c) = scalar(i) else { continue };
        if !c.is_alphanumeric() && !(c >= '\u{a0}' && !c.is_control() && !c.is_whitespace()) {
            continue;
        }
        let mut others: Vec<String> = vec![String::new(), format!("{c}{c}"), "x".into()];
        others.push(c.to_lowercase().collect());
        others.push(c.to_uppercase().collect());
        for d in [i + 1, i.wrapping_sub(1), i ^ 0x20, i ^ 0x100, i + 0x10000, i & 0xff] {
            others.extend(scalar(d).filter(|c| c.is_alphanumeric()).map(String::from));
        }
        let (pre, post) = *cx.rng.pick(&[("x", ""), ("x", "y"), ("ab-", "c"), ("br", ""), ("H", "1")]);
        for o in others {
            if o.chars().eq([c]) {
                continue;
            }
            let (open, close) = (format!("{pre}{c}{post}"), format!("{pre}{o}{post}"));
            if open.eq_ignore_ascii_case(&close) {
                continue;
            }
            judge_bad(cx, &format!("<{open}>t</{close}>"))?;
            judge_bad(cx, &format!("<{close}><{open} k=v></{close}\n></{open}>"))?;
            cx.count("closing tags one character off", 2);
        }
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        families: vec![
            fam("small", 112, 840, c02_small),
            fam("couples", 118, 1180, c02_couples),
            fam("truncate", 4800, 60_000, c02_truncate),
            fam("damage", 12_000, 200_000, c02_damage),
            fam("letters", 640, 0x1100, c02_letters),
            fam("tokens", 9000, 100_000, c02_tokens),
            fam("mutated", 7500, 200_000, c02_mutated),
        ],
        need: vec![
            ("reference: malformed", 50_000),
            ("malformed: comment without end", 500),
            ("malformed: doctype without end", 50),
            ("malformed: closing tag matches nothing", 1000),
            ("malformed: element left open", 1000),
            ("malformed: script or style without end", 500),
            ("malformed: cut off in a quoted value", 500),
            ("malformed: = without a value", 100),
            ("malformed: = without a name", 100),
            ("malformed: < starts no tag", 500),
            ("malformed: cut off in a tag", 1000),
            ("malformed: <! starts no comment or doctype", 100),
            ("malformed: </ without a name", 100),
            ("malformed: closing tag with more than a name", 100),
            ("malformed: solidus in a tag", 100),
            ("malformed: quote for or in a name", 100),
            ("truncation points", 10_000),
            ("elements inside or behind others", 190_000),
            ("closing tags one character off", 200_000),
        ],
        rule: "structurally damaged, truncated (at every character), mutated and enumerated documents; judged (and non-trivial) when the reference calls them malformed; distinct by document text",
        assumptions: vec![
            "harness/src/refhtml.rs states which documents are malformed; constructs it calls unspecified are not judged",
        ],
    }
}

// ---------------------------------------------------------------------- C03

/// contexts of a reference: document around it and where the result must appear
const CTX: usize = 9;
fn in_ctx(c: usize, s: &str) -> (String, bool) {
    // bool: quoted or text (any content), else unquoted
    (
        match c {
            0 => s.to_string(),
            1 => format!("<p>{s}</p>"),
            2 => format!("<p k=\"{s}\"></p>"),
            3 => format!("<p k='{s}'/>"),
            4 => format!("<p k={s}></p>"),
            5 => format!("<img k=\"{s}\">"),
            6 => format!("<script k='{s}'></script>"),
            7 => format!("<b a=1 k=\"{s}\" z='2'>{s}</b>"),
            _ => format!("<i><b>{s}</b>{s}</i>"),
        },
        c != 4,
    )
}
fn ctx_tree(c: usize, s: &str) -> Vec<H> {
    let kids = |s: &str| if s.is_empty() { vec![] } else { vec![H::Text(s.to_string())] };
    match c {
        0 => kids(s),
        1 => vec![el("p", &[], kids(s))],
        2..=4 => vec![el("p", &[("k", s)], vec![])],
        5 => vec![H::Void { name: "img".into(), attrs: amap(&[("k", s)]) }],
        6 => vec![H::Raw { name: "script".into(), attrs: amap(&[("k", s)]), content: String::new() }],
        7 => vec![el("b", &[("a", "1"), ("k", s), ("z", "2")], kids(s))],
        _ => {
            let mut k = vec![el("b", &[], kids(s))];
            k.extend(kids(s));
            vec![el("i", &[], k)]
        }
    }
}

fn check_ref(cx: &mut Cx, written: &str, want: &str, ctx: usize) -> Res {
    let (doc, free) = in_ctx(ctx, written);
    if !free && (written.is_empty() || written.contains(|c: char| c.is_whitespace() || "\"'=<>`".contains(c))) {
        return Ok(());
    }
    if written.contains(['"', '\'', '<']) && ctx >= 2 {
        return Ok(());
    }
    cx.eval(doc.as_bytes(), true);
    expect_tree(&doc, &ctx_tree(ctx, want))
}

fn c03_named(cx: &mut Cx) -> Res {
    let all = &html::entities().all;
    let per = 32;
    for k in 0..per {
        let i = cx.idx as usize * per + k;
        let Some((name, text)) = all.get(i) else { break };
        for ctx in 0..CTX {
            let semi = name.ends_with(';');
            let mut forms = vec![(format!("&{name}"), text.clone())];
            let around: &[(&str, &str)] = if semi {
                &[("a", "b"), (" ", " "), ("", ";"), ("&", ""), ("", "&"), ("&amp", " "), ("1", "2"), ("#", "#"), ("é", "é"), ("", "=")]
            } else {
                &[("a", " "), ("", "."), ("x", "&"), (" ", "-"), ("", "/"), ("(", ")"), ("", "#"), ("é", "!")]
            };
            for (pre, post) in around {
                // the reference says what the surroundings become
                let w = format!("{pre}&{name}{post}");
                if let Some(t) = refhtml::decode(&w) {
                    forms.push((w, t));
                }
            }
            for (w, t) in forms {
                check_ref(cx, &w, &t, ctx)?;
            }
        }
        cx.count("reference names checked in all contexts", 1);
        cx.sample(|| format!("&{name} -> {text:?}"));
    }
    Ok(())
}

fn c03_numeric(cx: &mut Cx) -> Res {
    // 512 scalar values per case, decimal, hexadecimal in both cases, leading zeros
    let mut w = String::new();
    let mut t = String::new();
    let mut n = 0;
    for i in cx.idx * 512..cx.idx * 512 + 512 {
        let Some(c) = scalar(i) else { continue };
        if c.is_control() {
            continue;
        }
        w.push_str(&format!("&#{i};&#x{i:x};|&#X{i:X};&#{i:08};&#x{i:08x}; "));
        for s in [format!("{c}{c}|{c}{c}{c} ")] {
            t.push_str(&s);
        }
        n += 5;
    }
    if n == 0 {
        return Ok(());
    }
    cx.count("numeric references", n);
    let ctx = [1, 2, 3, 5, 6][(cx.idx % 5) as usize];
    let (doc, _) = in_ctx(ctx, &w);
    cx.eval(doc.as_bytes(), true);
    expect_tree(&doc, &ctx_tree(ctx, &t))
}

/// Numbers around every limit an integer type could have, and those that come
/// down to a character if it wraps around.
fn c03_limits(cx: &mut Cx) -> Res {
    let c = loop {
        let c = if cx.rng.pct(50) { cx.rng.range(0x20, 0x7e) as u32 } else { cx.rng.range(0xa0, 0x10_ffff) as u32 };
        if char::from_u32(c).is_some() {
            break u128::from(c);
        }
    };
    let mut ns: Vec<u128> = vec![];
    for bits in [8, 16, 20, 21, 24, 31, 32, 33, 48, 52, 53, 63, 64, 65, 96, 126] {
        let m = 1u128 << bits;
        ns.extend([m - 1, m, m + 1, m + c, 2 * m + c, 3 * (m - 1), m + 0x11_0000]);
    }
    ns.extend([0xd800, 0xdbff, 0xdc00, 0xdfff, 0x10_fffe, 0x10_ffff, 0x11_0000, 0x11_0001, 0xffff_fffe, 0xffff_ffff]);
    for p in 4..38 {
        ns.extend([10u128.pow(p), 10u128.pow(p) + c, 10u128.pow(p) - 1]);
    }
    let pad = "0".repeat(*cx.rng.pick(&[0, 0, 1, 7, 30, 300]));
    for n in ns {
        for w in [format!("&#{pad}{n};"), format!("&#x{pad}{n:x};"), format!("&#X{pad}{n:X};"), format!("&#{pad}{n}0;"), format!("&#{n}")] {
            let (pre, post) = *cx.rng.pick(&[("", ""), ("a", "b"), ("&amp;", "&amp;"), ("&", ";")]);
            let w = format!("{pre}{w}{post}");
            let Some(t) = refhtml::decode(&w) else { continue };
            if t == w {
                cx.count("numbers of no character", 1);
            }
            let ctx = cx.rng.below(CTX);
            check_ref(cx, &w, &t, ctx)?;
            cx.count("numbers at the limits of integers", 1);
        }
    }
    cx.sample(|| format!("{c} plus powers of 2 and 10"));
    Ok(())
}

fn c03_tokens(cx: &mut Cx) -> Res {
    const BITS: [&str; 52] = [
        "&", ";", "#", "x", "X", "amp", "lt", "gt", "quot", "nbsp", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#38;",
        "&#x26;", "&#60;", "&#39;", "&copy;", "&notin;", "&not;", "&frac12;", "&there4;", "&AMP;", "&Amp;", "&nosuch;",
        "&#;", "&#x;", "&#xg;", "&#12a;", "&;", "&&", "&amp", "&lt", "&copy", "&sup2", "&frac12", " ", "a", "1", "é", "=",
        "&NotEqualTilde;", "&hellip;", "&#128512;", "&#x1F600;", "&#xFFFD;", "&ngE;", "-", ".", "\n",
    ];
    for _ in 0..300 {
        let n = cx.rng.range(1, 9);
        let mut w: String = (0..n).map(|_| *cx.rng.pick(&BITS)).collect();
        if cx.rng.pct(20) {
            let e = cx.rng.pick(&html::entities().all).0.clone();
            w.push('&');
            w.push_str(&e);
        }
        let Some(t) = refhtml::decode(&w) else {
            cx.count("reference texts not judged", 1);
            continue;
        };
        cx.count("reference texts judged", 1);
        if t != w {
            cx.count("texts that decode to something else", 1);
        }
        let ctx = cx.rng.below(CTX);
        cx.sample(|| format!("{w:?} -> {t:?}"));
        check_ref(cx, &w, &t, ctx)?;
    }
    Ok(())
}

fn c03_once(cx: &mut Cx) -> Res {
    // encode k times, decode once
    for _ in 0..40 {
        let t = html::text(&mut cx.rng, 40);
        let enc = |cx: &mut Cx, s: &str| -> String {
            s.chars()
                .map(|c| {
                    if "&<\"'".contains(c) || (!c.is_control() && cx.rng.pct(20)) {
                        html::ref_for(&mut cx.rng, c)
                    } else {
                        c.to_string()
                    }
                })
                .collect()
        };
        let mut s = t.clone();
        for _ in 0..cx.rng.range(1, 3) {
            let w = enc(cx, &s);
            for ctx in [1, 2, 3, 7] {
                check_ref(cx, &w, &s, ctx)?;
            }
            cx.count("encodings undone exactly once", 1);
            s = w;
        }
    }
    Ok(())
}

fn c03_plain(cx: &mut Cx) -> Res {
    // long texts with few references: everything else must stay as written
    let n = cx.rng.range(1, 400);
    let mut w = String::new();
    for _ in 0..n {
        let t = html::text(&mut cx.rng, 30).replace(['<', '"', '\''], "");
        w.push_str(&t);
        if cx.rng.pct(30) {
            w.push_str(cx.rng.pick(&["&amp;", "&#233;", "& ", "&bogus;", "&eacute;", "&#x4e2d;", "&"]));
        }
    }
    if let Some(t) = refhtml::decode(&w) {
        for ctx in [0, 1, 2, 3, 8] {
            check_ref(cx, &w, &t, ctx)?;
        }
        cx.count("long texts", 1);
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        families: vec![
            fam("named", 70, 70, c03_named),
            fam("limits", 400, 20_000, c03_limits),
            fam("numeric", 0x110000 / 512, 0x110000 / 512, c03_numeric),
            fam("tokens", 6000, 150_000, c03_tokens),
            fam("once", 2000, 30_000, c03_once),
            fam("plain", 2000, 30_000, c03_plain),
        ],
        need: vec![
            ("reference names checked in all contexts", 2231),
            ("numeric references", 5_000_000),
            ("reference texts judged", 100_000),
            ("texts that decode to something else", 50_000),
            ("encodings undone exactly once", 10_000),
            ("long texts", 100),
        ],
        rule: "all 2231 HTML5 names and all non-control scalar values as references in text and values of every element kind, plus random mixtures; every case contains references or near-references and is non-trivial; distinct by document text",
        assumptions: vec![
            "harness/entities.tsv (from Python's html.entities.html5) is the HTML5 list",
            "not judged: numeric references to controls, surrogates or beyond U+10FFFF; legacy names without semicolon directly followed by a letter, digit or =",
        ],
    }
}

// ---------------------------------------------------------------------- C04

fn check_raw_view(doc: &str, want: &[H]) -> Res {
    // through the public accessors: no children, no text, whatever the content
    let doc = forever(doc);
    let soup = Soup::html_strict(doc).map_err(|e| clip(&format!("rejected: {e:?}")))?;
    let mut texts = vec![];
    html::walk(want, &mut |h, _| {
        if let H::Text(t) = h {
            texts.push(t.clone());
        }
    });
    let mut got = vec![];
    for n in soup.strict().all() {
        got.push(n.all_text());
    }
    let mut per = vec![];
    for w in want {
        let mut v = vec![];
        html::walk(std::slice::from_ref(w), &mut |h, _| {
            if let H::Text(t) = h {
                v.push(t.clone());
            }
        });
        per.push(v.join("\n"));
    }
    ensure!(got == per, "all_text of the top-level nodes is {got:?}, expected {per:?}\ninput: {}", clip(doc));
    for n in soup.iter() {
        if !matches!(&*n, HTMLNode::Element { .. }) {
            ensure!(
                n.children().is_empty() && n.descendants().count() == 1,
                "a {:?} has children\ninput: {}",
                clip(&format!("{:?}", *n)),
                clip(doc)
            );
        }
        if !matches!(&*n, HTMLNode::Text(_)) {
            ensure!(n.text().is_none(), "a node that is not text has text: {}", clip(&format!("{:?}", *n)));
        }
    }
    Ok(())
}

fn hostile(cx: &mut Cx) -> String {
    const BITS: [&str; 44] = [
        "<p>", "</p>", "<br>", "<br/>", "<script>", "</script>", "<style>", "</style>", "<!--", "-->", "<!-", "->", "--",
        "<!doctype html>", "<!", ">", "<", "</", "/>", "&amp;", "&lt;b&gt;", "&#60;", "&nosuch;", "&", "\"", "'", "=",
        " a=\"", "' ", "\n", "\t", " ", "x", "if(a<b)", "]]>", "é", "🦀", "\u{212a}", "</scriptx>", "</scrip", "</SCRIPT",
        "</style-x>", "</ script>", "\\",
    ];
    let n = cx.rng.small(40);
    let mut s: String = (0..n).map(|_| *cx.rng.pick(&BITS)).collect();
    if cx.rng.pct(10) {
        s.push_str(&html::text(&mut cx.rng, 400));
    }
    if cx.rng.pct(30) {
        for _ in 0..cx.rng.range(1, 3) {
            let c = html::edge_char(&mut cx.rng);
            s.insert(0, c);
        }
        cx.count("contents that begin or end in a character beyond ASCII", 1);
    }
    if cx.rng.pct(30) {
        for _ in 0..cx.rng.range(1, 3) {
            s.push(html::edge_char(&mut cx.rng));
        }
        cx.count("contents that begin or end in a character beyond ASCII", 1);
    }
    s
}

fn opaque(cx: &mut Cx, kind: usize, content: String) -> Option<(String, H)> {
    let mut c = content;
    match kind {
        0 | 1 => {
            // script/style
            let mut name = html::RAW[kind].to_string();
            if cx.rng.pct(30) {
                name = html::mix_case(&mut cx.rng, &name);
            }
            // anything that could be taken for the end is cut off
            while let Some(at) = html::raw_close(&c, &name) {
                c.truncate(at);
            }
            let low = c.to_ascii_lowercase();
            if let Some(i) = low.rfind("</") {
                if format!("</{}", name.to_ascii_lowercase()).starts_with(&low[i..]) {
                    // a partial closing tag right before the real one is fine; keep it
                    cx.count("contents ending in a partial closing tag", 1);
                }
            }
            if c.contains('\0') || c.contains('\x0c') {
                return None;
            }
            let end = if cx.rng.pct(50) { html::mix_case(&mut cx.rng, &name) } else { name.clone() };
            let (l, r) = (*cx.rng.pick(&["", " ", "\n", "\t "]), *cx.rng.pick(&["", " ", "\n", " \n"]));
            let gap = *cx.rng.pick(&["", "", " ", "\n"]);
            let attr = cx.rng.pct(30);
            let body = format!("{l}{c}{r}");
            if html::raw_close(&format!("{body}</{end}"), &name).is_some_and(|a| a < body.len()) {
                return None;
            }
            let doc = format!("<{name}{}>{body}</{end}{gap}>", if attr { " k='&lt;'" } else { "" });
            let attrs = if attr { amap(&[("k", "<")]) } else { amap(&[]) };
            let t = c.trim_matches(|c: char| c.is_ascii_whitespace());
            if t != c.trim() {
                return None;
            }
            Some((doc, H::Raw { name, attrs, content: t.to_string() }))
        }
        2 => {
            if let Some(i) = c.find("-->") {
                c.truncate(i);
            }
            if c.starts_with('>') || c.starts_with("->") || c.contains("--!>") || c.ends_with("--!") {
                c.insert(0, 'c');
                c = c.replace("--!", "-!");
            }
            if c.ends_with('-') {
                c.push(' ');
            }
            Some((format!("<!--{c}-->"), H::Comment(c)))
        }
        _ => {
            c = c.replace('>', "");
            let d = *cx.rng.pick(&["<!doctype ", "<!DOCTYPE ", "<!DocType ", "<!doctype\t", "<!DOCTYPE\n", "<!dOCTYPE\r"]);
            Some((format!("{d}{c}>"), H::Doctype(c)))
        }
    }
}

fn c04_hostile(cx: &mut Cx) -> Res {
    for _ in 0..40 {
        let mut doc = String::new();
        let mut want: Vec<H> = vec![];
        for _ in 0..cx.rng.range(1, 4) {
            let kind = cx.rng.below(4);
            let content = hostile(cx);
            let Some((d, h)) = opaque(cx, kind, content) else { continue };
            cx.count(["script contents", "style contents", "comment contents", "doctype contents"][kind], 1);
            // in different surroundings
            match cx.rng.below(4) {
                0 => {
                    doc.push_str(&d);
                    want.push(h);
                }
                1 => {
                    // text that looks like a delimiter
                    const T: [&str; 16] = [
                        "x", "-->", "--", ">", " -->x", "]]>", "*/", "/>", "\"", "'>", "x --> y", "!>", "--!>", "script>", "=x", "} ?>",
                    ];
                    let (x, y) = (*cx.rng.pick(&T), *cx.rng.pick(&T));
                    doc.push_str(&format!("<div a=\"b\">{x}{d}{y}<br></div>"));
                    want.push(el("div", &[("a", "b")], vec![
                        H::Text(x.into()),
                        h,
                        H::Text(y.into()),
                        H::Void { name: "br".into(), attrs: amap(&[]) },
                    ]));
                }
                2 => {
                    doc.push_str(&format!("<i></i>{d}<b>&lt;</b>"));
                    want.push(el("i", &[], vec![]));
                    want.push(h);
                    want.push(el("b", &[], vec![H::Text("<".into())]));
                }
                _ => {
                    doc.push_str(&format!("<p><q>{d}</q>{d}</p>"));
                    want.push(el("p", &[], vec![el("q", &[], vec![h.clone()]), h]));
                }
            }
        }
        cx.eval(doc.as_bytes(), want.len() > 1 || doc.len() > 20);
        cx.sample(|| doc.clone());
        expect_tree(&doc, &want)?;
        check_raw_view(&doc, &want)?;
    }
    Ok(())
}

fn c04_small(cx: &mut Cx) -> Res {
    // every short sequence of delimiters as content of each kind
    const B: [&str; 20] = [
        "<", ">", "/", "-", "!", "script", "style", "SCRIPT", "x", " ", "&lt;", "<!--", "-->", "</", "\"", "'", "</script>",
        "</style>", "=", "\n",
    ];
    let n = B.len() as u64;
    for k in 0..400 {
        let mut i = cx.idx * 400 + k;
        let mut len = 1;
        let mut block = n;
        while i >= block {
            i -= block;
            block *= n;
            len += 1;
        }
        let mut c = String::new();
        for _ in 0..len {
            c.push_str(B[(i % n) as usize]);
            i /= n;
        }
        for kind in 0..4 {
            let Some((d, h)) = opaque(cx, kind, c.clone()) else { continue };
            let doc = format!("a{d}<i>b</i>");
            let want = [H::Text("a".into()), h, el("i", &[], vec![H::Text("b".into())])];
            cx.eval(doc.as_bytes(), true);
            expect_tree(&doc, &want)?;
            check_raw_view(&doc, &want)?;
        }
        cx.count("short contents enumerated", 1);
    }
    Ok(())
}

/// Contents around which there is white space, also white space beyond ASCII (which a
/// parser may take for white space or for content: both are accepted), and characters
/// that look like white space and are none.
fn c04_edges(cx: &mut Cx) -> Res {
    const SPACE: [char; 26] = [
        ' ', '\t', '\n', '\r', '\x0b', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}',
        '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
        '\x0c', '\u{85}',
    ];
    const NONE: [char; 18] = [
        '\u{200b}', '\u{200c}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{180e}', '\u{ad}', '\x01', '\x08', '\x0e', '\x1c', '\x1d', '\x1f', '\x7f',
        '\u{ffff}', '\u{fffd}', '-', '\u{e000}',
    ];
    for round in 0..40 {
        let mut side = |cx: &mut Cx| -> String {
            (0..cx.rng.small(6)).map(|_| if cx.rng.pct(75) { *cx.rng.pick(&SPACE) } else { *cx.rng.pick(&NONE) }).collect()
        };
        let (l, m, r) = (side(cx), side(cx), side(cx));
        let name = html::RAW[round % 2];
        let body = match round % 4 {
            0 => l.clone(),
            1 => format!("{l}x{m}y{r}"),
            2 => format!("{l}<b>{m}</b>{r}"),
            _ => format!("{l}{{{m}}}{r}"),
        };
        let doc = format!("a<{name}>{body}</{name}><!--{l}x{r}--><i>b</i>");
        let tree = |c: &str| {
            vec![
                H::Text("a".into()),
                H::Raw { name: name.into(), attrs: amap(&[]), content: c.into() },
                H::Comment(format!("{l}x{r}")),
                el("i", &[], vec![H::Text("b".into())]),
            ]
        };
        cx.eval(doc.as_bytes(), true);
        let html_space = |c: char| " \t\n\r\x0c".contains(c);
        let rest = body.trim_matches(html_space);
        if rest == body.trim() {
            expect_tree(&doc, &tree(rest))?;
            cx.count("contents with one meaning of white space", 1);
        } else {
            let (html, ascii) = (expect_tree(&doc, &tree(rest)), expect_tree(&doc, &tree(body.trim_matches(|c| html_space(c) || c == '\x0b'))));
            if html.is_err() && ascii.is_err() {
                expect_tree(&doc, &tree(body.trim()))?;
            }
            cx.count("contents with white space beyond ASCII at an end", 1);
        }
    }
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        families: vec![
            fam("small", 66, 421, c04_small),
            fam("edges", 1500, 40_000, c04_edges),
            fam("hostile", 36_000, 300_000, c04_hostile),
        ],
        need: vec![
            ("script contents", 10_000),
            ("style contents", 10_000),
            ("comment contents", 10_000),
            ("doctype contents", 10_000),
            ("contents that begin or end in a character beyond ASCII", 10_000),
            ("short contents enumerated", 8000),
            ("contents with one meaning of white space", 10_000),
            ("contents with white space beyond ASCII at an end", 10_000),
        ],
        rule: "hostile contents (markup, closing tags of other elements, quotes, references) in script, style, comment and doctype, in different surroundings; non-trivial: more than one node or over 20 bytes; distinct by document text",
        assumptions: vec![
            "a script or style ends at the first </name, ASCII case-insensitive, followed by optional whitespace and >; contents with </name followed by space or / are not generated",
            "not generated: comments starting with > or -> or containing --!>, which HTML5 ends early",
        ],
    }
}
