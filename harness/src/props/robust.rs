//! C18, C19: no crash, no endless loop, linear cost.
use std::{
    borrow::Cow,
    io::Read,
    process::Command,
    sync::{
        atomic::{AtomicUsize, Ordering::Relaxed},
        OnceLock,
    },
};

use soupy::{
    parser::{HTMLNode, XMLNode},
    Node, Pattern, Queryable, Soup,
};

use super::{at, lenient};
use crate::{
    case::{clip, fam, Cx, Prop, Res},
    child, ensure, html, mem, page,
    query::{forever, Good, Pat, PatO, P},
    rng::Rng,
    work::{self, In},
    xmlm,
};

fn make(kind: usize, s: String) -> In {
    match kind % 3 {
        0 => In::Strict(s),
        1 => In::Lenient(s),
        _ => In::Xml(s.into_bytes()),
    }
}

// ---------------------------------------------------------------------- C18

const HTML_BITS: &[&str] = &[
    "<", ">", "</", "/>", "<!--", "-->", "<!-", "--!>", "<!", "<!doctype ", "<!DOCTYPE html>", "<![CDATA[", "]]>", "<?", "?>", "&",
    "&#", "&#x", "&amp;", "&#0;", "&#xD800;", "&#x110000;", "&#99999999999999999999;", "&#xfffffffffffffffff;", "&lt", "&lt;", "&a",
    "&frac12", "&sup2", "&CounterClockwiseContourIntegral;", ";", "#", "=", "'", "\"", "`", " ", "\t", "\n", "\r", "\x0c", "\0", "a",
    "A", "p", "br", "BR", "script", "SCRIPT", "style", "</script>", "</script", "</scr", "<script>", "<style>", "<script/>", "<a>",
    "</a>", "<a/>", "<br>", "<br/>", "<a b=c>", "<a b='", "<a b=\"", "'>", "\">", "<a =>", "<a b =\n'c' d>", "<col>", "<svg>",
    "<math>", "<table>", "<tr>", "<td>", "<select>", "<template>", "</template>", "<plaintext>", "<frameset>", "<title>", "<textarea>",
    "é", "ß", "İ", "\u{212a}", "\u{17f}", "\u{1f600}", "\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", "\u{301}", "\u{fffd}", "\u{ffff}",
    "\u{10ffff}", "x-y", "x:y", "_", "-", "0", "9",
];

const XML_BITS: &[&str] = &[
    "<", ">", "</", "/>", "<a>", "</a>", "<a/>", "<a b='c'>", "<a b=\"", "<p:a xmlns:p='u'>", "</p:a>", "<a xmlns='u'>", "<a p:b='1'>",
    "xmlns:xml='x'", "<?xml version='1.0'?>", "<?xml version='1.1' encoding='UTF-16'?>", "<?xml version='1.0' encoding='latin1'?>",
    "<?pi x?>", "<?", "?>", "<?xml", "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "<!DOCTYPE a>", "<!DOCTYPE a [", "<!ENTITY e 'x'>",
    "<!ENTITY e '&e;'>", "<!ENTITY % p 'x'>", "<!ELEMENT a ANY>", "<!ATTLIST a b CDATA 'c'>", "]>", "&e;", "&amp;", "&lt;", "&#0;",
    "&#xD800;", "&#x110000;", "&#99999999999999999999;", "&#x41;", "&", ";", "&nosuch;", "'", "\"", "=", " ", "\n", "\r", "\t", "\0",
    "a", "1", ":", "-", "é", "\u{feff}", "\u{1f600}", "\u{ffff}", "\u{85}", "text",
];

fn survive(cx: &mut Cx, i: &In) -> Res {
    at(&i.show());
    let seed = cx.rng.next();
    let o = work::run(i, seed);
    ensure!(o.utf8, "a returned string is not valid UTF-8\n{}", i.show());
    cx.eval(i.bytes(), true);
    cx.count(i.kind(), 1);
    cx.count(if o.failed { "parses that returned an error" } else { "parses that returned a tree" }, 1);
    cx.count("nodes visited", o.nodes);
    cx.count("query results looked at", o.results);
    Ok(())
}

fn c18_tokens(cx: &mut Cx) -> Res {
    for k in 0..12 {
        let bits = if k % 3 == 2 { XML_BITS } else { HTML_BITS };
        let n = cx.rng.small(120) + 1;
        let mut d: String = (0..n).map(|_| *cx.rng.pick(bits)).collect();
        if k % 3 != 2 && cx.rng.pct(30) {
            // mostly sound for the strict parser, then one bad place
            d = format!("<a b='{}'>{}</a>{d}", cx.rng.range(0, 9), "<br>x".repeat(cx.rng.below(4)));
        }
        let i = make(k, d);
        cx.sample(|| i.show());
        survive(cx, &i)?;
    }
    Ok(())
}

/// Places of the HTML grammar with a hole.
const HTML_PLACES: &[&str] = &[
    "@", "<@", "<@>", "</@>", "<@/>", "<a@>", "<a@></a@>", "<a></a@>", "<a></@>", "<a @>", "<a @=b></a>", "<a b@=c></a>", "<a b@></a>",
    "<a b=@></a>", "<a b=c@></a>", "<a b='@'></a>", "<a b=\"@\"></a>", "<a b='c'@></a>", "<a b@='c'></a>", "<a b=@'c'></a>", "<a>@</a>",
    "<a>@", "<!--@-->", "<!--@", "<!--->@", "<!@", "<!doctype @>", "<!doctype@ html>", "<!@doctype html>", "<br@>", "<b@r>", "<@br>",
    "<br @/>", "<in@put>", "<lin@>", "<trac@>", "<@script></script>", "<script@></script>", "<scri@pt></scri@pt>", "<script>@</script>",
    "<script></@script>", "<script></script@>", "<script></scrip@>", "<script></scrip@t></script>", "<script></@</script>", "<style>@",
    "<style></styl@>", "<script @>x</script>", "&@;", "&@", "&a@;", "&amp@", "&lt@;", "&#@;", "&#1@;", "&#x@;", "&#x1@;", "&#@", "@&amp;",
    "&amp;@", "<a b='&@;'></a>", "<a b='&#x@;'></a>", "<a b='@&lt;@'></a>", "<a>@&gt;@</a>", "<p>@<p>@</p>", "<table>@<tr>", "<svg>@</svg>",
    "<col@></col@>", "<wb@></wb@>", "<l@nk>",
];
const XML_PLACES: &[&str] = &[
    "@", "<@/>", "<a@/>", "<a>@</a>", "<a></a@>", "<a @='b'/>", "<a b@='c'/>", "<a b='@'/>", "<a b=@/>", "<@:a/>", "<a:@/>",
    "<a xmlns@='u'/>", "<a xmlns:@='u'/>", "<a xmlns='@'/>", "<p:a xmlns:p='@'/>", "<!--@--><a/>", "<a><![CDATA[@]]></a>", "<a><?@?></a>",
    "<a><?p @?></a>", "<a>&@;</a>", "<a>&#@;</a>", "<a>&#x@;</a>", "<a b='&@;'/>", "<!DOCTYPE @><a/>", "<!DOCTYPE a [@]><a/>",
    "<!DOCTYPE a [<!ENTITY e '@'>]><a>&e;</a>", "<?xml version='@'?><a/>", "<?xml version='1.0' encoding='@'?><a/>", "<?xml @?><a/>",
    "@<a/>", "<a/>@",
];

/// Characters whose case, width or class is unusual.
const ODD: &[char] = &[
    '\0', '\u{1}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', ' ', '"', '#', '&', '\'', '-', '/', '0', ':', ';', '<', '=', '>', '?',
    'A', 'K', 'S', 'Z', '[', ']', '_', '`', 'a', 'k', 's', 'x', 'z', '{', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', 'ß', 'ÿ',
    'İ', 'ı', 'ŉ', 'ſ', 'ǅ', 'ǰ', 'ΐ', 'ς', '\u{300}', '\u{345}', '\u{587}', '\u{5d0}', '\u{660}', '\u{966}', '\u{10d0}', '\u{13a0}',
    'ẖ', 'ẞ', 'ᾳ', '\u{1fb3}', '\u{1680}', '\u{2000}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202e}',
    '\u{2060}', '\u{2126}', '\u{212a}', '\u{212b}', '²', '½', '\u{2160}', '\u{24b6}', '\u{3000}', '日', '\u{ac00}', '\u{d7ff}', '\u{e000}',
    '\u{fb00}', '\u{fb03}', '\u{fdd0}', '\u{fe0f}', '\u{feff}', '\u{ff01}', '\u{ff1c}', '\u{ff1e}', '\u{ff21}', '\u{fffc}', '\u{fffd}',
    '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10400}', '\u{1d7ce}', '\u{1e900}', '\u{1f600}', '\u{1ffff}', '\u{e0001}', '\u{f0000}',
    '\u{10fffd}', '\u{10ffff}',
];

/// Parses all and looks at what comes out; panics are caught by the caller.
fn brief(doc: &str) -> u64 {
    let mut n = 0;
    if let Ok(s) = Soup::html_strict(forever(doc)) {
        n += s.iter().count() as u64;
        n += quiz::<_, Pat>(&s) as u64;
        n += s.tag("a").all().map(|i| i.all_text().len() as u64).sum::<u64>();
        n += s.attr_name("b").all().filter_map(|i| i.get("b").map(|v| v.len() as u64)).sum::<u64>();
    }
    n
}
fn brief_lenient(doc: &str) -> u64 {
    let s = Soup::html(doc);
    let mut n = s.iter().count() as u64 + quiz::<_, PatO>(&s) as u64;
    n += s.iter().take(1).map(|i| i.all_text().len() as u64).sum::<u64>();
    n
}
fn brief_xml(doc: &[u8]) -> u64 {
    match Soup::xml(doc) {
        Ok(s) => s.iter().count() as u64 + quiz::<_, PatO>(&s) as u64 + s.strict().all().map(|i| i.all_text().len() as u64).sum::<u64>(),
        Err(e) => e.to_string().len() as u64,
    }
}

fn place_all(cx: &mut Cx, fill: &str) {
    let mut seen = 0;
    for p in HTML_PLACES {
        let d = p.replace('@', fill);
        at(&d);
        seen += brief(&d);
        seen += brief_lenient(&d);
        cx.eval(d.as_bytes(), true);
    }
    for p in XML_PLACES {
        let d = p.replace('@', fill);
        at(&d);
        seen += brief_xml(d.as_bytes());
        cx.eval(d.as_bytes(), true);
    }
    cx.count("characters or strings put in every place", 1);
    cx.count("nodes visited", seen);
}

/// Every character in every place of the grammar: all of the odd ones, then blocks.
fn c18_places(cx: &mut Cx) -> Res {
    if (cx.idx as usize) < ODD.len() {
        let c = ODD[cx.idx as usize];
        place_all(cx, &c.to_string());
        place_all(cx, &format!("{c}{c}"));
        return Ok(());
    }
    for _ in 0..3 {
        let n = cx.rng.range(1, 3);
        let f: String = (0..n)
            .map(|_| if cx.rng.pct(50) { *cx.rng.pick(ODD) } else { lenient::any_char(&mut cx.rng) })
            .collect();
        cx.sample(|| format!("{f:?} in every place"));
        place_all(cx, &f);
    }
    Ok(())
}

/// All scalar values, one parse per block of places.
fn c18_scalars(cx: &mut Cx) -> Res {
    // the thorough tier goes through all of them
    let block = 256;
    let from = if cx.tier == crate::case::Tier::Thorough {
        cx.idx as u32 * block
    } else {
        [0, 0x100, 0x200, 0x1e00, 0x1f00, 0x2000, 0x2100, 0xff00, 0x1_0400, 0xfb00][(cx.idx % 10) as usize]
    };
    if from > 0x10_ffff {
        return Ok(());
    }
    for c in (from..from + block).filter_map(char::from_u32) {
        let mut seen = 0;
        for p in [
            "<@>", "<a@></a@>", "<scrip@>", "<script></scrip@>", "<b@>", "<lin@>", "<sty@e>", "</@>", "<a></@>", "<a b=@></a>", "<a @=b></a>",
            "&@;", "&#@;", "&#x@;", "@&lt;", "<!@octype html>", "<!doctyp@ html>", "<!--@-->", "<a b='@&amp@'></a>",
        ] {
            let d = p.replace('@', c.encode_utf8(&mut [0; 4]));
            at(&d);
            seen += brief(&d);
            cx.evals += 1;
        }
        let d = format!("<{c}><a{c} {c}={c} b='{c}'>{c}&{c};&#{c};</a{c}><!--{c}-->");
        at(&d);
        seen += brief_lenient(&d);
        let d = format!("<a b='{c}'>{c}<![CDATA[{c}]]><a{c}/></a>");
        at(&d);
        seen += brief_xml(d.as_bytes());
        cx.eval(d.as_bytes(), true);
        cx.count("scalar values tried", 1);
        cx.count("nodes visited", seen);
    }
    Ok(())
}

fn c18_unicode(cx: &mut Cx) -> Res {
    for k in 0..9 {
        let n = cx.rng.small(300) + 1;
        let bits = if k % 3 == 2 { XML_BITS } else { HTML_BITS };
        let d: String = (0..n)
            .map(|_| if cx.rng.pct(25) { cx.rng.pick(bits).to_string() } else { lenient::any_char(&mut cx.rng).to_string() })
            .collect();
        survive(cx, &make(k, d))?;
    }
    Ok(())
}

fn c18_truncate(cx: &mut Cx) -> Res {
    let kind = (cx.idx % 3) as usize;
    let i = loop {
        let i = work::input(&mut cx.rng, 12, kind, None);
        if i.bytes().len() < 1500 {
            break i;
        }
    };
    let b = i.bytes().to_vec();
    for n in 0..b.len() {
        match std::str::from_utf8(&b[..n]) {
            Ok(s) => {
                at(s);
                let seen = match kind {
                    0 => brief(s),
                    1 => brief_lenient(s),
                    _ => brief_xml(s.as_bytes()),
                };
                cx.count("nodes visited", seen);
            }
            Err(_) if kind == 2 => {
                at(&format!("{:02x?}", &b[..n]));
                brief_xml(&b[..n]);
            }
            Err(_) => continue,
        }
        cx.eval(&b[..n], n > 1);
        cx.count("truncations", 1);
    }
    Ok(())
}

fn c18_mutants(cx: &mut Cx) -> Res {
    for k in 0..9 {
        let i = work::input(&mut cx.rng, 40, k, None);
        let i = match i {
            In::Strict(s) => In::Strict(html::mutate(&mut cx.rng, &s)),
            In::Lenient(s) => In::Lenient(html::mutate(&mut cx.rng, &s)),
            In::Xml(mut b) => {
                for _ in 0..cx.rng.range(1, 6) {
                    let p = cx.rng.below(b.len() + 1);
                    if cx.rng.pct(50) {
                        let w = cx.rng.pick(XML_BITS).bytes().collect::<Vec<u8>>();
                        b.splice(p..p, w);
                    } else {
                        let q = (p + cx.rng.below(20)).min(b.len());
                        b.drain(p..q);
                    }
                }
                In::Xml(b)
            }
        };
        cx.sample(|| i.show());
        survive(cx, &i)?;
    }
    Ok(())
}

fn c18_bytes(cx: &mut Cx) -> Res {
    for k in 0..12 {
        let mut b: Vec<u8>;
        match k % 4 {
            0 => {
                b = (0..cx.rng.small(300)).map(|_| cx.rng.next() as u8).collect();
            }
            1 => {
                // another encoding, declared or not
                let d = match work::input(&mut cx.rng, 15, 2, None) {
                    In::Xml(b) => String::from_utf8_lossy(&b).into_owned(),
                    _ => unreachable!(),
                };
                let be = cx.rng.pct(50);
                b = vec![];
                if cx.rng.pct(60) {
                    b.extend(if be { [0xfe, 0xff] } else { [0xff, 0xfe] });
                }
                for u in d.encode_utf16() {
                    b.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
                }
                if cx.rng.pct(30) {
                    let n = cx.rng.below(b.len() + 1);
                    b.truncate(n);
                }
                if cx.rng.pct(30) && b.len() > 4 {
                    let p = cx.rng.below(b.len());
                    b[p] = 0xd8;
                }
            }
            2 => {
                let enc = cx.rng.pick(&["UTF-8", "ISO-8859-1", "latin1", "us-ascii", "UTF-16", "UTF-16LE", "utf-32", "x-none", "", "é"]);
                b = format!("<?xml version='1.0' encoding='{enc}'?><a b='").into_bytes();
                b.extend((0..cx.rng.below(40)).map(|_| cx.rng.range(0x28, 0xff) as u8));
                b.extend(b"'>\xe9\xff\xc3");
                b.extend(b"</a>");
            }
            _ => {
                b = work::input(&mut cx.rng, 30, 2, None).bytes().to_vec();
                for _ in 0..cx.rng.range(1, 4) {
                    let p = cx.rng.below(b.len());
                    b[p] = *cx.rng.pick(&[0, 0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xf8, 0xfe, 0xff, b'<', b'&', b']']);
                }
            }
        }
        cx.count("byte streams", 1);
        survive(cx, &In::Xml(b))?;
    }
    Ok(())
}

fn c18_numbers(cx: &mut Cx) -> Res {
    for _ in 0..30 {
        let big = match cx.rng.below(5) {
            0 => format!("#{}", cx.rng.next()),
            1 => format!("#x{:x}", cx.rng.next()),
            2 => format!("#{}{}", "0".repeat(cx.rng.below(40)), cx.rng.next() % 0x12_0000),
            3 => format!("#X{}{:X}", "0".repeat(cx.rng.below(40)), cx.rng.next() % 0x12_0000),
            _ => format!("#{}{}", cx.rng.pick(&["", "x", "-", "+", "x+", "x-"]), "9".repeat(cx.rng.range(1, 60))),
        };
        let end = cx.rng.pick(&[";", "", " ", "&", "<"]);
        let d = format!("<a b='&{big}{end}'>&{big};x&{big}</a>");
        at(&d);
        let n = brief(&d) + brief_lenient(&d) + brief_xml(d.as_bytes());
        cx.count("nodes visited", n);
        cx.count("numeric references", 3);
        cx.eval(d.as_bytes(), true);
    }
    Ok(())
}

/// (name, parser, opening, closing)
const DEEP: &[(&str, usize, &str, &str)] = &[
    ("strict <a>", 0, "<a>", "</a>"),
    ("lenient <div>", 1, "<div>", "</div>"),
    ("XML <a>", 2, "<a>", "</a>"),
    ("strict with attributes and text", 0, "x<div class='y' id=z>", "<br></div>"),
    ("strict never closed", 0, "<a>", ""),
    ("strict closed wrongly", 0, "<a>", "</b>"),
    ("strict raw names unclosed", 0, "<script>", ""),
    ("strict alternating names", 0, "<ul><li>", "</li></ul>"),
    ("lenient never closed", 1, "<div>", ""),
    ("lenient formatting", 1, "<b><i>", ""),
    ("lenient lists", 1, "<ul><li>", "</li></ul>"),
    ("lenient svg", 1, "<svg><g>", "</g></svg>"),
    ("XML with attributes and text", 2, "x<b c='d'>", "<e/></b>"),
    ("XML namespaces", 2, "<p:a xmlns:p='u'>", "</p:a>"),
    ("XML never closed", 2, "<a>", ""),
    ("XML closed wrongly", 2, "<a>", "</b>"),
];
/// (name, parser, before, repeated, after)
const WIDE: &[(&str, usize, &str, &str, &str)] = &[
    ("strict siblings", 0, "", "<a>x</a>", ""),
    ("strict void siblings", 0, "<a>", "<br>", "</a>"),
    ("strict texts and comments", 0, "", "x<!-- y -->", ""),
    ("strict attributes", 0, "<a", " b@=c", "></a>"),
    ("strict references", 0, "<a b='", "&lt;&#65;", "'></a>"),
    ("strict one text", 0, "", "abc & ", ""),
    ("strict one tag name", 0, "<a", "bc", "/>"),
    ("strict script", 0, "<script>", "a </ b", "</script>"),
    ("strict broken at the end", 0, "", "<a>x</a>", "<"),
    ("lenient siblings", 1, "", "<p>x", ""),
    ("lenient texts", 1, "", "x<br>", ""),
    ("lenient closing tags", 1, "", "</p>", ""),
    ("lenient references", 1, "", "&lt;&#65;", ""),
    ("XML siblings", 2, "<r>", "<a>x</a>", "</r>"),
    ("XML text", 2, "<r>", "abc &amp; ", "</r>"),
    ("XML comments", 2, "<r>", "<!-- x --><?p y?><![CDATA[z]]>", "</r>"),
];

fn wide_doc(w: &(&str, usize, &str, &str, &str), n: usize) -> String {
    let mut d = w.2.to_string();
    for k in 0..n {
        if w.3.contains('@') {
            d.push_str(&w.3.replace('@', &k.to_string()));
        } else {
            d.push_str(w.3);
        }
    }
    d.push_str(w.4);
    d
}

/// Compares the nodes from the top down.
fn same<N: Node + PartialEq>(a: &Soup<N>, b: &Soup<N>) -> bool {
    a.strict().all().zip(b.strict().all()).all(|(x, y)| *x == *y)
}

/// Queries by every kind of pattern, made from what the soup holds and from strings close to it.
fn quiz<N: Good, W: Pattern<N::Text> + From<P> + 'static>(s: &Soup<N>) -> usize {
    let mut words: Vec<String> = vec![String::new(), "a".into()];
    for i in s.iter().take(40) {
        words.extend(i.name().map(|s| s.as_ref().to_string()));
        for (k, v) in i.attrs().into_iter().flatten().take(4) {
            words.extend([k.as_ref().to_string(), v.as_ref().to_string()]);
        }
    }
    words.sort_unstable();
    words.dedup();
    words.truncate(12);
    let yes = || W::from(P::Bool(true));
    let mut n = 0;
    for w in &words {
        let mut near = vec![w.clone(), format!("{w}x"), format!("é{w}"), w.to_uppercase(), w.trim().to_string()];
        if let Some((i, _)) = w.char_indices().last() {
            near.push(w[..i].to_string());
            near.push(w.chars().skip(1).collect());
        }
        for w in near {
            let p = |k: usize| -> W { [P::Str, P::Owned, P::CowB, P::CowO][k](w.clone()).into() };
            n += s.tag(p(0)).all().count() + s.strict().tag(p(1)).all().count() + s.attr(p(0), yes()).all().count();
            n += s.attr(yes(), p(2)).all().count() + s.attr(yes(), p(1)).all().count() + s.attr(p(1), p(3)).all().count();
            n += s.attr(W::from(P::Str("class".into())), p(0)).all().count();
            n += s.iter().filter(|i| i.get(forever(&w)).is_some()).count();
        }
        let end: String = w.chars().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect();
        let end = regex::escape(&end);
        for r in [format!("{end}$"), format!("^{end}"), format!("(?i){end}"), "^$".into(), "[^a-z]".into(), "nothing".into()] {
            let r = regex::Regex::new(&r).unwrap();
            let p = || W::from(P::Re(r.clone()));
            n += s.tag(p()).all().count() + s.attr(p(), p()).all().count() + s.strict().attr(yes(), p()).all().count();
        }
    }
    n
}

/// Names, values, texts of critical lengths, with characters of every width on every byte.
fn c18_lengths(cx: &mut Cx) -> Res {
    let v = super::queries::VAST;
    let n = v[cx.idx as usize % v.len()];
    let unit = ["é", "中", "🦀", "aé", "ſß", "İ"][cx.idx as usize / v.len() % 6];
    let mut seen = 0;
    for lead in ["", "b", "bc", "bcd"] {
        for tail in ["", "z"] {
            let mut w: String = lead.to_string();
            while w.len() < n {
                w.push_str(unit);
            }
            w.push_str(tail);
            for d in [
                format!("<a b='{w}' class=\"{w}\">{w}</a><!--{w}-->"),
                format!("<x{w} {w}=v></x{w}>"),
                format!("<a b='&eacute;{w}&eacute;' {w}>&#233;{w}</a><script>{w}</script><!doctype {w}>"),
                format!("<a>{w}"),
            ] {
                at(&clip(&d));
                if let Ok(s) = Soup::html_strict(forever(&d)) {
                    seen += quiz::<_, Pat>(&s) + s.iter().count();
                }
                if n < 5000 || cx.idx % 3 == 0 {
                    let s = Soup::html(&d);
                    seen += quiz::<_, PatO>(&s) + s.iter().count();
                }
                if let Ok(s) = Soup::xml(d.replace("&eacute;", "&#xe9;").as_bytes()) {
                    seen += quiz::<_, PatO>(&s) + s.iter().count();
                }
                cx.eval(d.as_bytes(), true);
                cx.count("strings of critical lengths", 1);
            }
        }
    }
    cx.count("nodes visited", seen as u64);
    Ok(())
}

fn walk<N: Node + Clone + PartialEq>(s: Soup<N>) -> usize
where
    N::Text: std::fmt::Display + Ord + AsRef<str> + From<&'static str>,
{
    let n = s.iter().count();
    // queries that reject everything, or all but the last
    let none = [
        s.tag("none").all().count(),
        s.attr("none", true).all().count(),
        s.attr(true, "none").all().count(),
        s.attr_name("none").all().count(),
        s.attr_value(regex::Regex::new("^none$").unwrap()).all().count(),
        s.class("none").all().count(),
        s.strict().tag("none").all().count(),
        s.strict().class("none").all().count(),
        s.tag(false).tag(true).all().count(),
        usize::from(s.tag("none").first().is_some()),
        usize::from(s.strict().tag("none").first().is_some()),
        usize::from(s.tag("none").all().last().is_some()),
    ];
    assert!(none == [0; 12], "a query for what is not there gives {none:?}");
    let v: Vec<_> = s.iter().collect();
    assert!(s.iter().nth(n).is_none() && v.len() == n, "iterating gives other numbers");
    drop(v);
    let t: usize = s.strict().all().map(|i| i.all_text().len()).sum();
    let c = s.clone();
    assert!(same(&c, &s), "a clone differs");
    let last = s.iter().last().map(|i| i.query());
    drop(s);
    let sub = c.strict().all().next().map(|i| i.query());
    let m = sub.as_ref().map_or(0, |s| s.iter().count());
    drop((c, last, sub));
    n + t.min(1) + m.min(1)
}

/// stack deep|wide WHICH N KIB
pub fn stack(a: &[String]) -> i32 {
    let which: usize = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let kib: usize = a[3].parse().unwrap();
    let (kind, doc) = if a[0] == "deep" {
        let d = DEEP[which];
        (d.1, d.2.repeat(n) + &d.3.repeat(n))
    } else {
        (WIDE[which].1, wide_doc(&WIDE[which], n))
    };
    let h = std::thread::Builder::new()
        .stack_size(kib << 10)
        .spawn(move || match kind {
            0 => match Soup::html_strict(forever(&doc)) {
                Ok(s) => walk(s),
                Err(e) => usize::from(e.to_string().is_empty()),
            },
            1 => walk(Soup::html(&doc)),
            _ => match Soup::xml(doc.as_bytes()) {
                Ok(s) => walk(s),
                Err(e) => usize::from(e.to_string().is_empty()),
            },
        })
        .unwrap();
    match h.join() {
        Ok(n) => {
            println!("nodes {n}");
            0
        }
        Err(_) => 66,
    }
}

fn stack_child(exe: Option<&str>, a: &[&str]) -> Result<child::Done, String> {
    let mut v = vec!["plain".to_string(), "stack".to_string()];
    v.extend(a.iter().map(ToString::to_string));
    at(&v.join(" "));
    let c = match exe {
        Some(e) => {
            let mut c = std::process::Command::new(e);
            c.args(&v);
            c
        }
        None => child::own(&v),
    };
    let d = child::run(c, 100, 300, 60).unwrap_or_else(|e| panic!("{e}"));
    if d.late || d.code == Some(3) || d.code == Some(101) {
        panic!("soupmon {}: {}", v.join(" "), d.tail());
    }
    Ok(d)
}

fn nodes(d: &child::Done) -> u64 {
    d.out.trim().strip_prefix("nodes ").and_then(|n| n.parse().ok()).unwrap_or(0)
}

fn c18_depth(cx: &mut Cx) -> Res {
    depth(cx, None, 400)
}
fn depth(cx: &mut Cx, exe: Option<&str>, n: usize) -> Res {
    let w = cx.idx as usize % DEEP.len();
    let s = DEEP[w];
    // shapes that open two elements at a time get half as many
    let per = s.2.matches('<').count();
    let n = n / per;
    let d = stack_child(exe, &["deep", &w.to_string(), &n.to_string(), "2048"])?;
    ensure!(
        d.ok(),
        "{}: {} nested elements on a stack of 2 MiB (the default of threads): {}\ninput: {:?} x {n}, {:?} x {n}",
        s.0,
        n * per,
        d.tail(),
        s.2,
        s.3
    );
    cx.count("nested documents on a 2 MiB stack", 1);
    cx.count("nodes visited", nodes(&d));
    cx.eval(s.0.as_bytes(), true);
    cx.sample(|| format!("{} x {n}: {} nodes", s.2, nodes(&d)));
    Ok(())
}

fn c18_wide(cx: &mut Cx) -> Res {
    wide(cx, None, 70_000)
}
/// The same without optimisation: calls in tail position use the stack.
fn c18_unoptimised(cx: &mut Cx) -> Res {
    let Ok(e) = std::env::var("SOUPMON_DBG") else { return Ok(()) };
    wide(cx, Some(&e), 40_000)?;
    depth(cx, Some(&e), 80)?;
    cx.count("wide documents in a build without optimisation", 1);
    Ok(())
}
fn wide(cx: &mut Cx, exe: Option<&str>, n: usize) -> Res {
    let w = cx.idx as usize % WIDE.len();
    let s = WIDE[w];
    let d = stack_child(exe, &["wide", &w.to_string(), &n.to_string(), "2048"])?;
    ensure!(
        d.ok(),
        "{}: on a stack of 2 MiB (the default of threads): {}\ninput: {:?}, {:?} x {n}, {:?}",
        s.0,
        d.tail(),
        s.2,
        s.3,
        s.4
    );
    cx.count("wide documents on a 2 MiB stack", 1);
    cx.count("nodes visited", nodes(&d));
    cx.eval(s.0.as_bytes(), true);
    Ok(())
}

/// Nesting without bound: known to overflow the stack, so each input has a name.
fn c18_abyss(cx: &mut Cx) -> Res {
    let w = cx.idx as usize % 3;
    let s = DEEP[w];
    // html5ever looks through all open elements at each <div>
    let n = [100_000, 30_000, 100_000][w];
    let d = stack_child(None, &["deep", &w.to_string(), &n.to_string(), "8192"])?;
    cx.eval(s.0.as_bytes(), true);
    if d.ok() {
        cx.count("documents nested without measure that return", 1);
        return Ok(());
    }
    let what = format!("{}: {n} nested elements: {}", s.0, d.tail());
    ensure!(d.signal.is_some() && d.err.contains("overflowed its stack"), "{what}");
    cx.count("documents nested without measure that overflow the stack", 1);
    cx.finding(
        format!("stack overflow: {} nested {n} deep", s.0),
        format!("{} nested {n} deep overflows a stack of 8 MiB and aborts the process", s.0),
    );
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        families: vec![
            fam("depth", DEEP.len() as u64, DEEP.len() as u64, c18_depth),
            fam("wide", WIDE.len() as u64, WIDE.len() as u64, c18_wide),
            fam("unoptimised", WIDE.len() as u64, WIDE.len() as u64, c18_unoptimised),
            fam("abyss", 3, 3, c18_abyss),
            fam("places", ODD.len() as u64 + 150, 30_000, c18_places),
            fam("scalars", 10, 0x1100, c18_scalars),
            fam("lengths", 84, 840, c18_lengths),
            fam("tokens", 7500, 500_000, c18_tokens),
            fam("unicode", 2100, 200_000, c18_unicode),
            fam("truncate", 900, 40_000, c18_truncate),
            fam("mutants", 3000, 250_000, c18_mutants),
            fam("bytes", 2000, 150_000, c18_bytes),
            fam("numbers", 600, 20_000, c18_numbers),
        ],
        need: vec![
            ("nested documents on a 2 MiB stack", 16),
            ("wide documents on a 2 MiB stack", 32),
            ("wide documents in a build without optimisation", 16),
            ("characters or strings put in every place", 400),
            ("scalar values tried", 2000),
            ("strict HTML inputs", 6_000),
            ("lenient HTML inputs", 6_000),
            ("XML inputs", 8_000),
            ("byte streams", 5_000),
            ("truncations", 40_000),
            ("parses that returned an error", 5000),
            ("parses that returned a tree", 8_000),
            ("nodes visited", 500_000),
            ("query results looked at", 25_000),
        ],
        rule: "one input to a parser, followed by traversal, queries, clones, sub-queries and drops of what it returns; non-trivial if longer than one byte; distinct by input",
        assumptions: vec![
            "an execution that uses more than 60 s of processor time for one batch of small inputs would never end",
            "the stack margin for nested documents is that of the harness's build profile (opt-level 2); wide ones are also run in a build without optimisation",
        ],
    }
}

// ---------------------------------------------------------------------- C19

/// A family of documents of any size.
struct Grow {
    name: &'static str,
    kind: usize,
    /// before, repeated (with @ = a number), after
    doc: [&'static str; 3],
}
const fn g(name: &'static str, kind: usize, doc: [&'static str; 3]) -> Grow {
    Grow { name, kind, doc }
}

const GROW: &[Grow] = &[
    g("siblings", 0, ["", "<a b=c>x</a>", ""]),
    g("children", 0, ["<r>", "<a><b>x</b></a>", "</r>"]),
    g("mixed children", 0, ["<r>", "x<br><i class='c d'>y</i><!-- z -->", "</r>"]),
    g("empty elements", 0, ["", "<a></a>", ""]),
    g("self-closed", 0, ["<r>", "<a/>", "</r>"]),
    g("voids", 0, ["", "<br><img src=@>", ""]),
    g("comments", 0, ["", "<!-- a - b -- c -->", ""]),
    g("one comment", 0, ["<!--", "a - b -- c < > ", "-->"]),
    g("comment never closed", 0, ["", "<!-- a ", ""]),
    g("doctypes", 0, ["", "<!doctype x>", ""]),
    g("one text", 0, ["", "lorem ipsum ", ""]),
    g("one text without spaces", 0, ["<a>", "x", "</a>"]),
    g("whitespace", 0, ["<a>", "\n  ", "</a>"]),
    g("references", 0, ["", "&lt;&eacute;&#233;&#xe9;", ""]),
    g("references in an attribute", 0, ["<a b='", "&lt;&eacute;&#233;&#xe9;", "'></a>"]),
    g("unknown references", 0, ["", "&nosuch;&#;&#x;&#xD800;", ""]),
    g("unfinished references", 0, ["", "&am", ""]),
    g("unfinished numeric references", 0, ["", "&#1&#x2", ""]),
    g("ampersands", 0, ["", "&", ""]),
    g("ampersands in an attribute", 0, ["<a b='", "&", "'></a>"]),
    g("one long reference name", 0, ["&", "ab", ";"]),
    g("one long number", 0, ["&#", "12", ";"]),
    g("one long hexadecimal number", 0, ["&#x", "ab", ";"]),
    g("one long unfinished number", 0, ["&#", "12", ""]),
    g("one attribute value", 0, ["<a b=\"", "value ' < > ", "\"></a>"]),
    g("one unquoted value", 0, ["<a b=", "value", "></a>"]),
    g("one attribute name", 0, ["<a ", "name", "=x></a>"]),
    g("many attributes", 0, ["<a", " n@='v@'", "></a>"]),
    g("many unquoted attributes", 0, ["<a", " n@=v@", "></a>"]),
    g("many empty attributes", 0, ["<a", " n@", "></a>"]),
    g("the same attribute", 0, ["<a", " n='v'", "></a>"]),
    g("attributes in elements", 0, ["", "<a n1='x' n2=y n3 n4=\"z\"></a>", ""]),
    g("whitespace in a tag", 0, ["<a", " \n\t", "b=c></a>"]),
    g("whitespace around =", 0, ["<a b", " \n", "= c></a>"]),
    g("whitespace before each attribute", 0, ["<a", "    \n    b=c", "></a>"]),
    g("one tag name", 0, ["<", "abc", "/>"]),
    g("distinct tag names", 0, ["", "<t@>x</t@>", ""]),
    g("scripts", 0, ["", "<script>if (a < b) {}</script>", ""]),
    g("one script", 0, ["<script>", "if (a < b) {} ", "</script>"]),
    g("closing tags in a script", 0, ["<script>", "</b> </scrip> </", "</script>"]),
    g("script endings with spaces", 0, ["<script>", "</script x", "</script>"]),
    g("script endings with whitespace", 0, ["<script></script", " ", "x</script>"]),
    g("script never closed", 0, ["<script>", "a </b ", ""]),
    g("style never closed between elements", 0, ["<a>", "<b>x</b></", ""]),
    g("scripts closed in upper case", 0, ["", "<SCRIPT>x</script >", ""]),
    g("spaces before >", 0, ["", "<a ></a >", ""]),
    g("bad end", 0, ["", "<a>x</a>", "</b>"]),
    g("bad end inside", 0, ["<r>", "<a>x</a>", "</s>"]),
    g("attribute never closed", 0, ["<a b='", "x>y</a> ", ""]),
    g("attributes never closed", 0, ["", "<a b='c' d=\"", ""]),
    g("quotes", 0, ["<a ", "b='c\"d' e=\"f'g\" ", "></a>"]),
    g("less-than", 0, ["", "a < b ", ""]),
    g("greater-than", 0, ["", "a > b ", ""]),
    g("multi-byte text", 0, ["", "日本語🦀é", ""]),
    g("carriage returns", 0, ["<a>", "x\r\n", "</a>"]),
    g("siblings", 1, ["", "<a b=c>x</a>", ""]),
    g("paragraphs", 1, ["", "<p>x", ""]),
    g("lists", 1, ["<ul>", "<li>x", "</ul>"]),
    g("table rows", 1, ["<table>", "<tr><td>x<td>y", "</table>"]),
    g("stray text in a table", 1, ["<table>", "x<tr>", "</table>"]),
    g("stray closing tags", 1, ["", "</b></p></a>", ""]),
    g("formatting", 1, ["", "<b>x</b><i>y</i>", ""]),
    g("misnested formatting", 1, ["", "<b><i>x</b></i>", ""]),
    g("references", 1, ["", "&lt;&eacute;&#233;&notit;", ""]),
    g("ampersands", 1, ["", "&", ""]),
    g("text", 1, ["", "lorem ipsum ", ""]),
    g("text and breaks", 1, ["", "x<br>", ""]),
    g("comments", 1, ["", "<!-- a -->", ""]),
    g("comment never closed", 1, ["<!--", "a ", ""]),
    g("script never closed", 1, ["<script>", "a </b ", ""]),
    g("scripts", 1, ["", "<script>a</script>", ""]),
    g("voids", 1, ["", "<hr><img src=@>", ""]),
    g("one attribute value", 1, ["<a b='", "value ", "'>"]),
    g("attributes in elements", 1, ["", "<a n1='x' n2=y n3 n4=\"z\"></a>", ""]),
    g("options", 1, ["<select>", "<option>x", "</select>"]),
    g("svg", 1, ["<svg>", "<path d='M0 0'/><g></g>", "</svg>"]),
    g("doctypes", 1, ["", "<!doctype x>", ""]),
    g("whitespace", 1, ["", " \n", ""]),
    g("nul characters", 1, ["", "\0x", ""]),
    g("siblings", 2, ["<r>", "<a b='c'>x</a>", "</r>"]),
    g("empty elements", 2, ["<r>", "<a/>", "</r>"]),
    g("text", 2, ["<r>", "lorem ipsum ", "</r>"]),
    g("references", 2, ["<r>", "&lt;&#233;&#xe9;", "</r>"]),
    g("references in an attribute", 2, ["<r a='", "&lt;&#233;", "'/>"]),
    g("CDATA", 2, ["<r>", "<![CDATA[a < b]]>", "</r>"]),
    g("one CDATA", 2, ["<r><![CDATA[", "a ] b ]] c > ", "]]></r>"]),
    g("text and CDATA", 2, ["<r>", "x<![CDATA[y]]>", "</r>"]),
    g("comments", 2, ["<r>", "<!-- a - b -->", "</r>"]),
    g("processing instructions", 2, ["<r>", "<?p a ? b?>", "</r>"]),
    g("namespaces", 2, ["<r xmlns:p='u'>", "<p:a p:b='c'/>", "</r>"]),
    g("one attribute value", 2, ["<r a='", "value ", "'/>"]),
    g("whitespace", 2, ["<r>", " \n", "</r>"]),
    g("whitespace between elements", 2, ["<r>", "\n  <a>\n  </a>", "</r>"]),
    g("never closed", 2, ["<r>", "<a/>", ""]),
    g("several roots", 2, ["", "<a/>", ""]),
    g("document type", 2, ["<!DOCTYPE r [", "<!ELEMENT a ANY>", "]><r/>"]),
    g("attributes in elements", 2, ["<r>", "<a n1='x' n2='y'/>", "</r>"]),
    g("distinct names", 2, ["<r>", "<t@ a@='x'/>", "</r>"]),
];

fn fill(before: &str, unit: &str, after: &str, size: usize) -> String {
    let mut d = String::with_capacity(size + 64);
    d.push_str(before);
    let mut k = 0usize;
    if unit.contains('@') {
        while d.len() < size {
            d.push_str(&unit.replace('@', &k.to_string()));
            k += 1;
        }
    } else {
        while d.len() < size {
            d.push_str(unit);
        }
    }
    d.push_str(after);
    d
}

/// A block repeated, made from a seed.
fn random_block(seed: u64) -> (usize, [String; 3]) {
    let mut rng = Rng::new(seed);
    let kind = rng.below(3);
    let mut unit = String::new();
    match kind {
        0 | 1 => {
            let mut cfg = html::Cfg::any(&mut rng);
            cfg.nodes = rng.range(1, 14);
            cfg.text = cfg.text.min(30);
            while unit.trim().len() < 4 {
                let t = if kind == 1 && rng.pct(50) { page::page(&mut rng, 10, false) } else { html::forest(&mut rng, &cfg) };
                unit = html::spell(&mut rng, &t, 20, kind == 1).0;
            }
            if kind == 1 && rng.pct(40) {
                unit = html::mutate(&mut rng, &unit);
            }
            unit = unit.replace('@', "a").replace("plaintext", "p");
        }
        _ => {
            let mut c = xmlm::Cfg::any(&mut rng);
            c.nodes = rng.range(1, 10);
            let d = xmlm::doc(&mut rng, c).bytes;
            unit = String::from_utf8_lossy(&d).replace('@', "a");
            // the element alone
            if let Some(p) = unit.find("?>") {
                if unit.starts_with("<?xml") || unit.starts_with("\u{feff}<?xml") {
                    unit = unit[p + 2..].to_string();
                }
            }
        }
    }
    if unit.trim().is_empty() {
        unit.push_str("<e/>");
    }
    let (b, a) = match (kind, rng.below(4)) {
        (0, 0) => ("<r>", "</r>"),
        (0, 1) => ("", "</x>"),
        (0, 2) => ("<a b='", "'></a>"),
        (0, _) => ("", ""),
        (1, 0) => ("<body><div>", "</div>"),
        (1, _) => ("", ""),
        (_, 0) => ("<r>", ""),
        (_, _) => ("<r>", "</r>"),
    };
    if b.ends_with('\'') {
        unit = unit.replace('\'', "\"");
    }
    (kind, [b.to_string(), unit, a.to_string()])
}

/// What a family stands for: kind and document.
fn document(fam: usize, seed: u64, size: usize) -> (usize, String) {
    if fam < GROW.len() {
        let g = &GROW[fam];
        (g.kind, fill(g.doc[0], g.doc[1], g.doc[2], size))
    } else {
        let (k, d) = random_block(seed);
        (k, fill(&d[0], &d[1], &d[2], size))
    }
}
fn family_name(fam: usize, seed: u64) -> String {
    const K: [&str; 3] = ["strict HTML", "lenient HTML", "XML"];
    if fam < GROW.len() {
        let g = &GROW[fam];
        format!("{}, {}: {:?}, repeated {:?}, {:?}", K[g.kind], g.name, g.doc[0], g.doc[1], g.doc[2])
    } else {
        let (k, d) = random_block(seed);
        format!("{}, random block: {:?}, repeated {}, {:?}", K[k], d[0], clip(&d[1]), d[2])
    }
}

const PHASES: [&str; 8] = ["parse", "traverse", "query", "text", "subquery", "clone", "compare", "drop"];

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    secs: f64,
    count: u64,
    bytes: u64,
    peak: i64,
    nodes: usize,
}

fn tree_depth<N: Node>(n: &N) -> usize {
    1 + n.children().iter().map(tree_depth).max().unwrap_or(0)
}

/// The phases one after the other, each measured.
fn phases<N, P>(parse: P, stop: usize, max_depth: usize, rx: &regex::Regex) -> Option<Vec<Cost>>
where
    N: Node + Clone + PartialEq,
    N::Text: std::fmt::Display + AsRef<str> + Ord + From<&'static str>,
    P: FnOnce() -> Option<Soup<N>>,
    regex::Regex: soupy::Pattern<N::Text>,
{
    let mut out = vec![];
    let mut measure = |f: &mut dyn FnMut() -> usize| {
        let a = mem::now();
        let base = mem::reset_peak();
        let t = cpu();
        let nodes = if out.len() == COUNTED.load(Relaxed) { soupmon_counted(f) } else { f() };
        let secs = cpu() - t;
        let b = mem::now();
        out.push(Cost { secs, count: b.count - a.count, bytes: b.bytes - a.bytes, peak: mem::peak() - base, nodes });
    };
    let mut soup = None;
    let mut parse = Some(parse);
    measure(&mut || {
        soup = (parse.take().unwrap())();
        soup.is_some().into()
    });
    let Some(soup) = soup else { return Some(out) };
    let depth = soup.strict().all().map(|i| tree_depth(&*i)).max().unwrap_or(0);
    if depth > max_depth {
        return None;
    }
    if stop > 1 {
        measure(&mut || soup.iter().count());
    }
    if stop > 2 {
        measure(&mut || {
            let mut n = soup.tag(true).all().count();
            n += soup.attr_name("b").all().count();
            n += soup.attr_value("c").all().count();
            n += soup.strict().class("c d").all().count();
            n += soup.tag("a").attr("b", "c").all().count();
            n += soup.attr(rx.clone(), rx.clone()).all().count();
            n += soup.tag(rx.clone()).class("x").recursive().all().count();
            n += usize::from(soup.tag("nosuch").first().is_some());
            n
        });
    }
    if stop > 3 {
        measure(&mut || soup.strict().all().map(|i| i.all_text().len()).sum());
    }
    if stop > 4 {
        measure(&mut || soup.strict().all().map(|i| i.query().tag(true).all().count()).sum());
    }
    let mut copy = None;
    if stop > 5 {
        measure(&mut || {
            copy = Some(soup.clone());
            1
        });
    }
    if stop > 6 {
        measure(&mut || usize::from(same(copy.as_ref().unwrap(), &soup)));
    }
    if stop > 7 {
        measure(&mut || {
            drop(copy.take());
            1
        });
    }
    Some(out)
}

fn rx() -> &'static regex::Regex {
    static R: OnceLock<regex::Regex> = OnceLock::new();
    R.get_or_init(|| regex::Regex::new("^[bn]|q$").unwrap())
}

const MAX_DEPTH: usize = 64;

fn cost(kind: usize, doc: &str, stop: usize) -> Option<Vec<Cost>> {
    match kind {
        0 => phases::<HTMLNode<Cow<'static, str>>, _>(|| Soup::html_strict(forever(doc)).ok(), stop, MAX_DEPTH, rx()),
        1 => {
            // a tree of unbounded depth is outside of the property
            phases(|| Some(Soup::html(doc)), stop, MAX_DEPTH, rx())
        }
        _ => {
            // what xmltree keeps is the question, not how slices are read
            struct R<'a>(&'a [u8]);
            impl Read for R<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    self.0.read(b)
                }
            }
            phases::<XMLNode, _>(|| Soup::xml(R(doc.as_bytes())).ok(), stop, MAX_DEPTH, rx())
        }
    }
}

/// grow FAMILY SEED SIZE PHASE: executes up to that phase, for counting instructions
pub fn grow(a: &[String]) -> i32 {
    let n: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
    let phase = n[3] as usize;
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let (kind, doc) = document(n[0] as usize, n[1], n[2] as usize);
            let _ = rx().is_match("b");
            COUNTED.store(phase, Relaxed);
            match cost(kind, &doc, phase + 1) {
                Some(c) => println!("phases {} bytes {}", c.len(), doc.len()),
                None => println!("phases -1 bytes {}", doc.len()),
            }
        })
        .unwrap()
        .join()
        .map_or(66, |()| 0)
}

/// The phase to be executed inside of `soupmon_counted`.
static COUNTED: AtomicUsize = AtomicUsize::new(usize::MAX);

#[no_mangle]
#[inline(never)]
fn soupmon_counted(f: &mut dyn FnMut() -> usize) -> usize {
    std::hint::black_box(f())
}

/// Instructions executed by one phase.
fn instructions(fam: usize, seed: u64, size: usize, phase: usize) -> Option<u64> {
    let mut c = Command::new("valgrind");
    c.args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "--main-stacksize=8388608", "--max-stackframe=300000000"]);
    c.arg("--toggle-collect=soupmon_counted");
    c.arg(std::env::current_exe().unwrap());
    c.args(["plain", "grow", &fam.to_string(), &seed.to_string(), &size.to_string(), &phase.to_string()]);
    let d = child::run(c, 100, 400, 100).ok()?;
    if !d.ok() {
        return None;
    }
    let l = d.err.lines().find(|l| l.contains("Collected"))?;
    l.rsplit(' ').next()?.parse().ok()
}

/// More than linear in the mean of at least three doublings, if not evenly.
fn steep(n: &[u64]) -> bool {
    let k = n.len() - 1;
    let mean = (n[k] as f64 / n[0] as f64).powf(1.0 / k as f64);
    k >= 3 && mean > 2.6 && n.windows(2).all(|w| w[1] as f64 / w[0] as f64 > 1.9)
}

/// Instructions of one phase at growing sizes; Some(report) if they grow faster than the input.
fn confirm(fam: usize, seed: u64, phase: usize) -> Result<Option<String>, String> {
    let mut last: Vec<u64> = vec![];
    let mut rep = vec![];
    for kb in [32, 64, 128, 256, 512] {
        match instructions(fam, seed, kb << 10, phase) {
            Some(n) => {
                last.push(n.max(1));
                rep.push(format!("{kb} KiB: {n}"));
                if last.len() == 4 && steep(&last) {
                    break;
                }
            }
            None => {
                // too expensive to count: what was counted has to decide
                rep.push(format!("{kb} KiB: more than 100 s under the counter"));
                break;
            }
        }
    }
    if last.len() < 3 {
        return Err(format!("instructions could not be counted: {rep:?}"));
    }
    // doubling the input: 2 if linear, 4 if quadratic; twice in a row
    let n = last.len();
    let r = |k: usize| last[k] as f64 / last[k - 1] as f64;
    let bad = (r(n - 1) > 2.7 && r(n - 2) > 2.2 || steep(&last)) && last[n - 1] > 1_000_000;
    Ok(bad.then(|| format!("instructions executed {rep:?}")))
}

fn c19_judge(cx: &mut Cx, fam: usize, seed: u64) -> Res {
    let name = family_name(fam, seed);
    at(&name);
    let small = 32 << 10;
    let large = 512 << 10;
    let (kind, d0) = document(fam, seed, small);
    let (_, d1) = document(fam, seed, large);
    let scale = d1.len() as f64 / d0.len() as f64;
    let _ = cost(kind, &d0[..0], PHASES.len());
    let best = |doc: &str, times: usize, enough: f64| -> Option<Vec<Cost>> {
        let mut b: Option<Vec<Cost>> = None;
        for _ in 0..times {
            let c = cost(kind, doc, PHASES.len())?;
            let total: f64 = c.iter().map(|c| c.secs).sum();
            b = Some(match b {
                None => c,
                Some(mut b) => {
                    for (x, y) in b.iter_mut().zip(&c) {
                        x.secs = x.secs.min(y.secs);
                    }
                    b
                }
            });
            if total > enough {
                break;
            }
        }
        b
    };
    let Some(a) = best(&d0, 5, 1.0) else {
        cx.count("families not judged (deep trees)", 1);
        return Ok(());
    };
    // a first large run; only a suspicion is measured again
    let Some(mut b) = best(&d1, 1, 0.0) else {
        cx.count("families not judged (deep trees)", 1);
        return Ok(());
    };
    let slow = |a: &Cost, b: &Cost| b.secs > 0.004 && b.secs > 3.5 * scale * a.secs.max(2e-6);
    if a.iter().zip(&b).any(|(a, b)| slow(a, b)) && b.iter().map(|c| c.secs).sum::<f64>() < 5.0 {
        b = best(&d1, 3, 8.0).unwrap_or(b);
    }
    ensure!(a.len() == b.len(), "{name}: parses at {} bytes: {}, at {} bytes: {}", d0.len(), a.len() > 1, d1.len(), b.len() > 1);
    cx.count("growing documents measured", 1);
    cx.count(["strict HTML families", "lenient HTML families", "XML families"][kind], 1);
    if a.len() == 1 {
        cx.count("families that end in an error", 1);
    }
    cx.eval(name.as_bytes(), true);
    let mut worst: f64 = 0.0;
    for (k, (a, b)) in a.iter().zip(&b).enumerate() {
        cx.count("phases measured", 1);
        for (what, x, y) in [
            ("allocations", a.count as f64, b.count as f64),
            ("bytes allocated", a.bytes as f64, b.bytes as f64),
            ("bytes in use at a time", a.peak as f64, b.peak as f64),
        ] {
            worst = worst.max(y / x.max(256.0));
            ensure!(
                y < 1e5 || y <= 2.6 * scale * x.max(256.0),
                "{}: {what} grow from {x} to {y} while the input grows {scale:.1} times ({} to {} bytes)\nfamily: {name}",
                PHASES[k],
                d0.len(),
                d1.len()
            );
        }
        cx.count("allocation growths compared", 3);
        if slow(a, b) {
            cx.count("suspicions counted in instructions", 1);
            if cx.verbose {
                println!("suspicion: {}: {:?} {:?}", PHASES[k], a, b);
            }
            match confirm(fam, seed, k) {
                Ok(None) => {}
                Ok(Some(r)) => {
                    return Err(format!(
                        "{}: work grows faster than the input: {:.1} ms for {} bytes, {:.1} ms for {} bytes; {r}\nfamily: {name}",
                        PHASES[k],
                        a.secs * 1e3,
                        d0.len(),
                        b.secs * 1e3,
                        d1.len()
                    ))
                }
                // minutes for what takes milliseconds sixteen times smaller
                Err(r) if b.secs > 20.0 * scale * a.secs.max(1e-4) && b.secs > 5.0 => {
                    return Err(format!(
                        "{}: {:.1} ms for {} bytes, {:.1} ms for {} bytes; {r}\nfamily: {name}",
                        PHASES[k],
                        a.secs * 1e3,
                        d0.len(),
                        b.secs * 1e3,
                        d1.len()
                    ))
                }
                Err(r) => panic!("{name}: {}: {r}", PHASES[k]),
            }
        }
    }
    cx.sample(|| {
        let t: Vec<String> = b.iter().zip(PHASES).map(|(c, p)| format!("{p} {:.1} ms", c.secs * 1e3)).collect();
        format!("{name}: {} bytes: {}; largest growth of allocation {worst:.1} for {scale:.1}", d1.len(), t.join(", "))
    });
    Ok(())
}

fn c19_families(cx: &mut Cx) -> Res {
    c19_judge(cx, cx.idx as usize % GROW.len(), 0)
}
fn c19_random(cx: &mut Cx) -> Res {
    let seed = cx.rng.next() >> 1;
    c19_judge(cx, GROW.len(), seed)
}

/// Nested shapes of growing depth (at most 64): the cost per level must not multiply.
const NEST: &[(usize, &str, &str, &str)] = &[
    (0, "<a>", "x", "</a>"),
    (0, "<a>", "x", ""),
    (0, "<a>", "x", "</b>"),
    (0, "<a>", "<", "</a>"),
    (0, "<a b='c' d>", "<!--", "</a>"),
    (0, "<a b=c>x", "</", "</a>"),
    (0, "<a><b>", "", "</a></b>"),
    (0, "<a><br>", "<br", "</a>"),
    (0, "<script>", "x", "</script>"),
    (0, "<script>", "x", ""),
    (0, "<style>", "<", "</script>"),
    (0, "<a><script>x</script>", "", "</a>"),
    (0, "<a b='\"' c=\"'\">", "'", "</a>"),
    (0, "<a b='", "x", "'></a>"),
    (0, "<a b", "=", "></a>"),
    (0, "<a ", "b", "/>"),
    (0, "<br>", "x", "</br>"),
    (0, "<col><colgroup>", "x", "</colgroup>"),
    (0, "<!--", "x", "-->"),
    (0, "<!doctype ", "x", ">"),
    (0, "<scripts>", "x", "</scripts>"),
    (0, "<A>", "&amp;&lt", "</a >"),
    (0, "&", "x", ";"),
    (0, "<a>&#", "x", ";</a>"),
    (0, "<ul> <li>", "x", "</li> </ul>"),
    (0, "<ul> <li>", "x", "</li>"),
    (1, "<a>", "x", "</a>"),
    (1, "<div>", "x", "</div>"),
    (1, "<b><p>", "x", "</b></p>"),
    (1, "<table><tr><td>", "x", ""),
    (1, "<table>", "x", "</table>"),
    (1, "<svg>", "<", "</svg>"),
    (1, "<ul><li>", "x", "</ul>"),
    (1, "<select><option>", "x", ""),
    (1, "<form><button>", "x", "</form>"),
    (2, "<a>", "x", "</a>"),
    (2, "<a>", "x", ""),
    (2, "<a>", "x", "</b>"),
    (2, "<a b='c'><!-- x -->", "<", "</a>"),
    (2, "<p:a xmlns:p='u' p:b='c'>", "x", "</p:a>"),
    (2, "<![CDATA[", "x", "]]>"),
    (2, "<a>&lt;", "&", "</a>"),
];

fn nested(s: &(usize, String, String, String), d: usize) -> String {
    format!("{}{}{}", s.1.repeat(d), s.2, s.3.repeat(d))
}

fn judge_nested(cx: &mut Cx, s: &(usize, String, String, String)) -> Res {
    let mut prev: Vec<f64> = vec![];
    let per = s.1.bytes().filter(|b| *b == b'<').count().clamp(1, 4);
    let mut d = 4;
    while d * per <= 64 {
        let doc = nested(s, d);
        at(&doc);
        let run = || -> f64 {
            let t = cpu();
            std::hint::black_box(cost(s.0, &doc, PHASES.len()));
            cpu() - t
        };
        let mut t = run();
        cx.count("nested documents measured", 1);
        cx.eval(doc.as_bytes(), true);
        if t > 0.05 {
            for _ in 0..4 {
                t = t.min(run());
            }
        }
        // some microseconds are usual
        ensure!(
            t < 0.05 || prev.len() < 2 || t < 1.7 * prev[prev.len() - 1] || t < 2.8 * prev[prev.len() - 2],
            "{:.0} ms for {} bytes; with 2 and 4 levels less {:.0} and {:.0} ms\ninput: {}",
            t * 1e3,
            doc.len(),
            prev[prev.len() - 1] * 1e3,
            prev[prev.len() - 2] * 1e3,
            clip(&doc)
        );
        ensure!(t < 3.0, "{:.0} ms for {} bytes\ninput: {}", t * 1e3, doc.len(), clip(&doc));
        prev.push(t);
        d += 2;
    }
    Ok(())
}

fn c19_nested(cx: &mut Cx) -> Res {
    let n = NEST[cx.idx as usize % NEST.len()];
    judge_nested(cx, &(n.0, n.1.into(), n.2.into(), n.3.into()))
}

fn c19_nested_random(cx: &mut Cx) -> Res {
    for k in 0..4 {
        let bits = if k % 3 == 2 { XML_BITS } else { HTML_BITS };
        let part = |cx: &mut Cx, n: usize| -> String { (0..cx.rng.below(n + 1)).map(|_| *cx.rng.pick(bits)).collect() };
        let name = *cx.rng.pick(&["a", "b", "p", "script", "style", "br", "col", "x-y", "li", "table", "colgroup", "A"]);
        let (o, m, c) = if cx.rng.pct(60) {
            let at = part(cx, 2);
            let (l, r) = (part(cx, 1), part(cx, 1));
            let end = if cx.rng.pct(70) { format!("</{name}>") } else { String::new() };
            (format!("{l}<{name} {at}>"), part(cx, 2), format!("{r}{end}"))
        } else {
            (part(cx, 4), part(cx, 3), part(cx, 4))
        };
        if o.is_empty() || k % 3 == 1 && o.contains("plaintext") {
            continue;
        }
        judge_nested(cx, &(k % 3, o, m, c))?;
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        families: vec![
            fam("families", GROW.len() as u64, 4 * GROW.len() as u64, c19_families),
            fam("nested", NEST.len() as u64, NEST.len() as u64, c19_nested),
            fam("random", 240, 12_000, c19_random),
            fam("nested-random", 400, 60_000, c19_nested_random),
        ],
        need: vec![
            ("growing documents measured", 150),
            ("strict HTML families", 60),
            ("lenient HTML families", 30),
            ("XML families", 25),
            ("phases measured", 800),
            ("allocation growths compared", 2400),
            ("nested documents measured", 5000),
        ],
        rule: "a family of documents at two sizes (32 and 512 KiB, depth at most 64), eight phases each, or a nested document at one depth; distinct by family or document",
        assumptions: vec![
            "work is judged by allocations and bytes (deterministic) and by processor time, where a suspicion only counts if executed instructions (callgrind) at five sizes confirm it",
            "super-linear growth that stays below a factor of about 2.2 between 32 and 512 KiB is not seen",
            "the product of namespace declarations in scope and elements, and trees deeper than 64, are outside of the property",
        ],
    }
}
