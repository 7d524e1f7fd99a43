//! C05, C06: the lenient HTML parser, alone and against the strict one.
use std::{borrow::Cow, collections::BTreeMap};

use soupy::{
    parser::{HTMLNode, LenientHTMLParser, Parser, StrictHTMLParser},
    Queryable, Soup,
};

use super::at;
use crate::{
    page,
    case::{clip, fam, Cx, Prop, Res},
    ensure,
    html::{self, H},
    query::{self, forever, Op, Pat, Snap, P},
    rng::Rng,
};

type Lenient = HTMLNode<scraper::StrTendril>;

/// A text holder of our own.
struct Doc(String);
impl AsRef<str> for Doc {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

/// Every entry point; they must agree.
pub fn lenient(doc: &str) -> Result<Vec<Lenient>, String> {
    at(doc);
    let Ok(n) = LenientHTMLParser::<&str>::parse(doc);
    let snap = Snap::of(&n);
    let soup = Soup::html(doc);
    query::base(&soup, &snap).map_err(|e| format!("Soup::html and its parser differ: {e}"))?;
    if doc.len() < 2000 {
        let top: Vec<H> = soup.strict().all().map(|i| html::model(&*i)).collect();
        ensure!(top == html::models(&n), "Soup::html and its parser differ {}", html::diff(&html::models(&n), &top));
    }
    if doc.len() < 2000 {
        for (k, s) in [
            ("String", Soup::html(doc.to_string())),
            ("Cow", Soup::html(Cow::Borrowed(doc))),
            ("user-defined text", Soup::html(Doc(doc.into()))),
        ] {
            query::base(&s, &snap).map_err(|e| format!("Soup::html of &str and of {k} differ: {e}"))?;
        }
    }
    Ok(n)
}

/// The document tree, from the HTML5 parser itself. `None` where nothing is promised.
pub(super) enum Exp {
    Node(H, bool),
    Gone,
}
pub(super) fn expected(n: ego_tree::NodeRef<'_, scraper::Node>) -> Exp {
    use scraper::Node as N;
    match n.value() {
        N::Document | N::Fragment | N::ProcessingInstruction(_) => Exp::Gone,
        N::Doctype(d) => Exp::Node(H::Doctype(d.name().to_string()), true),
        N::Comment(c) => Exp::Node(H::Comment(c.to_string()), true),
        N::Text(t) => Exp::Node(H::Text(t.to_string()), true),
        N::Element(e) => {
            let mut attrs = BTreeMap::new();
            let mut clear = true;
            for (k, v) in &e.attrs {
                // prefixed attributes of foreign elements may share a local name
                clear &= attrs.insert(k.local.to_string(), v.to_string()).is_none();
            }
            let name = e.name.local.to_string();
            let mut kids = vec![];
            for c in n.children() {
                if let Exp::Node(h, ok) = expected(c) {
                    clear &= ok;
                    kids.push(h);
                }
            }
            if html::VOID.contains(&name.as_str()) && kids.is_empty() {
                // a childless foreign element of that name may also come out as an element
                return Exp::Node(H::Void { name, attrs }, clear);
            }
            Exp::Node(H::El { name, attrs, kids }, clear)
        }
    }
}

fn reference(doc: &str) -> Option<Vec<H>> {
    let d = scraper::Html::parse_document(doc);
    let mut out = vec![];
    for c in d.tree.root().children() {
        if let Exp::Node(h, ok) = expected(c) {
            if !ok {
                return None;
            }
            out.push(h);
        }
    }
    Some(out)
}

/// A childless element with a void name that is not an HTML one has two acceptable forms.
pub(super) fn canon(t: Vec<H>) -> Vec<H> {
    t.into_iter()
        .map(|h| match h {
            H::El { name, attrs, kids } if kids.is_empty() && html::VOID.contains(&name.as_str()) => {
                H::Void { name, attrs }
            }
            H::El { name, attrs, kids } => H::El { name, attrs, kids: canon(kids) },
            o => o,
        })
        .collect()
}

fn stats(cx: &mut Cx, t: &[H]) {
    let mut n = [0u64; 5];
    html::walk(t, &mut |h, d| {
        n[match h {
            H::El { .. } | H::Raw { .. } => 0,
            H::Void { .. } => 1,
            H::Text(_) => 2,
            H::Comment(_) => 3,
            H::Doctype(_) => 4,
        }] += 1;
        if d >= 6 && matches!(h, H::El { .. }) {
            // nothing
        }
    });
    for (k, v) in ["elements", "void elements", "texts", "comments", "doctypes"].into_iter().zip(n) {
        cx.count(k, v);
    }
}

fn judge(cx: &mut Cx, doc: &str) -> Res {
    let got = html::models(&lenient(doc).map_err(|e| format!("{e}\ninput: {}", clip(doc)))?);
    let want = reference(doc);
    cx.eval(doc.as_bytes(), doc.contains('<') && html::size(&got) > 3);
    let Some(want) = want else {
        cx.count("not judged (attributes sharing a local name)", 1);
        return Ok(());
    };
    // real void elements must be void nodes: the reference never has them as elements
    let got = if got == want { got } else { canon(got) };
    ensure!(got == want, "wrong tree {}\ninput: {}", html::diff(&want, &got), clip(doc));
    stats(cx, &got);
    cx.count("documents compared with the HTML5 tree", 1);
    Ok(())
}

const BITS: &[&str] = &[
    "<p>", "</p>", "<div>", "</div>", "<b>", "</b>", "<i>", "</i>", "<a href=x>", "</a>", "<table>", "</table>", "<tr>",
    "</tr>", "<td>", "</td>", "<th>", "<tbody>", "</tbody>", "<caption>", "<colgroup>", "<col>", "<select>", "</select>",
    "<option>", "</option>", "<optgroup>", "<ul>", "</ul>", "<li>", "</li>", "<dl>", "<dt>", "<dd>", "<h1>", "</h1>",
    "<h2>", "<br>", "</br>", "<br/>", "<hr>", "<img src='a.png'>", "<image>", "<input type=hidden>", "<input>", "<form>",
    "</form>", "<button>", "</button>", "<svg>", "</svg>", "<math>", "</math>", "<mi>", "<mo>x</mo>", "<annotation-xml>",
    "<foreignObject>", "</foreignObject>", "<desc>", "<circle r=1 />", "<path d='M0'/>", "<title>", "</title>", "<head>",
    "</head>", "<body class=c>", "</body>", "<html lang=en>", "</html>", "<!doctype html>", "<!DOCTYPE x PUBLIC 'a' 'b'>",
    "<!-- c -->", "<!-- <p> -->", "<!", "<?pi x?>", "</", "<", ">", "&amp;", "&lt", "&notit;", "&#x41;", "&#0;",
    "&copy", "text", " ", "\n", "x < y", "<script>", "</script>", "<style>", "</style>", "if (a<b) {}", "<textarea>",
    "</textarea>", "<pre>\n", "</pre>", "<noscript>", "</noscript>", "<iframe>", "</iframe>", "<plaintext>",
    "<template>", "</template>", "<frameset>", "<frame>", "</frameset>", "<nobr>", "</nobr>", "<font color=red>",
    "</font>", "<em>", "</em>", "<span CLASS=\"a b\" class=c>", "</span>", "<SPAN ID=Q>", "<ruby>", "<rt>", "<rp>",
    "<link rel=x>", "<meta charset=utf-8>", "<base href=/>", "<embed>", "<source>", "<track>", "<wbr>", "<area>",
    "<object>", "<param>", "<marquee>", "</marquee>", "<applet>", "<x-y z>", "</x-y>", "\u{0}", "é", "🦀", "\r\n",
    "<a a=1 a=2>", "<![CDATA[x]]>", "<p/>", "<div id='", "'>", "\"", "=", "</p x=y>", "<details>", "<summary>",
    "<svg><br></svg>",
];

fn c05_tokens(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let n = cx.rng.small(60) + 1;
        let d: String = (0..n).map(|_| *cx.rng.pick(&BITS)).collect();
        cx.sample(|| d.clone());
        judge(cx, &d)?;
    }
    Ok(())
}

/// Every element with every attribute, alone and with others.
fn c05_attributes(cx: &mut Cx) -> Res {
    let all: Vec<&str> = html::NAMES.iter().chain(&html::VOID).copied().chain(["script", "style", "svg", "math", "textarea", "iframe", "rect"]).collect();
    let e = all[cx.idx as usize % all.len()];
    let mut many = String::new();
    for n in html::ALL_ATTRS {
        let v = *cx.rng.pick(&["v", "", "true", "false", "0", "-1", "a b", " a", "A", "#", "javascript:x", "hidden", "&amp;", n]);
        let w = match cx.rng.below(4) {
            0 => n.to_string(),
            1 => format!("{n} = '{v}'"),
            2 => format!("{}=\"{v}\"", n.to_uppercase()),
            _ => format!("{n}=\"{v}\""),
        };
        many.push(' ');
        many.push_str(&w);
        judge(cx, &match cx.idx as usize / all.len() % 3 {
            0 => format!("<{e} {w}>x</{e}>y"),
            1 => format!("<!doctype html><svg><{e} {w} /></svg><math><{e} {w}></{e}></math>"),
            _ => format!("<!doctype html><table><{e} {w}><tr><td><{e} {w}>x"),
        })?;
        cx.count("elements with a known attribute", 1);
    }
    judge(cx, &format!("<{e}{many}>x"))
}

fn c05_soup(cx: &mut Cx) -> Res {
    for _ in 0..10 {
        let cfg = html::Cfg::any(&mut cx.rng);
        let t = html::forest(&mut cx.rng, &cfg);
        let html5 = cx.rng.pct(50);
        let (d, _) = html::spell(&mut cx.rng, &t, 3, html5);
        judge(cx, &d)?;
        for _ in 0..3 {
            let d = html::mutate(&mut cx.rng, &d);
            cx.count("mutated documents", 1);
            judge(cx, &d)?;
        }
    }
    Ok(())
}

pub fn any_char(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(8) {
            0 => rng.below(0x20) as u32,
            1 => rng.range(0x80, 0xff) as u32,
            2 => rng.range(0x100, 0xffff) as u32,
            3 => rng.range(0x1_0000, 0x10_ffff) as u32,
            4 => *rng.pick(b"<>&/=\"'!-;# ") as u32,
            _ => rng.range(0x20, 0x7e) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

fn c05_unicode(cx: &mut Cx) -> Res {
    for _ in 0..40 {
        let n = cx.rng.small(400);
        let d: String = (0..n)
            .map(|_| if cx.rng.pct(10) { cx.rng.pick(&BITS).to_string() } else { any_char(&mut cx.rng).to_string() })
            .collect();
        judge(cx, &d)?;
        cx.count("strings of arbitrary characters", 1);
    }
    Ok(())
}

/// Every character at the ends of everything that has ends, those of the document included.
fn c05_ends(cx: &mut Cx) -> Res {
    let block = if cx.idx < 512 { cx.idx } else { cx.rng.below(0x2200) as u64 };
    for i in block * 128..block * 128 + 128 {
        let Some(c) = u32::try_from(i).ok().and_then(char::from_u32) else { continue };
        let s = format!("{c}x{c}");
        judge(cx, &s)?;
        judge(
            cx,
            &format!(
                "<!doctype {s}><p k=\"{s}\" l='{s}' m={c} n{c}>{s}<b>{c}</b><!--{s}--><!--{c}--><script>{s}</script><x{c} y><br k='{s}'><svg k='{s}'>{s}</svg>{c}"
            ),
        )?;
        cx.count("characters at the ends of contents", 1);
    }
    Ok(())
}

/// Pages behind and before what a preprocessor could be tempted to take away.
fn c05_outsides(cx: &mut Cx) -> Res {
    const FIRST: [&str; 34] = [
        "", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<?XML?>", "<?php echo 1 ?>", "<?", "<?>", "<?xml", "<%@ page %>",
        "\u{feff}", "\u{feff}\u{feff}", "\u{feff}<?xml?>", " ", "\n\n", "\u{a0}", "\0", "#!/bin/sh\n", "---\ntitle: x\n---\n", "{% x %}", "<!--x-->",
        "<!--[if IE]><p><![endif]-->", "<![if !IE]>", "<![CDATA[x]]>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"x.dtd\">",
        "<!DOCTYPE html [<!ENTITY a 'b'>]>", "<!ENTITY a 'b'>", "<!ELEMENT br EMPTY>", "%PDF-1.4", "HTTP/1.1 200 OK\r\n\r\n", "data:text/html,", "&lt;html&gt;",
        "</html>", "<meta charset=utf-16>", "\x1b[0m",
    ];
    const LAST: [&str; 20] = [
        "", "\x1a", "\0", "\u{feff}", "\n", "  \n", "\u{a0}", "?>", "-->", "]]>", "<!-- end", "<?", "</body></html>x", "</html><!--x-->", "</html>\n\n", "<",
        "</", "&", "&amp", "<!--[if IE]></p><![endif]-->",
    ];
    let first = FIRST[cx.idx as usize % FIRST.len()];
    for last in LAST {
        let body = match cx.rng.below(4) {
            0 => "<p>x</p>".to_string(),
            1 => "x".to_string(),
            2 => "<html><head><title>t</title></head><body><p>x</p></body></html>".to_string(),
            _ => {
                let p = page::page(&mut cx.rng, 8, false);
                html::spell(&mut cx.rng, &p, 5, true).0
            }
        };
        let second = if cx.rng.pct(15) { *cx.rng.pick(&FIRST) } else { "" };
        judge(cx, &format!("{first}{second}{body}{last}"))?;
        cx.count("pages with something outside", 1);
    }
    Ok(())
}

fn c05_truncate(cx: &mut Cx) -> Res {
    let mut cfg = html::Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(12);
    cfg.text = 20;
    let t = if cx.rng.pct(50) { page::page(&mut cx.rng, 15, false) } else { html::forest(&mut cx.rng, &cfg) };
    let (d, _) = html::spell(&mut cx.rng, &t, 3, true);
    let cuts: Vec<usize> = d.char_indices().map(|(i, _)| i).collect();
    let step = 1 + cuts.len() / 300;
    for i in cuts.into_iter().step_by(step) {
        judge(cx, &d[..i])?;
        cx.count("truncations", 1);
    }
    Ok(())
}

/// Trees written down by hand from the HTML standard.
const TABLE: [(&str, &str); 40] = [
    ("", "(html (head) (body))"),
    ("x", "(html (head) (body 'x'))"),
    (" \n ", "(html (head) (body))"),
    ("<p>a<p>b", "(html (head) (body (p 'a') (p 'b')))"),
    ("<ul><li>a<li>b</ul>c", "(html (head) (body (ul (li 'a') (li 'b')) 'c'))"),
    ("<b>1<i>2</b>3</i>4", "(html (head) (body (b '1' (i '2')) (i '3') '4'))"),
    ("<b>1<p>2</b>3</p>", "(html (head) (body (b '1') (p (b '2') '3')))"),
    ("<a href=1>x<a href=2>y", "(html (head) (body (a [href=1] 'x') (a [href=2] 'y')))"),
    ("<table><tr><td>x</table>", "(html (head) (body (table (tbody (tr (td 'x'))))))"),
    ("<table>x<tr>", "(html (head) (body 'x' (table (tbody (tr)))))"),
    ("<table><b>x</table>y", "(html (head) (body (b 'x') (table) (b 'y')))"),
    ("<p>a<table></table>b", "(html (head) (body (p 'a' (table) 'b')))"),
    ("<!doctype html><p>a<table></table>b", "(!html)(html (head) (body (p 'a') (table) 'b'))"),
    ("<!-- a --><!DOCTYPE HTML><!--b--><html><!--c--><head><!--d--></head><!--e--><body><!--f--></body><!--g--></html><!--h-->",
     "(-' a ')(!html)(-'b')(html (-'c') (head (-'d')) (-'e') (body (-'f')) (-'g'))(-'h')"),
    ("<br></br><br/>", "(html (head) (body (*br) (*br) (*br)))"),
    ("</p><body></p>", "(html (head) (body (p)))"),
    ("</div>x", "(html (head) (body 'x'))"),
    ("<div/>x", "(html (head) (body (div 'x')))"),
    ("<image src=a>", "(html (head) (body (*img [src=a])))"),
    ("<DIV ID=A Id=B>x</dIv>", "(html (head) (body (div [id=A] 'x')))"),
    ("<p a b='' c=\"&lt;&amp;\" d=&#65;>&copy;&gt</p>", "(html (head) (body (p [a=] [b=] [c=<&] [d=A] '©>')))"),
    ("<title>a<b></title>", "(html (head (title 'a<b>')) (body))"),
    ("<script>a<b</script>c", "(html (head (script 'a<b')) (body 'c'))"),
    ("<body><style>a&amp;b</style>", "(html (head) (body (style 'a&amp;b')))"),
    ("<textarea>\n<p></textarea>", "(html (head) (body (textarea '<p>')))"),
    ("<pre>\n\nx</pre>", "(html (head) (body (pre '\nx')))"),
    ("<select><option>a<option>b<p>c</select>", "(html (head) (body (select (option 'a') (option 'bc'))))"),
    ("<svg><g><circle r=1 /></g><title>t</title></svg>", "(html (head) (body (svg (g (circle [r=1])) (title 't'))))"),
    ("<svg><source>x</source><link>y</link></svg>", "(html (head) (body (svg (source 'x') (link 'y'))))"),
    ("<math><mi>x</mi></math>", "(html (head) (body (math (mi 'x'))))"),
    ("<svg viewbox=1><foreignobject><p>x", "(html (head) (body (svg [viewBox=1] (foreignObject (p 'x')))))"),
    ("<h1>a<h2>b", "(html (head) (body (h1 'a') (h2 'b')))"),
    ("<button>a<button>b", "(html (head) (body (button 'a') (button 'b')))"),
    ("<form><form>x</form>y", "(html (head) (body (form 'x') 'y'))"),
    ("<dl><dt>a<dd>b<dt>c</dl>", "(html (head) (body (dl (dt 'a') (dd 'b') (dt 'c'))))"),
    ("<? x ?>y", "(-'? x ?')(html (head) (body 'y'))"),
    ("a<!>b<!x>c</ y>d", "(html (head) (body 'a' (-'') 'b' (-'x') 'c' (-' y') 'd'))"),
    ("<frameset><frame><frame></frameset>", "(html (head) (frameset (frame) (frame)))"),
    ("<html lang=a><html lang=b class=c><body id=1><body id=2 x=3>z", "(html [class=c] [lang=a] (head) (body [id=1] [x=3] 'z'))"),
    ("<meta charset=utf-8><link rel=x>y<base>", "(html (head (*meta [charset=utf-8]) (*link [rel=x])) (body 'y' (*base)))"),
];

/// (name [attr=value] kids...), (*void), 'text', (-'comment'), (!doctype)
fn parse_sexp(s: &str) -> Vec<H> {
    fn items(s: &mut std::iter::Peekable<std::str::Chars<'_>>) -> Vec<H> {
        let mut out = vec![];
        loop {
            match s.peek() {
                None | Some(')') => return out,
                Some(' ') => {
                    s.next();
                }
                Some('\'') => {
                    s.next();
                    out.push(H::Text(until(s, '\'')));
                }
                Some('(') => {
                    s.next();
                    match s.peek() {
                        Some('-') => {
                            s.next();
                            s.next();
                            out.push(H::Comment(until(s, '\'')));
                            s.next();
                        }
                        Some('!') => {
                            s.next();
                            out.push(H::Doctype(until(s, ')')));
                        }
                        _ => {
                            let mut name = String::new();
                            while !matches!(s.peek(), Some(' ' | ')')) {
                                name.push(s.next().unwrap());
                            }
                            let mut attrs = BTreeMap::new();
                            loop {
                                while s.peek() == Some(&' ') {
                                    s.next();
                                }
                                if s.peek() != Some(&'[') {
                                    break;
                                }
                                s.next();
                                let k = until(s, '=');
                                attrs.insert(k, until(s, ']'));
                            }
                            let kids = items(s);
                            s.next();
                            out.push(match name.strip_prefix('*') {
                                Some(n) => H::Void { name: n.into(), attrs },
                                None => H::El { name, attrs, kids },
                            });
                        }
                    }
                }
                o => panic!("bad table entry at {o:?}"),
            }
        }
    }
    fn until(s: &mut std::iter::Peekable<std::str::Chars<'_>>, end: char) -> String {
        let mut o = String::new();
        loop {
            match s.next() {
                Some(c) if c == end => return o,
                Some(c) => o.push(c),
                None => panic!("unterminated"),
            }
        }
    }
    items(&mut s.chars().peekable())
}

fn c05_table(cx: &mut Cx) -> Res {
    let (d, s) = TABLE[cx.idx as usize % TABLE.len()];
    let want = parse_sexp(s);
    let got = html::models(&lenient(d)?);
    cx.eval(d.as_bytes(), true);
    cx.count("hand-written trees", 1);
    cx.sample(|| format!("{d} -> {s}"));
    ensure!(got == want, "wrong tree {}\ninput: {}", html::diff(&want, &got), clip(d));
    Ok(())
}

/// Pages whose tree is known from their generation, not from any parser.
fn c05_pages(cx: &mut Cx) -> Res {
    for _ in 0..10 {
        let n = if cx.rng.pct(5) { 600 } else { 40 };
        let t = page::page(&mut cx.rng, n, false);
        let (d, _) = html::spell(&mut cx.rng, &t, 5, true);
        cx.eval(d.as_bytes(), true);
        let want = as_lenient(&t);
        let got = deep_trim(html::models(&lenient(&d)?));
        ensure!(got == want, "wrong tree {}\ninput: {}", html::diff(&want, &got), clip(&d));
        stats(cx, &got);
        cx.count("pages with a tree known in advance", 1);
        cx.sample(|| d.clone());
    }
    Ok(())
}

fn c05_shapes(cx: &mut Cx) -> Res {
    let d = match cx.idx % 6 {
        0 => "<div>x".repeat(400) + &"</div>".repeat(400),
        1 => (0..2500).map(|i| format!("<p id={i}>{i}")).collect(),
        2 => format!("<p{}>", (0..500).map(|i| format!(" a{i}=v{i}")).collect::<String>()),
        3 => format!("<p title='{0}'>{0}<!--{0}-->", "abc é 🦀 ".repeat(15_000)),
        4 => format!("<table>{}</table>", "<tr><td>x<td><br>".repeat(1200)),
        _ => (0..1500).map(|i| format!("<li><b>{i}<br></b><!--{i}-->")).collect(),
    };
    cx.count("large documents", 1);
    judge(cx, &d)
}

/// Documents of mebibytes, up to just beyond a power of two.
fn c05_huge(cx: &mut Cx) -> Res {
    let max: usize = [1 << 20, 1 << 22, 1 << 24][cx.idx as usize % 3];
    let unit = *cx.rng.pick(&["lorem ipsum\n", "é\n&", "x\n", "🦀 \r\n"]);
    let long = || unit.repeat(max / unit.len() + 9);
    let d = match cx.idx as usize / 3 % 4 {
        0 => format!("<p>{}<b id=last>end</b>", long()),
        1 => format!("<p k='{}'>x</p><b id=last>end</b>", long()),
        2 => format!("<!--{0}--><script>{0}<p></script><b id=last>end</b>", long()),
        _ => (0..max.min(1 << 21) / 16).map(|i| format!("<p>{i}</p>\n")).collect::<String>() + "<b id=last>end</b>",
    };
    cx.count("documents of mebibytes", 1);
    judge(cx, &d)
}

fn c05_vast(cx: &mut Cx) -> Res {
    let n = super::queries::VAST[cx.idx as usize % super::queries::VAST.len()];
    let unit = *cx.rng.pick(&["a", "ab", "é", "🦀", "x y "]);
    let long: String = unit.chars().cycle().take(n).collect();
    let d = match cx.idx as usize / super::queries::VAST.len() % 10 {
        0 => (0..n).map(|i| format!("<i k={i}></i>")).collect(),
        1 => format!("<p>{}</p>x", (0..n).map(|i| format!("<br i={i}>")).collect::<String>()),
        // html5ever compares each attribute with all before it
        2 => format!("<p{}>x", (0..n.min(3000)).map(|i| format!(" a{i}={i}")).collect::<String>()),
        3 => format!("<p>{long}<b></b>{long}"),
        4 => format!("<p k=\"{long}\" l=m>x</p><!--{long}-->"),
        5 => format!("<script>{long}<p></script><style>{long}</style><textarea>{long}</textarea>"),
        6 => format!("<t{} k{}=v>x", long.replace(' ', ""), long.replace(' ', "")),
        7 => format!("<p k='{0}'>{0}", "&lt;&amp;&eacute;".repeat(n / 3)),
        8 => format!("<table>{}</table>", (0..n / 3).map(|i| format!("<tr><td>{i}")).collect::<String>()),
        _ => (0..n).map(|i| ["t", "<!--c-->", "<b>x</b>", "<hr>", "&lt;"][i % 5]).collect(),
    };
    cx.count("documents of a critical size", 1);
    judge(cx, &d)
}

/// html5ever drops a byte order mark whenever it goes on after a script element. Known, so it has a name.
fn script_bom(cx: &mut Cx) -> Res {
    const D: &str = "<!DOCTYPE html><html><head></head><body><p><script></script>\u{feff}a</p></body></html>";
    at(D);
    cx.eval(D.as_bytes(), true);
    cx.count("byte order marks after a script element", 1);
    let want = [
        vec![H::Text("\u{feff}a".into())],
        // anything but the known loss is judged as usual
        vec![H::Text("a".into())],
    ];
    let of = |t: &[H]| {
        let mut v = vec![];
        html::walk(t, &mut |h, _| {
            if let H::Text(_) = h {
                v.push(h.clone());
            }
        });
        v
    };
    let got = html::models(&lenient(D)?);
    let s = html::models(&StrictHTMLParser::parse(D).map_err(|e| format!("{e:?}: {D}"))?);
    ensure!(of(&s) == want[0], "strict parsing gives the texts {:?}\ninput: {D}", of(&s));
    ensure!(want.contains(&of(&got)), "lenient parsing gives the texts {:?}\ninput: {D}", of(&got));
    if of(&got) == want[1] {
        cx.finding(
            "U+FEFF after </script>".into(),
            format!("lenient parsing loses the U+FEFF at the start of the text after a script element: {D:?}"),
        );
    }
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        families: vec![
            fam("table", 40, 40, c05_table),
            fam("vast", 140, 1400, c05_vast),
            fam("huge", 12, 48, c05_huge),
            fam("pages", 4500, 60_000, c05_pages),
            fam("tokens", 12_000, 200_000, c05_tokens),
            fam("soup", 3200, 40_000, c05_soup),
            fam("attributes", 450, 4500, c05_attributes),
            fam("unicode", 3200, 60_000, c05_unicode),
            fam("truncate", 480, 8000, c05_truncate),
            fam("outsides", 204, 6800, c05_outsides),
            fam("ends", 600, 0x2200, c05_ends),
            fam("shapes", 12, 12, c05_shapes),
            fam("bom", 1, 1, script_bom),
        ],
        need: vec![
            ("characters at the ends of contents", 60_000),
            ("pages with something outside", 4000),
            ("documents compared with the HTML5 tree", 60_000),
            ("pages with a tree known in advance", 10_000),
            ("hand-written trees", 40),
            ("mutated documents", 10_000),
            ("strings of arbitrary characters", 10_000),
            ("truncations", 10_000),
            ("void elements", 50_000),
            ("comments", 20_000),
            ("doctypes", 10_000),
            ("large documents", 12),
        ],
        rule: "the input contains markup and gives more than the three implied elements",
        assumptions: vec![
            "for tag soup the HTML5 tree is the one html5ever/scraper (a dependency) builds; for generated pages and the hand-written table it is known without any parser",
            "template contents, doctype identifiers, namespace prefixes of attributes and attributes of foreign elements that share a local name are outside the property",
        ],
    }
}

// ---------------------------------------------------------------------- C06

/// The same tree as the lenient parser gives it.
fn as_lenient(t: &[H]) -> Vec<H> {
    let low = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    t.iter()
        .map(|h| match h {
            H::El { name, attrs, kids } => {
                H::El { name: name.to_ascii_lowercase(), attrs: low(attrs), kids: as_lenient(kids) }
            }
            H::Void { name, attrs } => H::Void { name: name.to_ascii_lowercase(), attrs: low(attrs) },
            // the speller may put whitespace around the content
            H::Raw { name, attrs, content } => H::El {
                name: name.to_ascii_lowercase(),
                attrs: low(attrs),
                kids: if content.is_empty() { vec![] } else { vec![H::Text(content.clone())] },
            },
            o => o.clone(),
        })
        .map(trim_raw)
        .collect()
}

/// script/style content, up to whitespace around it
fn trim_raw(h: H) -> H {
    match h {
        H::El { name, attrs, mut kids } if html::is_raw(&name) => {
            if let [H::Text(t)] = &mut kids[..] {
                *t = t.trim().to_string();
                if t.is_empty() {
                    kids.clear();
                }
            }
            H::El { name, attrs, kids }
        }
        o => o,
    }
}

fn deep_trim(t: Vec<H>) -> Vec<H> {
    t.into_iter()
        .map(|h| match h {
            H::El { name, attrs, kids } => trim_raw(H::El { name, attrs, kids: deep_trim(kids) }),
            o => o,
        })
        .collect()
}

/// What C06 compares: no case, no script/style content, doctypes by presence.
fn norm(t: &[H]) -> Vec<H> {
    as_lenient(t)
        .into_iter()
        .map(|h| match h {
            H::El { name, attrs, kids } if html::is_raw(&name) => {
                let _ = kids;
                H::El { name, attrs, kids: vec![] }
            }
            H::El { name, attrs, kids } => H::El { name, attrs, kids: norm(&kids) },
            H::Doctype(_) => H::Doctype(String::new()),
            o => o,
        })
        .collect()
}

fn ordinals<N: query::View>(soup: &Soup<N>, ops: &[Op], strict: bool) -> (Vec<usize>, usize)
where
    N::Text: Ord + AsRef<str> + From<&'static str>,
{
    let all: Vec<usize> = soup.tag(true).all().map(|i| query::addr(&*i)).collect();
    let _ = strict;
    let got = query::items::<N, Pat>(soup, ops);
    (
        got.iter().map(|g| all.iter().position(|a| *a == query::addr(&**g)).unwrap_or(usize::MAX)).collect(),
        all.len(),
    )
}

fn c06_pages(cx: &mut Cx) -> Res {
    for _ in 0..8 {
        let n = if cx.rng.pct(4) { 500 } else { 40 };
        let t = page::page(&mut cx.rng, n, false);
        let (d, sp) = html::spell(&mut cx.rng, &t, 6, true);
        at(&d);
        cx.eval(d.as_bytes(), true);
        cx.sample(|| d.clone());
        cx.count("character references", sp.refs);
        let s = StrictHTMLParser::parse(forever(&d))
            .map_err(|e| format!("strict parsing failed: {}\ninput: {}", clip(&format!("{e:?}")), clip(&d)))?;
        let Ok(l) = LenientHTMLParser::<&str>::parse(&d);
        let (a, b) = (norm(&html::models(&s)), norm(&html::models(&l)));
        ensure!(
            a == b,
            "the parsers disagree {} (expected = strict, got = lenient)\ninput: {}",
            html::diff(&a, &b),
            clip(&d)
        );
        ensure!(a == norm(&t), "both parsers give a wrong tree {}\ninput: {}", html::diff(&norm(&t), &a), clip(&d));
        cx.count("pages parsed alike", 1);
        cx.count("nodes compared", html::size(&a) as u64);
        // queries: names as both report them
        let lower = |x: &[H]| {
            let mut ok = true;
            html::walk(x, &mut |h, _| {
                ok &= h.name().is_none_or(|n| n == n.to_ascii_lowercase());
                ok &= h.attrs().is_none_or(|a| a.keys().all(|k| *k == k.to_ascii_lowercase()));
            });
            ok
        };
        if !lower(&t) {
            continue;
        }
        let (ss, ls) = (Soup::html_strict(forever(&d)).map_err(|_| "strict parsing failed the second time")?, Soup::html(&d));
        let v = query::vocab(&Snap::of(&s));
        for _ in 0..8 {
            let mut ops = query::chain(&mut cx.rng, &v);
            if !ops.iter().any(Op::is_cond) {
                ops.push(Op::Tag(P::Bool(true)));
            }
            // both have the same text in script and style only up to whitespace: no such conditions exist
            let (x, n) = ordinals(&ss, &ops, false);
            let (y, m) = ordinals(&ls, &ops, false);
            ensure!(n == m, "strict has {n} elements, lenient {m}\ninput: {}", clip(&d));
            ensure!(
                x == y,
                "soup{} selects elements {x:?} after strict and {y:?} after lenient parsing\ninput: {}",
                query::show(&ops),
                clip(&d)
            );
            cx.count("queries compared", 1);
            cx.count("query results compared", x.len() as u64);
            // below the first result
            if let Some(i) = x.first() {
                let a = ss.tag(true).all().nth(*i).map(|q| q.query());
                let b = ls.tag(true).all().nth(*i).map(|q| q.query());
                if let (Some(a), Some(b)) = (a, b) {
                    let (x, _) = ordinals(&a, &ops, false);
                    let (y, _) = ordinals(&b, &ops, false);
                    ensure!(x == y, "sub-query soup{} differs: {x:?} / {y:?}\ninput: {}", query::show(&ops), clip(&d));
                    cx.count("sub-queries compared", 1);
                }
            }
        }
    }
    Ok(())
}

/// Every named reference and many numeric ones, in both parsers.
fn c06_refs(cx: &mut Cx) -> Res {
    let all = &html::entities().all;
    let per = all.len().div_ceil(16);
    let from = cx.idx as usize % 16 * per;
    for (n, v) in all.iter().skip(from).take(per) {
        if !n.ends_with(';') {
            continue;
        }
        let d = format!("<!DOCTYPE html><html><head></head><body><p title=\"a&{n}b\">a&{n}b</p></body></html>");
        at(&d);
        let s = StrictHTMLParser::parse(&d).map_err(|e| format!("{e:?}: {d}"))?;
        let Ok(l) = LenientHTMLParser::<&str>::parse(&d);
        let (a, b) = (norm(&html::models(&s)), norm(&html::models(&l)));
        ensure!(a == b, "the parsers disagree {}\ninput: {d}", html::diff(&a, &b));
        ensure!(format!("{a:?}").contains(&format!("{:?}", format!("a{v}b"))), "&{n} is wrong in both: {a:?}");
        cx.eval(d.as_bytes(), true);
        cx.count("named references compared", 1);
    }
    for _ in 0..100 {
        let c = any_char(&mut cx.rng);
        let u = c as u32;
        if u < 0x20 || (0x7f..0xa0).contains(&u) || u & 0xfffe == 0xfffe || (0xfdd0..=0xfdef).contains(&u) {
            continue;
        }
        let d = format!("<!DOCTYPE html><html><head></head><body><p title='&#{u};'>x&#x{u:x};</p></body></html>");
        let s = StrictHTMLParser::parse(&d).map_err(|e| format!("{e:?}: {d}"))?;
        let Ok(l) = LenientHTMLParser::<&str>::parse(&d);
        let (a, b) = (norm(&html::models(&s)), norm(&html::models(&l)));
        ensure!(a == b, "the parsers disagree {}\ninput: {d}", html::diff(&a, &b));
        cx.eval(d.as_bytes(), true);
        cx.count("numeric references compared", 1);
    }
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        families: vec![fam("pages", 9000, 150_000, c06_pages), fam("refs", 64, 1600, c06_refs), fam("bom", 1, 1, script_bom)],
        need: vec![
            ("pages parsed alike", 20_000),
            ("queries compared", 80_000),
            ("query results compared", 80_000),
            ("sub-queries compared", 10_000),
            ("named references compared", 2000),
            ("numeric references compared", 3000),
        ],
        rule: "every page has html, head and body",
        assumptions: vec![
            "pages are generated from the subset of nestings the HTML5 tree construction leaves alone; text is generated only where HTML5 keeps it",
            "svg and math attributes with prefixes, textarea, template, noscript and ruby are not generated",
        ],
    }
}
