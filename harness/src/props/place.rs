//! C24: errors say where the input goes wrong.
use soupy::{
    parser::{Parser, StrictHTMLParser},
    Soup,
};

use super::{
    at,
    strict::{el, mutated, small, strict, tokens},
    xml,
};
use crate::{
    case::{clip, fam, Cx, Prop, Res},
    ensure,
    html::{self, Cfg},
    refhtml::{self, Ref},
    xmlm::{self, XRef},
};

type E<'a> = nom::Err<nom::error::Error<&'a str>>;

fn rest<'a>(e: &E<'a>) -> Result<&'a str, String> {
    match e {
        nom::Err::Error(e) | nom::Err::Failure(e) => Ok(e.input),
        nom::Err::Incomplete(_) => Err("the error of a complete document asks for more input".into()),
    }
}

/// The two entry points' places in `doc`, which must be one; None if it parses.
fn place(doc: &str) -> Result<Option<usize>, String> {
    at(doc);
    let (p, s) = (StrictHTMLParser::parse(doc), Soup::html_strict(doc));
    let (p, s) = match (&p, &s) {
        (Err(p), Err(s)) => (rest(p)?, rest(s)?),
        (Ok(_), Ok(_)) => return Ok(None),
        _ => return Err("Soup::html_strict and its parser differ".into()),
    };
    ensure2(p.as_ptr() == s.as_ptr() && p.len() == s.len(), "Soup::html_strict and its parser report different places")?;
    let i = (p.as_ptr() as usize).wrapping_sub(doc.as_ptr() as usize);
    if i > doc.len() || p.len() != doc.len() - i {
        return Err(format!("the input {} of the error is not the rest of the document", clip(p)));
    }
    Ok(Some(i))
}
fn ensure2(c: bool, m: &str) -> Res {
    if c {
        Ok(())
    } else {
        Err(m.into())
    }
}

fn judge(cx: &mut Cx, doc: &str) -> Res {
    let show = |m: String| format!("{m}\ninput: {}", clip(doc));
    let Some(i) = place(doc).map_err(show)? else { return Ok(()) };
    cx.eval(doc.as_bytes(), i > 0);
    cx.count("rejected documents", 1);
    ensure!(i < doc.len(), "the error leaves nothing of the document over\ninput: {}", clip(doc));
    // what comes before it is a document, and the place is the same without it
    if i > 0 {
        cx.count("errors behind a part that parses", 1);
        match strict(&doc[..i]).map_err(show)? {
            Ok(t) => {
                if let Ref::Wf(w) = refhtml::parse(&doc[..i]) {
                    cx.count("parts before an error that are well-formed", 1);
                    ensure!(t == w, "wrong tree {} for what comes before the error\ninput: {}", html::diff(&w, &t), clip(&doc[..i]));
                }
                if let Ref::Malformed(why, p) = refhtml::parse(&doc[..i]) {
                    return Err(format!("the error is reported at byte {i}, but {why} at byte {p}\ninput: {}", clip(doc)));
                }
            }
            Err(e) => return Err(format!("the error is reported at byte {i}, but what comes before gives {e}\ninput: {}", clip(doc))),
        }
        match place(&doc[i..]).map_err(show)? {
            Some(0) => {}
            p => {
                return Err(format!(
                    "the error is reported at byte {i}, but the rest alone {}\ninput: {}",
                    match p {
                        None => "parses".into(),
                        Some(p) => format!("fails {p} bytes further"),
                    },
                    clip(doc)
                ))
            }
        }
    }
    Ok(())
}

fn c24_small(cx: &mut Cx) -> Res {
    small(cx, judge)
}
fn c24_tokens(cx: &mut Cx) -> Res {
    tokens(cx, judge)
}
fn c24_mutated(cx: &mut Cx) -> Res {
    mutated(cx, judge)
}
fn c24_truncate(cx: &mut Cx) -> Res {
    let mut cfg = Cfg::any(&mut cx.rng);
    cfg.nodes = cfg.nodes.min(25);
    cfg.text = cfg.text.min(60);
    let mut t = html::forest(&mut cx.rng, &cfg);
    if cx.rng.pct(40) {
        t = vec![el("html", &[], t)];
    }
    let (doc, _) = html::spell(&mut cx.rng, &t, 0, false);
    for (i, _) in doc.char_indices() {
        judge(cx, &doc[..i])?;
    }
    // a part that can not be parsed between two documents: its place is known
    let junk = *cx.rng.pick(&["</x>", "<", "< a>", "</>", "<a", "<!-- ", "<!x>", "<?x?>", "<b x/y>", "</br>", "<script>", "<a b='", "<u><i></u>", "<s>", "</a b>", "<![CDATA[x]]>"]);
    let whole = format!("{doc}{junk}");
    let at = place(&whole).map_err(|m| format!("{m}\ninput: {}", clip(&whole)))?;
    ensure!(at == Some(doc.len()), "the error is reported at {at:?}, the first {} bytes are well-formed\ninput: {}", doc.len(), clip(&whole));
    cx.eval(whole.as_bytes(), true);
    cx.count("errors at a known place", 1);
    Ok(())
}

fn c24_xml(cx: &mut Cx) -> Res {
    for k in 0..20 {
        let d = xml::small_doc(cx);
        let mut b = d.bytes.clone();
        if k % 4 == 0 {
            b.truncate(cx.rng.below(b.len() + 1));
        } else {
            xml::damage(cx, &mut b);
        }
        let XRef::Err(want) = xmlm::reference(&b) else { continue };
        match xml::parse(&b)? {
            // C08 asks for an error here
            Ok(_) => {}
            Err(xmltree::ParseError::MalformedXml(e)) => {
                cx.eval(&b, true);
                cx.count("XML errors compared", 1);
                cx.sample(|| want.clone());
                ensure!(e.to_string() == want, "the error is {:?}, that of the XML reader {want:?}\ninput: {}", e.to_string(), xml::show(&b));
            }
            Err(e) => return Err(format!("the error is {e:?}, that of the XML reader {want:?}\ninput: {}", xml::show(&b))),
        }
    }
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        families: vec![
            fam("small", 112, 840, c24_small),
            fam("truncate", 1600, 40_000, c24_truncate),
            fam("tokens", 3000, 60_000, c24_tokens),
            fam("mutated", 3000, 100_000, c24_mutated),
            fam("xml", 3000, 60_000, c24_xml),
        ],
        need: vec![
            ("rejected documents", 100_000),
            ("errors behind a part that parses", 30_000),
            ("parts before an error that are well-formed", 10_000),
            ("errors at a known place", 1000),
            ("XML errors compared", 5000),
        ],
        rule: "enumerated, truncated, damaged and mutated documents that are rejected; non-trivial: something parses before the error; distinct by input",
        assumptions: vec!["for XML, xml-rs itself, run over the same bytes, tells where they are not well-formed"],
    }
}
