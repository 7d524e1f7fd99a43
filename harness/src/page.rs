//! Pages on which strict and lenient HTML parsing must agree.
use std::collections::BTreeMap;

use crate::{
    html::{self, H},
    rng::Rng,
};

const FLOW: [&str; 16] = [
    "div", "section", "article", "blockquote", "nav", "main", "aside", "header", "footer", "address", "figure", "details",
    "fieldset", "center", "hgroup", "dialog",
];
const PHRASE: [&str; 24] = [
    "span", "em", "strong", "b", "i", "u", "code", "small", "q", "cite", "sub", "sup", "label", "abbr", "time", "mark",
    "kbd", "samp", "var", "dfn", "x-widget", "my-el", "bdo", "data",
];
const PVOID: [&str; 5] = ["br", "img", "input", "wbr", "embed"];

struct Pg<'r> {
    rng: &'r mut Rng,
    left: usize,
    ids: bool,
    uid: usize,
    mixed: bool,
}

impl Pg<'_> {
    fn attrs(&mut self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        for _ in 0..self.rng.small(4) {
            let k = if self.rng.pct(60) {
                self.rng.pick(&["id", "class", "title", "href", "data-x", "name", "lang", "rel", "@click", "[x]"]).to_string()
            } else {
                html::attr_name(self.rng)
            };
            let k = if self.mixed && self.rng.pct(20) { html::mix_case(self.rng, &k) } else { k.to_ascii_lowercase() };
            if m.keys().any(|o: &String| o.eq_ignore_ascii_case(&k)) {
                continue;
            }
            let v = if self.rng.pct(40) {
                self.rng.pick(&["a", "b", "a b", "", "true", "x"]).to_string()
            } else {
                html::text(self.rng, 30)
            };
            m.insert(k, v);
        }
        if self.ids {
            self.uid += 1;
            m.insert("uid".into(), format!("n{}", self.uid));
        }
        m
    }
    fn el(&mut self, name: &str, kids: Vec<H>) -> H {
        let attrs = self.attrs();
        let name = if self.mixed && self.rng.pct(20) { html::mix_case(self.rng, name) } else { name.into() };
        H::El { name, attrs, kids }
    }
    fn void(&mut self, name: &str) -> H {
        let mut attrs = self.attrs();
        if name == "input" {
            attrs.retain(|k, _| !k.eq_ignore_ascii_case("type"));
        }
        let name = if self.mixed && self.rng.pct(20) { html::mix_case(self.rng, name) } else { name.into() };
        H::Void { name, attrs }
    }
    fn text(&mut self) -> H {
        let mut t = html::text(self.rng, 40);
        if t.is_empty() || t.starts_with('\n') {
            t.insert(0, 'x');
        }
        H::Text(t)
    }
    fn ws(&mut self) -> H {
        H::Text(self.rng.pick(&[" ", "\n", "\n    ", "\t"]).to_string())
    }
    fn comment(&mut self) -> H {
        H::Comment(html::comment_text(self.rng, 30))
    }
    fn raw(&mut self, name: &str) -> H {
        let mut c = html::raw_content(self.rng, name, 40);
        if c.contains("<!--") {
            c = "x".into();
        }
        H::Raw { name: name.into(), attrs: self.attrs(), content: c }
    }
    /// never two texts in a row
    fn push(out: &mut Vec<H>, h: H) {
        if !(matches!(h, H::Text(_)) && matches!(out.last(), Some(H::Text(_)))) {
            out.push(h);
        }
    }
    /// inside: names of the special ancestors
    fn content(&mut self, depth: usize, phrasing: bool, inside: &[&'static str]) -> Vec<H> {
        let mut out = vec![];
        let n = self.rng.small(if self.left > 100 { 30 } else { 8 });
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            let d = depth.saturating_sub(1);
            let with = |n: &'static str| {
                let mut v = inside.to_vec();
                v.push(n);
                v
            };
            let h = match self.rng.below(100) {
                0..=24 => self.text(),
                25..=30 => self.ws(),
                31..=34 => self.comment(),
                35..=44 => {
                    let n = *self.rng.pick(&PVOID);
                    self.void(n)
                }
                _ if depth == 0 => self.text(),
                45..=59 => {
                    let n = *self.rng.pick(&PHRASE);
                    // formatting elements do not nest in themselves here, and blocks stay out of them
                    let kids = self.content(d, true, inside);
                    self.el(n, kids)
                }
                60..=63 if !inside.contains(&"a") => {
                    let kids = self.content(d, true, &with("a"));
                    self.el("a", kids)
                }
                64 if !inside.contains(&"button") => {
                    let kids = self.content(d, true, &with("button"));
                    self.el("button", kids)
                }
                65 => {
                    let mut kids = vec![];
                    for _ in 0..self.rng.below(4) {
                        let t = vec![self.text()];
                        let o = self.el("option", t);
                        if self.rng.pct(25) {
                            kids.push(self.el("optgroup", vec![o]));
                        } else {
                            kids.push(o);
                        }
                    }
                    self.el("select", kids)
                }
                66 => {
                    let mut kids = vec![];
                    for _ in 0..self.rng.below(3) {
                        let n = *self.rng.pick(&["source", "track"]);
                        kids.push(self.void(n));
                    }
                    let n = *self.rng.pick(&["video", "audio", "picture"]);
                    self.el(n, kids)
                }
                67 => {
                    let mut kids = vec![];
                    for _ in 0..self.rng.below(4) {
                        let n = *self.rng.pick(&["g", "path", "circle", "rect", "line"]);
                        let k = H::El { name: n.into(), attrs: BTreeMap::from([("d".into(), "M0 0".into())]), kids: vec![] };
                        kids.push(k);
                    }
                    H::El { name: "svg".into(), attrs: BTreeMap::from([("width".into(), "10".into())]), kids }
                }
                68 => {
                    let n = *self.rng.pick(&html::RAW);
                    self.raw(n)
                }
                _ if phrasing => {
                    let n = *self.rng.pick(&PHRASE);
                    let kids = self.content(d, true, inside);
                    self.el(n, kids)
                }
                69..=76 => {
                    let kids = self.content(d, true, inside);
                    self.el("p", kids)
                }
                77..=79 => {
                    let n = *self.rng.pick(&["h1", "h2", "h3", "h4", "h5", "h6"]);
                    let kids = self.content(d, true, inside);
                    self.el(n, kids)
                }
                80..=84 => {
                    let mut kids = vec![];
                    for _ in 0..self.rng.small(6) {
                        if self.rng.pct(20) {
                            let w = self.ws();
                            Self::push(&mut kids, w);
                        }
                        let c = self.content(d, false, inside);
                        let li = self.el("li", c);
                        kids.push(li);
                    }
                    let n = *self.rng.pick(&["ul", "ol", "menu"]);
                    self.el(n, kids)
                }
                85 => {
                    let mut kids = vec![];
                    for _ in 0..self.rng.small(4) {
                        let c = self.content(d, true, inside);
                        kids.push(self.el("dt", c));
                        let c = self.content(d, false, inside);
                        kids.push(self.el("dd", c));
                    }
                    self.el("dl", kids)
                }
                86..=89 => self.table(d, inside),
                90 if !inside.contains(&"form") => {
                    let kids = self.content(d, false, &with("form"));
                    self.el("form", kids)
                }
                91 => {
                    let mut kids = self.content(d, true, inside);
                    if matches!(kids.first(), Some(H::Text(t)) if t.starts_with('\n')) {
                        kids.remove(0);
                    }
                    self.el("pre", kids)
                }
                92 => self.void("hr"),
                _ => {
                    let n = *self.rng.pick(&FLOW);
                    let kids = self.content(d, false, inside);
                    self.el(n, kids)
                }
            };
            Self::push(&mut out, h);
        }
        out
    }
    fn table(&mut self, depth: usize, inside: &[&'static str]) -> H {
        let mut kids = vec![];
        if self.rng.pct(20) {
            let c = self.content(depth, true, inside);
            kids.push(self.el("caption", c));
        }
        if self.rng.pct(25) {
            let mut cols = vec![];
            for _ in 0..self.rng.below(3) {
                cols.push(self.void("col"));
            }
            kids.push(self.el("colgroup", cols));
        }
        for _ in 0..self.rng.range(0, 2) {
            let mut rows = vec![];
            for _ in 0..self.rng.range(0, 3) {
                if self.rng.pct(30) {
                    let w = self.ws();
                    Self::push(&mut rows, w);
                }
                let mut cells = vec![];
                for _ in 0..self.rng.range(0, 3) {
                    if self.rng.pct(15) {
                        let w = self.ws();
                        Self::push(&mut cells, w);
                    }
                    // inside a cell nothing outside is in scope any more but forms
                    let c = self.content(depth.saturating_sub(1), false, inside);
                    let n = *self.rng.pick(&["td", "td", "th"]);
                    cells.push(self.el(n, c));
                }
                rows.push(self.el("tr", cells));
            }
            if self.rng.pct(20) {
                let c = self.comment();
                rows.push(c);
            }
            let n = *self.rng.pick(&["thead", "tbody", "tfoot"]);
            kids.push(self.el(n, rows));
        }
        self.el("table", kids)
    }
}

/// A page both parsers must read alike.
pub fn page(rng: &mut Rng, nodes: usize, ids: bool) -> Vec<H> {
    let mixed = rng.pct(25);
    let depth = if rng.pct(5) { 25 } else { rng.range(2, 8) };
    let mut g = Pg { rng, left: nodes, ids, uid: 0, mixed };
    let mut out = vec![];
    if g.rng.pct(20) {
        let c = g.comment();
        out.push(c);
    }
    out.push(H::Doctype("html".into()));
    if g.rng.pct(20) {
        let c = g.comment();
        out.push(c);
    }
    let mut head = vec![];
    for _ in 0..g.rng.below(6) {
        let h = match g.rng.below(8) {
            0 => {
                let t = g.text();
                g.el("title", vec![t])
            }
            1 => g.void("meta"),
            2 => g.void("link"),
            3 => g.raw("script"),
            4 => g.raw("style"),
            5 => g.comment(),
            _ => g.ws(),
        };
        Pg::push(&mut head, h);
    }
    // whitespace before the first thing in head is kept, before head it is not
    let head = g.el("head", head);
    let mut kids = vec![head];
    if g.rng.pct(30) {
        let w = g.ws();
        kids.push(w);
    }
    if g.rng.pct(15) {
        let c = g.comment();
        kids.push(c);
    }
    let body = g.content(depth, false, &[]);
    let body = g.el("body", body);
    kids.push(body);
    if g.rng.pct(15) {
        let c = g.comment();
        kids.push(c);
    }
    let html = g.el("html", kids);
    out.push(html);
    if g.rng.pct(15) {
        let c = g.comment();
        out.push(c);
    }
    out
}
