//! Reference reading of a strict HTML document, written from the properties and
//! the HTML5 grammar: well-formed (with its tree), malformed, or unspecified.
//! Iterative, one pass, shares nothing with the code under test.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::OnceLock,
};

use crate::html::{entities, is_raw, is_void, H};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ref {
    Wf(Vec<H>),
    /// why, at which byte
    Malformed(&'static str, usize),
    /// nothing is promised for this construct
    Unspec(&'static str),
}

fn legacy() -> &'static BTreeSet<&'static str> {
    static L: OnceLock<BTreeSet<&'static str>> = OnceLock::new();
    L.get_or_init(|| entities().all.iter().map(|(n, _)| n.as_str()).filter(|n| !n.ends_with(';')).collect())
}

/// Character reference decoding as C03 states it; None where it states nothing.
pub fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'&' {
            let n = s[i..].find('&').map_or(b.len(), |k| i + k);
            out.push_str(&s[i..n]);
            i = n;
            continue;
        }
        let run = |from: usize, f: fn(&u8) -> bool| from + b[from..].iter().take_while(|c| f(c)).count();
        if b.get(i + 1) == Some(&b'#') {
            let hex = matches!(b.get(i + 2), Some(b'x' | b'X'));
            let from = i + 2 + usize::from(hex);
            let to = if hex { run(from, u8::is_ascii_hexdigit) } else { run(from, u8::is_ascii_digit) };
            if to > from && b.get(to) == Some(&b';') {
                let v = u32::from_str_radix(&s[from..to], if hex { 16 } else { 10 });
                let Some(c) = v.ok().and_then(char::from_u32) else {
                    // no scalar value: stays as written
                    out.push_str(&s[i..=to]);
                    i = to + 1;
                    continue;
                };
                if c.is_control() {
                    return None;
                }
                out.push(c);
                i = to + 1;
                continue;
            }
            out.push('&');
            i += 1;
            continue;
        }
        if !b.get(i + 1).is_some_and(u8::is_ascii_alphabetic) {
            out.push('&');
            i += 1;
            continue;
        }
        let to = run(i + 1, u8::is_ascii_alphanumeric);
        let name = &s[i + 1..to];
        if b.get(to) == Some(&b';') {
            if let Some(t) = entities().map.get(&s[i + 1..=to]) {
                out.push_str(t);
            } else {
                out.push_str(&s[i..=to]);
            }
            i = to + 1;
            continue;
        }
        if legacy().contains(name) {
            let next = s[to..].chars().next();
            if next == Some('=') || next.is_some_and(char::is_alphanumeric) {
                return None;
            }
            out.push_str(&entities().map[name]);
            i = to;
            continue;
        }
        if (1..name.len()).any(|k| legacy().contains(&name[..k])) {
            return None;
        }
        out.push_str(&s[i..to]);
        i = to;
    }
    Some(out)
}

fn is_ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r')
}
fn name_char(c: char) -> bool {
    !c.is_ascii() || c.is_ascii_alphanumeric() || "-_:.".contains(c)
}

struct Open {
    name: String,
    attrs: BTreeMap<String, String>,
    kids: Vec<H>,
}

pub fn parse(s: &str) -> Ref {
    use Ref::{Malformed as M, Unspec as U};
    let b = s.as_bytes();
    if s.contains(['\0', '\x0c']) {
        return U("NUL or form feed");
    }
    // set when only the tree, not the well-formedness, is unspecified
    let mut vague: Option<&'static str> = None;
    let mut stack: Vec<Open> = vec![];
    let mut top: Vec<H> = vec![];
    let mut i = 0;
    macro_rules! put {
        ($n:expr) => {
            match stack.last_mut() {
                Some(o) => o.kids.push($n),
                None => top.push($n),
            }
        };
    }
    while i < b.len() {
        if b[i] != b'<' {
            let n = s[i..].find('<').map_or(b.len(), |k| i + k);
            match decode(&s[i..n]) {
                Some(t) => put!(H::Text(t)),
                None => {
                    vague = Some("reference");
                    put!(H::Text(String::new()));
                }
            }
            i = n;
            continue;
        }
        let rest = &s[i..];
        let rc = stack.last().is_some_and(|o| ["title", "textarea"].iter().any(|t| t.eq_ignore_ascii_case(&o.name)));
        if rc && !rest.as_bytes().get(2).is_some_and(u8::is_ascii_alphabetic) && rest.len() > 2 || rc && !rest.starts_with("</") {
            return U("markup in title or textarea");
        }
        if let Some(r) = rest.strip_prefix("<!--") {
            if r.starts_with('>') || r.starts_with("->") {
                return U("abrupt comment");
            }
            match r.find("-->") {
                None => {
                    return if r.contains("--!>") { U("incorrectly closed comment") } else { M("comment without end", i) };
                }
                Some(n) => {
                    if r[..n].contains("--!>") {
                        return U("incorrectly closed comment");
                    }
                    put!(H::Comment(r[..n].to_string()));
                    i += 4 + n + 3;
                }
            }
            continue;
        }
        if rest.starts_with("<!") {
            let doctype = rest.get(2..9).is_some_and(|d| d.eq_ignore_ascii_case("doctype"));
            if doctype && rest.as_bytes().get(9).is_some_and(|c| is_ws(*c)) {
                match rest.find('>') {
                    None => return M("doctype without end", i),
                    Some(n) => {
                        put!(H::Doctype(rest[10..n].to_string()));
                        i += n + 1;
                    }
                }
                continue;
            }
            if rest.len() < 10 && "<!doctype ".get(..rest.len()).is_some_and(|p| p.eq_ignore_ascii_case(rest)) {
                return M("cut off in a declaration", i);
            }
            if "<!--".starts_with(rest) {
                return M("cut off in a comment", i);
            }
            return M("<! starts no comment or doctype", i);
        }
        if rest.starts_with("<?") {
            return M("< starts no tag", i);
        }
        if let Some(r) = rest.strip_prefix("</") {
            let Some(c) = r.chars().next() else { return M("cut off in a closing tag", i) };
            if c.is_ascii_digit() {
                return U("digit after </");
            }
            if !c.is_ascii_alphabetic() {
                return M("</ without a name", i);
            }
            let n = r.find(|c| !name_char(c)).unwrap_or(r.len());
            let name = &r[..n];
            let w = n + r.as_bytes()[n..].iter().take_while(|c| is_ws(**c)).count();
            let matches = stack.last().is_some_and(|o| o.name.eq_ignore_ascii_case(name));
            match r.as_bytes().get(w) {
                None => return M("cut off in a closing tag", i),
                Some(b'>') if !matches => {
                    if rc {
                        return U("markup in title or textarea");
                    }
                    return M("closing tag matches no open element", i);
                }
                Some(b'>') => {
                    let o = stack.pop().unwrap();
                    put!(H::El { name: o.name, attrs: o.attrs, kids: o.kids });
                    i += 2 + w + 1;
                }
                Some(_) if !matches && rc => return U("markup in title or textarea"),
                Some(_) => return M("closing tag with more than a name", i),
            }
            continue;
        }
        // start tag
        let r = &rest[1..];
        match r.chars().next() {
            Some(c) if c.is_ascii_alphabetic() => {}
            Some(c) if c.is_ascii_digit() => return U("digit after <"),
            _ => return M("< starts no tag", i),
        }
        let n = r.find(|c| !name_char(c)).unwrap_or(r.len());
        let name = r[..n].to_string();
        let mut j = i + 1 + n;
        let mut attrs = BTreeMap::new();
        let mut lower = BTreeSet::new();
        let closed = loop {
            let w = j;
            while j < b.len() && is_ws(b[j]) {
                j += 1;
            }
            let spaced = j > w;
            match b.get(j) {
                None => return M("cut off in a tag", i),
                Some(b'>') => {
                    j += 1;
                    break false;
                }
                Some(b'/') => match b.get(j + 1) {
                    None => return M("cut off in a tag", i),
                    Some(b'>') => {
                        j += 2;
                        break true;
                    }
                    _ => return M("solidus in a tag", j),
                },
                Some(b'=') if spaced => return M("= without a name", j),
                Some(_) if !spaced => return U("no space before an attribute"),
                Some(b'"' | b'\'') => return M("quote for a name", j),
                _ => {}
            }
            let an = s[j..].find([' ', '\t', '\n', '\r', '"', '\'', '>', '/', '=']).map_or(b.len(), |k| j + k);
            let aname = &s[j..an];
            if aname.contains('<') || aname.contains(char::is_control) {
                return U("odd attribute name");
            }
            if matches!(b.get(an), Some(b'"' | b'\'')) {
                return M("quote in a name", an);
            }
            j = an;
            let mut k = j;
            while k < b.len() && is_ws(b[k]) {
                k += 1;
            }
            let mut val = String::new();
            if b.get(k) == Some(&b'=') {
                k += 1;
                while k < b.len() && is_ws(b[k]) {
                    k += 1;
                }
                let raw = match b.get(k) {
                    None => return M("cut off before a value", i),
                    Some(q @ (b'"' | b'\'')) => {
                        let q = *q as char;
                        let Some(e) = s[k + 1..].find(q) else { return M("cut off in a quoted value", i) };
                        j = k + 1 + e + 1;
                        &s[k + 1..k + 1 + e]
                    }
                    Some(b'>') => return M("= without a value", k),
                    Some(_) => {
                        let e = s[k..].find([' ', '\t', '\n', '\r', '>']).map_or(b.len(), |x| k + x);
                        let v = &s[k..e];
                        if v.contains(['"', '\'', '=', '<', '`']) || v.contains(char::is_control) {
                            return U("odd unquoted value");
                        }
                        if e == b.len() {
                            return M("cut off in a value", i);
                        }
                        j = e;
                        v
                    }
                };
                match decode(raw) {
                    Some(v) => val = v,
                    None => vague = Some("reference"),
                }
            }
            if !lower.insert(aname.to_lowercase()) {
                vague = Some("repeated attribute");
            }
            attrs.insert(aname.to_string(), val);
        };
        i = j;
        if is_void(&name) {
            put!(H::Void { name, attrs });
        } else if is_raw(&name) {
            if closed {
                put!(H::Raw { name, attrs, content: String::new() });
                continue;
            }
            let mut found = None;
            for (at, _) in s[i..].match_indices("</") {
                let e = i + at + 2 + name.len();
                if !s.get(i + at + 2..e).is_some_and(|x| x.eq_ignore_ascii_case(&name)) {
                    continue;
                }
                let w = e + b[e..].iter().take_while(|c| is_ws(**c)).count();
                match b.get(w) {
                    Some(b'>') => {
                        found = Some((at, w + 1));
                        break;
                    }
                    None => break,
                    Some(_) if w > e || b[e] == b'/' => return U("odd end of a script or style"),
                    Some(_) => {}
                }
            }
            let Some((at, next)) = found else { return M("script or style without end", i) };
            let content = s[i..i + at].trim();
            if content != s[i..i + at].trim_matches(|c: char| c.is_ascii_whitespace()) {
                vague = Some("space around a script");
            }
            put!(H::Raw { name, attrs, content: content.to_string() });
            i = next;
        } else if closed {
            put!(H::El { name, attrs, kids: vec![] });
        } else {
            if ["iframe", "xmp", "noembed", "noframes", "plaintext", "listing"].iter().any(|t| t.eq_ignore_ascii_case(&name)) {
                return U("element with raw text in HTML5");
            }
            stack.push(Open { name, attrs, kids: vec![] });
        }
    }
    if !stack.is_empty() {
        return M("element left open", b.len());
    }
    match vague {
        Some(w) => U(w),
        None => Ref::Wf(top),
    }
}
