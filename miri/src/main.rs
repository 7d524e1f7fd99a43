//! mirirun memory|threads SEED: small work for the interpreter to watch.
use std::{borrow::Cow, cell::Cell, collections::BTreeMap, io::Read, sync::Barrier};

use soupy::{
    parser::{HTMLNode, XMLNode},
    Node, Queryable, Soup,
};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

const HTML: [&str; 14] = [
    "<p class=a>x&lt;y</p>",
    "<a b='&amp;c' d=\"e\" f=g h>&#233;<br>z</a>",
    "<ul><li>1</li><li id=i>2<b>3</b></li></ul>",
    "<!-- c --><!doctype html>t<img src='&frac12'/>",
    "<script>if (a</b) {}</script><style>s</style>é",
    "<colgroup x='&#x1F600;'><col></colgroup>",
    "<a><b><c>&CounterClockwiseContourIntegral;</c></b></a>",
    "<a/><b></b>&nosuch;&",
    "<a><b></a>",
    "<script>x",
    "<p a='",
    "&#x110000;&#0;<",
    "<A></a><BR><x-y>🦀</x-y>",
    "",
];
const XML: [&str; 10] = [
    "<a b='c'>x&lt;y</a>",
    "<p:a xmlns:p='u' p:b='c'><d/><![CDATA[e]]></p:a>",
    "<?xml version='1.0'?><a><!-- c --><?p d?>é</a>",
    "<a><b>1</b><b id='i'>2<c>3</c></b></a>",
    "<a xmlns='u'><b xmlns='v'/></a>",
    "<a>",
    "<a></b>",
    "<a b='c",
    "<a>&#233;&nosuch;</a>",
    "",
];

fn add(h: &mut u64, s: &str) {
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
    for b in s.bytes() {
        *h = (*h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    *h = h.rotate_left(7) ^ s.len() as u64;
}

fn view<N>(h: &mut u64, s: &Soup<N>)
where
    N: Node + Clone,
    N::Text: AsRef<str> + Ord + From<&'static str> + std::fmt::Display,
{
    for i in s {
        add(h, i.name().map_or("-", AsRef::as_ref));
        add(h, i.text().map_or("-", AsRef::as_ref));
        for (k, v) in i.attrs().into_iter().flatten() {
            add(h, k.as_ref());
            add(h, v.as_ref());
        }
        *h ^= i.children().len() as u64;
    }
    for i in s.strict() {
        add(h, &i.all_text());
    }
    *h ^= s.tag("b").all().count() as u64;
    *h ^= (s.attr_name("id").all().count() as u64) << 8;
    *h ^= (s.attr("class", "a").all().count() as u64) << 16;
    if let Some(i) = s.tag(true).first() {
        add(h, i.get("class").map_or("-", AsRef::as_ref));
    }
    // an iterator left half-way
    let mut it = s.attr_value(true).all();
    *h ^= u64::from(it.next().is_some()) << 24;
}

fn own<N>(h: &mut u64, s: Soup<N>, r: &mut Rng)
where
    N: Node + Clone,
    N::Text: AsRef<str> + Ord + From<&'static str> + std::fmt::Display,
{
    view(h, &s);
    let copy = s.clone();
    let n = s.iter().count().max(1);
    let sub = s.iter().nth(r.below(n)).map(|i| i.query());
    let node = s.iter().nth(r.below(n)).map(|i| (*i).clone());
    let mut left = s.iter();
    left.next();
    let second = left.next().map(|i| i.query());
    drop(left);
    if r.below(2) == 0 {
        drop(s);
        view(h, &copy);
    } else {
        drop(copy);
        view(h, &s);
    }
    if let Some(x) = sub {
        view(h, &x);
    }
    if let Some(n) = node {
        add(h, &n.all_text());
    }
    drop(second);
}

fn one(kind: usize, k: usize, seed: u64) -> u64 {
    let mut h = 1;
    let mut r = Rng(seed);
    match kind {
        0 => match Soup::html_strict(HTML[k]) {
            Ok(s) => own(&mut h, s, &mut r),
            Err(e) => add(&mut h, &e.to_string()),
        },
        1 => own(&mut h, Soup::html(HTML[k].to_string()), &mut r),
        _ => {
            struct Slow<'a>(&'a [u8]);
            impl Read for Slow<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let n = b.len().min(self.0.len()).min(3);
                    b[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            match Soup::xml(Slow(XML[k].as_bytes())) {
                Ok(s) => own(&mut h, s, &mut r),
                Err(e) => add(&mut h, &e.to_string()),
            }
        }
    }
    h
}

/// A node that has other children at each call.
struct Moody {
    calls: Cell<u64>,
    name: String,
    kids: Vec<Moody>,
}
impl Moody {
    fn new(r: &mut Rng, depth: usize) -> Moody {
        let n = if depth == 0 { 0 } else { r.below(4) };
        Moody { calls: Cell::new(r.next()), name: ["a", "b"][r.below(2)].into(), kids: (0..n).map(|_| Moody::new(r, depth - 1)).collect() }
    }
    fn mood(&self) -> usize {
        let mut r = Rng(self.calls.get());
        self.calls.set(r.next());
        r.below(1 << 30)
    }
}
impl Node for Moody {
    type Text = String;
    fn name(&self) -> Option<&String> {
        (self.mood() % 4 > 0).then_some(&self.name)
    }
    fn text(&self) -> Option<&String> {
        (self.mood() % 2 > 0).then_some(&self.name)
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Moody] {
        &self.kids[self.mood() % (self.kids.len() + 1)..]
    }
}
struct Pre;
impl soupy::parser::Parser for Pre {
    type Input = Vec<Moody>;
    type Node = Moody;
    type Error = ();
    fn parse(v: Vec<Moody>) -> Result<Vec<Moody>, ()> {
        Ok(v)
    }
}
fn moody(r: &mut Rng) -> u64 {
    let top = (0..3).map(|_| Moody::new(r, 3)).collect();
    let Ok(s) = Soup::new::<Pre>(top) else { unreachable!() };
    let mut h = 3;
    for _ in 0..2 {
        for i in &s {
            add(&mut h, i.name().map_or("-", |n| n));
        }
        h ^= s.tag("a").all().count() as u64;
        for i in s.strict().all() {
            h ^= i.descendants().map(|d| d.name.len() as u64).sum::<u64>() << 3;
            add(&mut h, &i.all_text());
        }
    }
    h
}

type SNode = HTMLNode<Cow<'static, str>>;
enum Shared {
    S(Soup<SNode>),
    X(Soup<XMLNode>),
}
/// Shared whatever the compiler thinks; another monitor asks what it thinks.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

fn shared(s: &Shared) -> u64 {
    let mut h = 2;
    match s {
        Shared::S(s) => {
            view(&mut h, s);
            view(&mut h, &s.clone());
        }
        Shared::X(s) => {
            view(&mut h, s);
            view(&mut h, &s.clone());
        }
    }
    h
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    let mut r = Rng(seed);
    let mut work = |n: usize| -> Vec<(usize, usize, u64)> {
        (0..n)
            .map(|k| {
                let kind = k % 3;
                (kind, r.below(if kind == 2 { XML.len() } else { HTML.len() }), r.next())
            })
            .collect()
    };
    if a[1] == "memory" {
        let mut h = 0;
        for (kind, k, s) in work(n) {
            h ^= one(kind, k, s);
        }
        if n > 0 {
            h ^= moody(&mut Rng(seed));
        }
        println!("stat {n} {h:016x}");
        return;
    }
    // each thread's first act is to parse
    let jobs: Vec<Vec<(usize, usize, u64)>> = {
        let w = work(n);
        // all do the same, from another place on
        (0..3).map(|t| w.iter().cycle().skip(t).take(w.len()).copied().collect()).collect()
    };
    let gate = Barrier::new(3);
    let got: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|j| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    j.iter().map(|(kind, k, seed)| one(*kind, *k, *seed)).collect::<Vec<u64>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (j, g) in jobs.iter().zip(&got) {
        for ((kind, k, seed), h) in j.iter().zip(g) {
            assert_eq!(one(*kind, *k, *seed), *h, "diff: a thread obtained something else for document {k} of kind {kind}");
        }
    }
    let d = work(1)[0];
    let soups = Force(vec![
        Shared::S(Soup::html_strict(HTML[d.1 % 5]).unwrap()),
        Shared::X(Soup::xml(XML[d.1 % 5].as_bytes()).unwrap()),
    ]);
    let alone: Vec<u64> = soups.0.iter().map(shared).collect();
    std::thread::scope(|s| {
        for _ in 0..2 {
            let (soups, alone) = (&soups, &alone);
            s.spawn(move || {
                for (x, a) in soups.0.iter().zip(alone) {
                    assert_eq!(shared(x), *a, "diff: a thread saw something else in a shared soup");
                }
            });
        }
    });
    // the last owner is another thread
    let moved = soups;
    std::thread::spawn(move || {
        let m = moved;
        drop(m);
    })
    .join()
    .unwrap();
    println!("stat {} {:016x}", n * 3 + 4, got[0].iter().fold(0, |a, b| a ^ b));
}
