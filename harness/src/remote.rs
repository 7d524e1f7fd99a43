//! What child processes do: threads, orders, mixed work under sanitizers.
use std::{
    borrow::Cow,
    collections::BTreeMap,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        mpsc, Barrier,
    },
};

use soupy::{
    parser::{HTMLNode, XMLNode},
    query::QueryIter,
    Node, Queryable, Soup,
};

use crate::{
    query::{self, forever, Good, Pat, PatO, P},
    rng::{self, Rng},
    work::{self, In, Obs},
};

pub type SNode = HTMLNode<Cow<'static, str>>;

// ------------------------------------------------------------------- corpora

pub fn corpus(seed: u64, n: usize, max: usize) -> Vec<In> {
    let mut rng = Rng::new(seed);
    let mut v: Vec<In> = (0..n).map(|k| work::input(&mut rng, max, k, None)).collect();
    // the same words in other places, for anything that remembers words
    for k in 0..4 {
        let w = ["&lt;b&gt;", "&eacute;&#233;", "&frac12 &sup2;", "&notit;&CounterClockwiseContourIntegral;"][k];
        v.push(In::Strict(format!("<p t{k}='{w}' class=\"a{k}\">{w}{k}</p><br><script>{w}</script>")));
        v.push(In::Lenient(format!("<p t{k}='{w}' class=\"a{k}\">{w}{k}<b>x</p>y")));
    }
    if n >= 18 {
        let from = v.len();
        for _ in 0..14 {
            let k = rng.below(from);
            v.push(relative(&mut rng, &v[k]));
        }
        // families of references, names and values that are nearly the same
        for f in [
            ["&eacute;", "&Eacute;", "&#xe9;", "&#xE9;", "&#XC9;", "&#233;"],
            ["&amp;", "&AMP;", "&Amp;", "&amp", "&amp;amp;", "&am;p"],
            ["&lt;", "&Lt;", "&LT;", "&lt", "&ltcc;", "&lt;;"],
            ["a", "A", "a ", "aa", "\u{e0}", "b"],
        ] {
            let (a, b) = (*rng.pick(&f), *rng.pick(&f));
            for w in [a, b] {
                let k = rng.below(6);
                let d = match k {
                    0 => format!("<p>{w}</p>"),
                    1 => format!("<P k=\"{w}\">x</P>"),
                    2 => format!("<br k='{w}'>{w}"),
                    3 => format!("<script>{w}</script>"),
                    4 => format!("<!--{w}-->{w}"),
                    _ => w.to_string(),
                };
                match rng.below(4) {
                    0 => v.push(In::Lenient(d)),
                    1 if k != 2 && k != 5 => v.push(In::Xml(d.into_bytes())),
                    _ => v.push(In::Strict(d)),
                }
            }
        }
    }
    v
}

/// Another input that a careless memory could take for this one.
pub fn relative(rng: &mut Rng, i: &In) -> In {
    let mut s = String::from_utf8_lossy(i.bytes()).into_owned();
    let c: Vec<char> = s.chars().collect();
    let at = rng.below(c.len().max(1));
    match rng.below(11) {
        0 => s = s.to_uppercase(),
        1 => s = s.to_lowercase(),
        2 => s = c.iter().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 if !c.is_empty() => {
            // one letter or digit changed
            let from = c[at..].iter().position(char::is_ascii_alphanumeric).map_or(at, |k| at + k);
            let mut c = c;
            c[from] = *rng.pick(&['a', 'A', 'z', '1', '2', 'x']);
            s = c.into_iter().collect();
        }
        4 if c.len() > 1 => {
            let mut c = c;
            let k = rng.below(c.len());
            c.swap(at, k);
            s = c.into_iter().collect();
        }
        5 => s.push_str(rng.pick(&["x", " ", "<!---->", "<b></b>", "\n", "</b>"])),
        6 => s.insert_str(0, rng.pick(&["x", " ", "<!---->", "<b></b>", "\n"])),
        7 => s = c[..at].iter().collect(),
        8 => s = s.replace(';', ""),
        // one reference in another letter case
        9 => {
            let refs: Vec<usize> = s.match_indices('&').map(|m| m.0 + 1).filter(|k| s.as_bytes().get(*k).is_some_and(u8::is_ascii_alphabetic)).collect();
            if !refs.is_empty() {
                let k = *rng.pick(&refs);
                let l = (s.as_bytes()[k] ^ 0x20) as char;
                s.replace_range(k..=k, &l.to_string());
            }
        }
        _ => {}
    }
    match rng.below(6) {
        0 => In::Strict(s),
        1 => In::Lenient(s),
        2 => In::Xml(s.into_bytes()),
        _ => match i {
            In::Strict(_) => In::Strict(s),
            In::Lenient(_) => In::Lenient(s),
            In::Xml(_) => In::Xml(s.into_bytes()),
        },
    }
}

/// corpus SEED N FILE: kind, length, document
#[cfg(not(feature = "sanitizer"))]
pub fn save(a: &[String]) -> i32 {
    let mut out = vec![];
    for i in corpus(a[0].parse().unwrap(), a[1].parse().unwrap(), 40) {
        let b = i.bytes();
        out.push(match i {
            In::Strict(_) => 0,
            In::Lenient(_) => 1,
            In::Xml(_) => 2,
        });
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    }
    std::fs::write(&a[2], out).map_or(3, |()| 0)
}

fn line(kind: &str, k: usize, o: &Obs) -> String {
    format!("obs {kind} {k} {:016x} {} {} {}", o.hash, o.nodes, o.results, o.failed)
}

enum Shared {
    S(Soup<SNode>),
    X(Soup<XMLNode>),
}

/// Documents whose soups are shared.
pub fn shared_docs(seed: u64) -> Vec<In> {
    let mut rng = Rng::new(seed ^ 0x5eed);
    let mut v = vec![];
    while v.len() < 6 {
        let k = v.len();
        let i = work::input(&mut rng, 60, if k % 2 == 0 { 0 } else { 2 }, None);
        v.push(i);
    }
    v
}
fn share(i: &In) -> Option<Shared> {
    match i {
        In::Strict(s) => Soup::html_strict(forever(s)).ok().map(Shared::S),
        In::Xml(b) => Soup::xml(&b[..]).ok().map(Shared::X),
        In::Lenient(_) => None,
    }
}
fn look(s: &Shared, seed: u64, k: usize) -> Obs {
    let mut o = Obs { utf8: true, ..Obs::default() };
    let mut rng = Rng::new(seed ^ (k as u64 * 77 + 5));
    match s {
        Shared::S(s) => {
            work::look::<_, Pat>(s, &mut rng, &mut o, true);
            work::own::<_, Pat>(s.clone(), &mut rng, &mut o, true);
        }
        Shared::X(s) => {
            work::look::<_, PatO>(s, &mut rng, &mut o, true);
            work::own::<_, PatO>(s.clone(), &mut rng, &mut o, true);
        }
    }
    o
}

/// Moved and shared whatever the compiler thinks; `markers` says what it thinks.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

static TICKET: AtomicU64 = AtomicU64::new(0);

/// threads SEED NTHREADS ROUNDS
pub fn threads(a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let n: usize = a[1].parse().unwrap();
    let rounds: usize = a[2].parse().unwrap();
    let max: usize = a[3].parse().unwrap();
    let inputs = corpus(seed, 18, max);
    let docs = shared_docs(seed);
    let hot = seed % 2 == 0;
    let gate = Barrier::new(n);
    let mut got: Vec<BTreeMap<(u8, usize), Obs>> = vec![];
    let mut order: Vec<(u64, usize)> = vec![];
    let mut diffs = vec![];
    let put = |m: &mut BTreeMap<(u8, usize), Obs>, k: (u8, usize), o: Obs, d: &mut Vec<String>| {
        if let Some(p) = m.insert(k, o) {
            if p != o {
                d.push(format!("diff {k:?}: one thread saw {p:?} and then {o:?}"));
            }
        }
    };
    // every thread's first act is to parse
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (inputs, gate) = (&inputs, &gate);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let (mut m, mut ord, mut d) = (BTreeMap::new(), vec![], vec![]);
                        query::jitter(seed as u32 ^ (t as u32 + 1));
                        let mut rng = Rng::new(seed ^ t as u64);
                        gate.wait();
                        for r in 0..rounds {
                            let from = if hot && r == 0 { 0 } else { rng.below(inputs.len()) };
                            for j in 0..inputs.len() {
                                let k = (from + j) % inputs.len();
                                ord.push((TICKET.fetch_add(1, Relaxed), t));
                                put(&mut m, (0, k), work::run(&inputs[k], seed), &mut d);
                            }
                        }
                        (m, ord, d)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let (m, o, d) = h.join().unwrap();
            got.push(m);
            order.extend(o);
            diffs.extend(d);
        }
    });
    // shared soups, with items handed from thread to thread
    let soups: Vec<(usize, Force<Shared>)> =
        docs.iter().enumerate().filter_map(|(k, i)| share(i).map(|s| (k, Force(s)))).collect();
    let (txs, rxs): (Vec<_>, Vec<_>) = (0..n).map(|_| mpsc::channel::<Force<(usize, Handed)>>()).unzip();
    let mut handed = 0u64;
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (t, rx) in rxs.into_iter().enumerate() {
            let (soups, gate) = (&soups, &gate);
            let next = txs[(t + 1) % n].clone();
            let f = move || {
                let (mut m, mut ord, mut d) = (BTreeMap::new(), vec![], vec![]);
                let mut handed = 0;
                query::jitter(seed as u32 ^ (t as u32 + 101));
                let mut rng = Rng::new(seed ^ t as u64 ^ 0x777);
                gate.wait();
                for r in 0..rounds {
                    let from = if hot && r == 0 || soups.is_empty() { 0 } else { rng.below(soups.len()) };
                    for j in 0..soups.len() {
                        let (k, s) = &soups[(from + j) % soups.len()];
                        ord.push((TICKET.fetch_add(1, Relaxed), t));
                        put(&mut m, (1, *k), look(&s.0, seed, *k), &mut d);
                        let _ = next.send(Force((*k, Handed::of(&s.0))));
                        while let Ok(Force((k, h))) = rx.try_recv() {
                            handed += 1;
                            put(&mut m, (2, k), h.finish(), &mut d);
                        }
                    }
                }
                drop(next);
                (m, ord, d, handed, rx)
            };
            let f = Force(f);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let f = f;
                        Force((f.0)())
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            let (mut m, o, mut d, c, rx) = h.join().unwrap().0;
            while let Ok(Force((k, h))) = rx.try_recv() {
                handed += 1;
                put(&mut m, (2, k), h.finish(), &mut d);
            }
            handed += c;
            got.push(m);
            order.extend(o);
            diffs.extend(d);
        }
    });
    let mut all: BTreeMap<(u8, usize), Obs> = BTreeMap::new();
    let mut compared = 0u64;
    for m in got {
        for (k, o) in m {
            compared += 1;
            put(&mut all, k, o, &mut diffs);
        }
    }
    for ((p, k), o) in &all {
        println!("{}", line(["parse", "shared", "handed"][usize::from(*p)], *k, o));
    }
    for d in &diffs {
        println!("{d}");
    }
    order.sort_unstable();
    let sig: Vec<u8> = order.iter().map(|x| x.1 as u8).collect();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    println!("stat {} {} {} {:016x}", compared, handed, switches, rng::hash(&sig));
    0
}

/// Small tasks that come in variants: what each gives does not depend on what
/// other threads do with another variant at the same moment.
fn tasks() -> Vec<Box<dyn Fn(usize) -> String + Send + Sync>> {
    const NAMED: [&str; 16] = [
        "&eacute;", "&Eacute;", "&amp;", "&lt;", "&gt;", "&copy;", "&frac12;", "&NotEqualTilde;", "&there4;", "&nbsp;", "&sup2;",
        "&hellip;", "&ngE;", "&mdash;", "&euro;", "&alpha;",
    ];
    fn strict(d: &str) -> String {
        match Soup::html_strict(d) {
            Ok(s) => format!("{s:?}"),
            Err(e) => format!("{e:?}"),
        }
    }
    fn xml(d: &str) -> String {
        match Soup::xml(d.as_bytes()) {
            Ok(s) => format!("{:?}", s.iter().map(|n| (n.name().cloned(), n.attrs().cloned(), n.text().cloned())).collect::<Vec<_>>()),
            Err(e) => format!("{e:?}"),
        }
    }
    fn lenient(d: &str) -> String {
        let s = Soup::html(d);
        let t = s.iter().map(|n| n.all_text()).collect::<Vec<_>>();
        let a: Vec<String> = s.iter().flat_map(|n| n.attrs().into_iter().flatten().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>()).collect();
        format!("{t:?}{a:?}")
    }
    let doc: String = (0..16)
        .map(|i| format!("<t{i} id='n{i}' class=\"c{i} {i}\" a{i}=v><b id='b{i}'>x{i}&#{};</b><br id='r{i}'>{}</t{i}>", 0x4e00 + i, NAMED[i]))
        .collect();
    let html: &'static Force<Soup<SNode>> = Box::leak(Box::new(Force(Soup::html_strict(Box::leak(doc.into_boxed_str())).expect("harness: the shared document"))));
    let doc: String = (0..16)
        .map(|i| format!("<t{i} id='n{i}' class=\"c{i} {i}\" a{i}='v'><b id='b{i}'>x{i}&#{};</b><br id='r{i}'/>y{i}</t{i}>", 0x4e00 + i))
        .collect();
    let tree: &'static Force<Soup<XMLNode>> =
        Box::leak(Box::new(Force(Soup::xml(format!("<r id='root'>{doc}</r>").as_bytes()).expect("harness: the shared document"))));
    let mut t: Vec<Box<dyn Fn(usize) -> String + Send + Sync>> = vec![
        Box::new(|v| strict(&format!("&#{0};&#{0};", 0x4e00 + v))),
        Box::new(|v| strict(&format!("<p k='&#x{0:x};' l=&#X{0:X};></p>", 0x3b1 + v))),
        Box::new(|v| strict(&format!("{0}-{0}", NAMED[v]))),
        Box::new(|v| strict(&format!("<p k='{0}'>{0}</p>", NAMED[v]))),
        Box::new(|v| strict(&format!("<t{v} a{v}=b{v} c></T{v}><BR k{v}>"))),
        Box::new(|v| strict(&format!("<script a={v}>s{v}</ScRipt><style>{v}</style><!--c{v}--><!doctype d{v}>"))),
        Box::new(|v| strict(&format!("<p>{v}<b>"))),
        Box::new(|v| strict(&format!("x{v}</p>"))),
        Box::new(|v| strict(&format!("{}y{v}{}", "<i>".repeat(v + 1), "</i>".repeat(v + 1)))),
        Box::new(|v| strict(&format!("é{}", "é".repeat(v)))),
        Box::new(|v| lenient(&format!("<p k='{0}{v}'>{0}&#{1};<td>x<b>{v}", NAMED[v], 0x4e00 + v))),
        Box::new(|v| lenient(&format!("<t{v} a{v}=b{v}><svg viewbox={v}>x{v}<!--{v}-->"))),
        Box::new(|v| xml(&format!("<a k='&#{0};{v}'>&#x{0:x};<b{v}/><![CDATA[{v}]]><?p{v} q{v}?></a>", 0x4e00 + v))),
        Box::new(|v| xml(&format!("<p{v}:a xmlns:p{v}='u{v}' xmlns='w{v}'><b/></p{v}:a>"))),
        Box::new(|v| xml(&format!("<a><b{v}></c{v}></a>"))),
        Box::new(|v| xml(&format!("<?xml version='1.0' encoding='utf-8'?><a>{}</a>", "é".repeat(v)))),
    ];
    macro_rules! queries {
        ($soup:expr, $n:ident, $w:ident, $f:ident) => {{
            fn $f(what: usize, s: &'static Soup<$n>, v: usize) -> String {
                let (tag, id, key) = (format!("t{v}"), format!("b{v}"), format!("a{v}"));
                let own = |s: &str| $w::from(P::Owned(s.to_string()));
                let show = |i: soupy::query::QueryItem<'_, $n>| i.get("id").map(|x| x.to_string()).unwrap_or_default();
                let all = |v: Vec<String>| v.join(",");
                match what {
                    0 => all(s.tag(own(&tag)).all().map(show).collect()),
                    1 => all(s.tag(forever(&tag)).all().map(show).collect()),
                    2 => all(s.tag($w::from(P::CowO(tag))).all().map(show).collect()),
                    3 => all(s.attr("id", own(&id)).all().map(show).collect()),
                    4 => all(s.attr_name(forever(&key)).all().map(show).collect()),
                    5 => all(s.attr_value(own(&format!("c{v} {v}"))).all().map(show).collect()),
                    6 => all(s.class(own(&format!("c{v} {v}"))).recursive().all().map(show).collect()),
                    7 => all(s.strict().tag(own(&tag)).all().map(show).collect()),
                    8 => s.attr("id", own(&format!("n{v}"))).first().map(|i| i.all_text()).unwrap_or_default(),
                    9 => s.attr("id", own(&format!("n{v}"))).first().map(|i| all(i.query().tag("b").all().map(show).collect())).unwrap_or_default(),
                    10 => s.iter().skip(v).take(3).map(|i| format!("{:?}", (*i).clone())).collect(),
                    11 => format!("{:?}", s.attr_value(own(&id)).first().map(|i| (*i).clone() == *i.descendants().next().unwrap())),
                    12 => all(s.tag(true).all().skip(v * 3).step_by(5).map(show).collect()),
                    _ => s.iter().nth(v * 2).map(|i| format!("{:?} {}", i.name(), i.descendants().count())).unwrap_or_default(),
                }
            }
            for what in 0..14 {
                t.push(Box::new(move |v| $f(what, &$soup.0, v)));
            }
        }};
    }
    queries!(html, SNode, Pat, on_html);
    queries!(tree, XMLNode, PatO, on_tree);
    t
}

/// hammer SEED NTHREADS TURNS: the same few tasks as often and as close together as possible
pub fn hammer(a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let n: usize = a[1].parse().unwrap();
    let turns: usize = a[2].parse().unwrap();
    let tasks = tasks();
    let want: Vec<Vec<String>> = tasks.iter().map(|f| (0..16).map(f).collect()).collect();
    let gate = Barrier::new(n);
    let mut diffs = vec![];
    let mut done = 0u64;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (tasks, want, gate) = (&tasks, &want, &gate);
                s.spawn(move || {
                    let mut d = vec![];
                    let mut rng = Rng::new(seed ^ (t as u64 * 7919));
                    let mut done = 0u64;
                    for k in 0..tasks.len() {
                        // together on one task, each with variants of its own, now and then with the same
                        let k = (k + seed as usize) % tasks.len();
                        gate.wait();
                        let turns = if (10..12).contains(&k) { turns / 4 } else { turns };
                        let mut v = t % 16;
                        for turn in 0..turns {
                            if turn % 6 == 0 {
                                v = if rng.pct(70) { (t * 5 + rng.below(3)) % 16 } else { rng.below(16) };
                            }
                            let got = tasks[k](v);
                            done += 1;
                            if got != want[k][v] {
                                d.push(format!("diff task {k} variant {v}: got {got}, alone {}", want[k][v]));
                                if d.len() > 3 {
                                    break;
                                }
                            }
                        }
                    }
                    (d, done)
                })
            })
            .collect();
        for h in hs {
            let (d, k) = h.join().unwrap();
            diffs.extend(d);
            done += k;
        }
    });
    for d in diffs.iter().take(8) {
        println!("\n{d}");
    }
    println!("stat {done}");
    0
}

/// An iterator begun in one thread and finished in another, and a soup to be dropped there.
enum Handed {
    S(QueryIter<'static, SNode, ()>, Option<SNode>, Soup<SNode>),
    X(QueryIter<'static, XMLNode, ()>, Option<XMLNode>, Soup<XMLNode>),
}
impl Handed {
    fn of(s: &Shared) -> Handed {
        // the scope outlives every use
        fn forever<T>(s: &T) -> &'static T {
            unsafe { &*std::ptr::from_ref(s) }
        }
        match s {
            Shared::S(s) => {
                let mut it = forever(s).iter();
                let n = it.next().map(|n| (*n).clone());
                Handed::S(it, n, s.clone())
            }
            Shared::X(s) => {
                let mut it = forever(s).iter();
                let n = it.next().map(|n| (*n).clone());
                Handed::X(it, n, s.clone())
            }
        }
    }
    fn finish(self) -> Obs {
        fn go<N: Good>(it: QueryIter<'static, N, ()>, n: Option<N>, s: Soup<N>) -> Obs {
            let mut o = Obs { utf8: true, ..Obs::default() };
            let mut h = 0u64;
            let mut mix = |s: String| h = rng::hash(format!("{h}{s}").as_bytes());
            if let Some(n) = &n {
                mix(n.all_text());
            }
            for i in it {
                mix(format!("{:?}", i.name().map(|s| s.as_ref().to_string())));
                o.nodes += 1;
            }
            mix(format!("{s:?}"));
            o.hash = h;
            o
        }
        match self {
            Handed::S(a, b, c) => go(a, b, c),
            Handed::X(a, b, c) => go(a, b, c),
        }
    }
}

/// digest SEED MAX ORDER NOISE SHARED: one thread, the same inputs in some order
pub fn digest(a: &[String]) -> i32 {
    let a: Vec<String> = a.to_vec();
    std::thread::Builder::new()
        .stack_size(128 << 20)
        .spawn(move || {
            let seed: u64 = a[0].parse().unwrap();
            let max: usize = a[1].parse().unwrap();
            let order: u64 = a[2].parse().unwrap();
            let noise: usize = a[3].parse().unwrap();
            let inputs = corpus(seed, 18, max);
            let mut ks: Vec<usize> = (0..inputs.len()).collect();
            let mut rng = Rng::new(order);
            match order {
                0 => {}
                1 => ks.reverse(),
                _ => {
                    rng.shuffle(&mut ks);
                    // some more than once
                    for _ in 0..8 {
                        let k = ks[rng.below(ks.len())];
                        ks.insert(rng.below(ks.len()), k);
                    }
                }
            }
            let mut all: BTreeMap<usize, Obs> = BTreeMap::new();
            for k in ks {
                for _ in 0..noise {
                    disturb(&mut rng, max);
                }
                let o = work::run(&inputs[k], seed);
                if let Some(p) = all.insert(k, o) {
                    if p != o {
                        println!("diff {k}: {p:?} and then {o:?}");
                    }
                }
            }
            for (k, o) in &all {
                println!("{}", line("parse", *k, o));
            }
            if a[4] == "1" {
                for (k, i) in shared_docs(seed).iter().enumerate() {
                    if let Some(s) = share(i) {
                        println!("{}", line("shared", k, &look(&s, seed, k)));
                        println!("{}", line("handed", k, &Handed::of(&s).finish()));
                    }
                }
            }
            0
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}

/// Something else happens in the process.
pub fn disturb(rng: &mut Rng, max: usize) {
    let kind = rng.below(3);
    let i = work::input(rng, max.min(30), kind, None);
    match rng.below(10) {
        0..=4 => {
            work::run(&i, rng.next());
        }
        5 | 6 => work::explode(&i, rng),
        _ => fail(rng),
    }
}

/// A parse that is rejected.
pub fn fail(rng: &mut Rng) {
    let depth = rng.range(1, 40);
    let bad = ["<b", "<b x=", "<!--", "<a></b>", "</x>", "<script>", "<br></br>", "&", "<b x='", "<>"];
    let w = *rng.pick(&bad);
    match rng.below(3) {
        0 => {
            let d = format!("{}{w}", "<div class='x &amp; y'>".repeat(depth));
            let _ = Soup::html_strict(&d).is_ok();
        }
        1 => {
            let d = format!("{}{w}", "<div class='x &amp; y'>".repeat(depth));
            let _ = Soup::xml(d.as_bytes()).is_ok();
        }
        _ => {
            let d = format!("{w}{}", "</div>".repeat(depth));
            let _ = Soup::html_strict(&d).is_ok();
            let _ = Soup::xml(&d.as_bytes()[..d.len() / 2]).is_ok();
        }
    }
}

/// history SEED N MAX: mixed work in one process, for the sanitizers
pub fn history(a: &[String]) -> i32 {
    let a: Vec<String> = a.to_vec();
    std::thread::Builder::new()
        .stack_size(128 << 20)
        .spawn(move || {
            let mut rng = Rng::new(a[0].parse().unwrap());
            let max: usize = a[2].parse().unwrap();
            let (mut nodes, mut results, mut failed, mut moody) = (0, 0, 0, 0);
            for k in 0..a[1].parse().unwrap() {
                let i = work::input(&mut rng, max, k, None);
                let o = work::run(&i, rng.next());
                work::explode(&i, &mut rng);
                match work::moody(&mut rng) {
                    Ok(n) => moody += n,
                    Err(e) => {
                        println!("diff {e}");
                        return 9;
                    }
                }
                nodes += o.nodes;
                results += o.results;
                failed += u64::from(o.failed);
                if !o.utf8 {
                    println!("utf8 {}", i.show());
                    return 9;
                }
            }
            println!("stat {nodes} {results} {failed} {moody}");
            0
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}

