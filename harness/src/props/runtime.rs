//! C16, C17, C20, C21: threads, memory, history, user-defined parts.
use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
    fmt,
    marker::PhantomData,
    path::Path,
    process::Command,
    rc::Rc,
};

use soupy::{
    filter::{And, Attr, Filter, Or, Tag},
    parser::{HTMLNode, Parser, XMLElement, XMLNode},
    query::{Query, QueryItem, QueryIter},
    Node, Pattern, Queryable, Soup,
};

use super::at;
use crate::{
    case::{fam, Cx, Prop, Res},
    child, ensure, mem,
    query::{self, addr, forever, Good, P},
    remote::{corpus, disturb, fail, shared_docs, SNode},
    rng::{self, Rng},
    work::{self, In, Obs},
};

// ---------------------------------------------------------------------- C16

/// Whether a type has a marker trait, decided without requiring it.
macro_rules! has {
    ($t:ty, $m:ident) => {{
        #[allow(dead_code)]
        struct Probe<T: ?Sized>(PhantomData<T>);
        trait Without {
            const HAS: bool = false;
        }
        impl<T: ?Sized> Without for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $m> Probe<T> {
            const HAS: bool = true;
        }
        <Probe<$t>>::HAS
    }};
}

fn c16_markers(cx: &mut Cx) -> Res {
    macro_rules! both {
        ($($t:ty),* $(,)?) => {$({
            ensure!(has!($t, Send), "{} cannot be sent to another thread", stringify!($t));
            ensure!(has!($t, Sync), "{} cannot be shared between threads", stringify!($t));
            cx.count("types probed for Send and Sync", 1);
            cx.eval(stringify!($t).as_bytes(), true);
        })*};
    }
    ensure!(!has!(Rc<u8>, Send) && has!(u8, Send) && !has!(Cell<u8>, Sync), "harness: the probe is broken");
    both!(
        Soup<SNode>, Soup<XMLNode>, SNode, XMLNode, XMLElement,
        Query<'static, SNode, ()>, Query<'static, XMLNode, ()>,
        Query<'static, SNode, And<(), Tag<&'static str>>>, Query<'static, XMLNode, And<(), Tag<String>>>,
        Query<'static, SNode, And<(), Attr<&'static str, bool>>>,
        Query<'static, XMLNode, And<And<(), Tag<regex::Regex>>, Attr<String, Cow<'static, str>>>>,
        QueryItem<'static, SNode>, QueryItem<'static, XMLNode>,
        QueryIter<'static, SNode, ()>, QueryIter<'static, XMLNode, ()>,
        QueryIter<'static, SNode, And<(), Tag<&'static str>>>, QueryIter<'static, XMLNode, And<(), Attr<String, bool>>>,
        Or<Tag<&'static str>, Tag<bool>>,
    );
    Ok(())
}

fn lines(d: &child::Done) -> BTreeMap<String, String> {
    d.out
        .lines()
        .filter_map(|l| l.strip_prefix("obs "))
        .map(|l| {
            let f: Vec<&str> = l.splitn(3, ' ').collect();
            (format!("{} {}", f[0], f[1]), f[2].to_string())
        })
        .collect()
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(ToString::to_string).collect()
}

/// A child that must come to an end by itself.
fn watch(c: Command, what: &str) -> Result<child::Done, String> {
    let d = child::run(c, 200, 400, 40).unwrap_or_else(|e| panic!("{e}"));
    if d.late {
        panic!("{what}: stopped by the watchdog");
    }
    ensure!(!d.stuck, "{what}: deadlock, every thread sleeps for good\n{}", d.tail());
    if d.code == Some(3) || d.code == Some(101) && d.err.contains("harness") {
        panic!("{what}: {}", d.tail());
    }
    ensure!(d.ok(), "{what}: the process died\n{}", d.tail());
    Ok(d)
}

fn describe(seed: u64, max: usize, key: &str) -> String {
    let (kind, k) = key.split_once(' ').unwrap();
    let k: usize = k.parse().unwrap();
    if kind == "parse" {
        corpus(seed, 18, max)[k].show()
    } else {
        shared_docs(seed)[k].show()
    }
}

fn compare(cx: &mut Cx, a: &child::Done, b: &child::Done, what: [&str; 2], seed: u64, max: usize) -> Res {
    let (x, y) = (lines(a), lines(b));
    assert!(x.len() >= 18 && y.len() >= 18, "harness: a child observed too little");
    for (k, v) in &x {
        let w = y.get(k);
        ensure!(
            w == Some(v),
            "{} gave {v}, {} gave {w:?} (hash, nodes, results, failed) for {k}: {}",
            what[0],
            what[1],
            describe(seed, max, k)
        );
    }
    cx.count("observations compared with another process", x.len() as u64);
    Ok(())
}

fn concurrent(cx: &mut Cx, exe: Option<&str>, rounds: usize, max: usize) -> Res {
    let seed = cx.rng.next() >> 1;
    let n = [2, 3, 4, 8, 8, 12][cx.idx as usize % 6];
    let args = strs(&["plain", "threads", &seed.to_string(), &n.to_string(), &rounds.to_string(), &max.to_string()]);
    at(&args.join(" "));
    // both from one build: Debug forms depend on the compiler's Unicode version
    let program = |args: &[String]| match exe {
        Some(e) => {
            let mut c = Command::new(e);
            c.args(args);
            c
        }
        None => child::own(args),
    };
    let mut c = program(&args);
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:allocator_may_return_null=1");
    let d = watch(c, &format!("{n} threads (soupmon {})", args.join(" ")))?;
    ensure!(
        !d.out.contains("\ndiff "),
        "threads differ\n{}",
        d.out.lines().filter(|l| l.starts_with("diff")).take(6).collect::<Vec<_>>().join("\n")
    );
    let args = strs(&["plain", "digest", &seed.to_string(), &max.to_string(), "0", "0", "1"]);
    let s = watch(program(&args), &format!("one thread (soupmon {})", args.join(" ")))?;
    compare(cx, &s, &d, ["one thread", "several threads"], seed, max)?;
    let st: Vec<&str> = d.out.lines().find(|l| l.starts_with("stat")).expect("harness: no statistics").split(' ').collect();
    cx.count("observations in concurrent threads", st[1].parse().unwrap());
    cx.count("iterators finished in another thread", st[2].parse().unwrap());
    cx.count("switches between threads", st[3].parse().unwrap());
    cx.count("processes with threads", 1);
    cx.eval(st[4].as_bytes(), true);
    cx.sample(|| format!("{n} threads, order of events {}, {} switches, seed {seed}", st[4], st[3]));
    Ok(())
}

/// The same few tasks as often and as close together as possible.
fn pounded(cx: &mut Cx, exe: Option<&str>, turns: usize) -> Res {
    let seed = cx.rng.next() >> 1;
    let n = [8, 4, 8, 2, 8, 12][cx.idx as usize % 6];
    let args = strs(&["plain", "hammer", &seed.to_string(), &n.to_string(), &turns.to_string()]);
    at(&args.join(" "));
    let mut c = match exe {
        Some(e) => {
            let mut c = Command::new(e);
            c.args(&args);
            c
        }
        None => child::own(&args),
    };
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:allocator_may_return_null=1");
    let d = watch(c, &format!("{n} threads (soupmon {})", args.join(" ")))?;
    ensure!(
        !d.out.contains("\ndiff "),
        "what a thread gets depends on the others (soupmon {})\n{}",
        args.join(" "),
        d.out.lines().filter(|l| l.starts_with("diff")).take(6).collect::<Vec<_>>().join("\n")
    );
    let st = d.out.lines().find_map(|l| l.strip_prefix("stat ")).expect("harness: no statistics");
    cx.count("small tasks done by threads side by side", st.parse().unwrap());
    cx.eval(&seed.to_le_bytes(), true);
    Ok(())
}
fn c16_hammer(cx: &mut Cx) -> Res {
    pounded(cx, None, 6000)
}
fn c16_hammer_tsan(cx: &mut Cx) -> Res {
    let Ok(e) = std::env::var("SOUPMON_TSAN") else { return Ok(()) };
    pounded(cx, Some(&e), 60)
}

fn c16_threads(cx: &mut Cx) -> Res {
    concurrent(cx, None, 3, 40)
}

fn c16_tsan(cx: &mut Cx) -> Res {
    let Ok(e) = std::env::var("SOUPMON_TSAN") else { return Ok(()) };
    concurrent(cx, Some(&e), 1, 25)?;
    cx.count("processes under ThreadSanitizer", 1);
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        families: vec![
            fam("markers", 1, 1, c16_markers),
            fam("tsan", 24, 1500, c16_tsan),
            fam("threads", 240, 12_000, c16_threads),
            fam("hammer", 24, 1200, c16_hammer),
            fam("hammer-tsan", 4, 240, c16_hammer_tsan),
        ],
        need: vec![
            ("types probed for Send and Sync", 18),
            ("processes with threads", 200),
            ("processes under ThreadSanitizer", 20),
            ("observations in concurrent threads", 10_000),
            ("iterators finished in another thread", 4000),
            ("switches between threads", 10_000),
            ("small tasks done by threads side by side", 10_000_000),
        ],
        rule: "a process of 2 to 12 threads that start parsing at a barrier, then share soups and hand over iterators; distinct by the order in which the threads' events were interleaved",
        assumptions: vec![
            "ThreadSanitizer sees the whole program, the standard library included (built with -Zbuild-std)",
            "the order of events is that of a relaxed atomic ticket taken at the start of each",
        ],
    }
}

// ---------------------------------------------------------------------- C17

fn c17_balance(cx: &mut Cx) -> Res {
    for k in 0..3 {
        let i = work::input(&mut cx.rng, 80, cx.idx as usize + k, None);
        let seed = cx.rng.next();
        at(&i.show());
        let mut grew = vec![];
        let mut o = Obs::default();
        for turn in 0..8 {
            let a = mem::now();
            o = work::run(&i, seed);
            let mut r = Rng::new(seed);
            if turn % 2 == 1 {
                work::explode(&i, &mut r);
            }
            let b = mem::now();
            ensure!(o.utf8, "a returned string is not valid UTF-8\n{}", i.show());
            cx.count("allocations watched", b.count - a.count);
            if b.live == a.live && b.blocks == a.blocks {
                cx.count("runs with all memory released", 1);
                break;
            }
            grew.push((b.live - a.live, b.blocks - a.blocks));
        }
        ensure!(
            grew.len() < 8,
            "memory stays allocated after everything is dropped, at every repetition: (bytes, blocks) {grew:?}\n{}",
            i.show()
        );
        cx.count(i.kind(), 1);
        cx.count("failed parses", u64::from(o.failed));
        cx.eval(i.bytes(), o.nodes > 2 || o.failed);
        cx.sample(|| format!("{} allocations balanced for {}", o.nodes, i.show()));
    }
    Ok(())
}

/// The user's own nodes, patterns, texts and readers that keep no promise.
fn c17_moody(cx: &mut Cx) -> Res {
    for _ in 0..4 {
        let seed = cx.rng.next();
        at(&format!("moody {seed}"));
        let mut grew = vec![];
        for _ in 0..8 {
            let a = mem::now();
            let n = work::moody(&mut Rng::new(seed))?;
            let b = mem::now();
            cx.count("allocations watched", b.count - a.count);
            if b.live == a.live && b.blocks == a.blocks {
                cx.count("changing nodes visited", n);
                cx.count("runs with all memory released", 1);
                break;
            }
            grew.push((b.live - a.live, b.blocks - a.blocks));
        }
        ensure!(grew.len() < 8, "memory stays allocated after nodes that change were dropped, at every repetition: (bytes, blocks) {grew:?}");
        cx.eval(&seed.to_le_bytes(), true);
    }
    Ok(())
}

/// Memory kept per distinct input, which repetition does not show.
fn c17_distinct(cx: &mut Cx) -> Res {
    let kind = cx.idx as usize % 4;
    let per = 120;
    let mut grew = vec![];
    let mut uniq = cx.rng.next() % 1_000_000 * 1000;
    let mut seen: Vec<u64> = Vec::with_capacity(7 * per);
    for _ in 0..7 {
        let a = mem::now();
        for k in 0..per {
            uniq += 1;
            let i = work::input(&mut cx.rng, 30, if kind == 3 { k } else { kind }, Some(uniq));
            let s = cx.rng.next();
            let o = work::run(&i, s);
            seen.push(if o.nodes > 2 || o.failed { rng::hash(i.bytes()) } else { 0 });
        }
        let b = mem::now();
        grew.push((b.live - a.live, b.blocks - a.blocks));
    }
    cx.evals += seen.len() as u64;
    cx.hashes.extend(seen.into_iter().filter(|h| *h != 0));
    // what is set up once has been set up by now
    let last = &grew[3..];
    cx.sample(|| format!("growth (bytes, blocks) per {per} distinct inputs of kind {kind}: {grew:?}"));
    ensure!(
        !last.iter().all(|g| g.1 >= 3 || g.0 >= 400),
        "memory grows with every new input: (bytes, blocks) per {per} inputs {grew:?}"
    );
    cx.count("segments of distinct inputs", 7);
    Ok(())
}

fn sanitized(cx: &mut Cx, mut c: Command, n: usize, max: usize, what: &'static str) -> Res {
    let seed = cx.rng.next() >> 1;
    c.args(["plain", "history", &seed.to_string(), &n.to_string(), &max.to_string()]);
    at(&format!("{c:?}"));
    let d = watch(c, what)?;
    let st: Vec<u64> = d
        .out
        .lines()
        .find_map(|l| l.strip_prefix("stat "))
        .expect("harness: no statistics")
        .split(' ')
        .map(|x| x.parse().unwrap())
        .collect();
    cx.count(what, n as u64);
    cx.count("nodes seen under a sanitizer", st[0]);
    cx.count("failed parses", st[2]);
    cx.count("changing nodes seen under a sanitizer", st[3]);
    cx.eval(&seed.to_le_bytes(), true);
    Ok(())
}

fn c17_asan(cx: &mut Cx) -> Res {
    let Ok(e) = std::env::var("SOUPMON_ASAN") else { return Ok(()) };
    let mut c = Command::new(e);
    c.env("ASAN_OPTIONS", "detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=67");
    c.env("LSAN_OPTIONS", "exitcode=68");
    sanitized(cx, c, 90, 40, "inputs under AddressSanitizer and LeakSanitizer")
}

fn c17_memcheck(cx: &mut Cx) -> Res {
    if !Path::new("/usr/bin/valgrind").exists() {
        return Ok(());
    }
    let mut c = Command::new("valgrind");
    c.args(["-q", "--error-exitcode=69", "--leak-check=no", "--undef-value-errors=yes", "--main-stacksize=8388608", "--max-stackframe=200000000"]);
    c.arg(std::env::current_exe().unwrap());
    sanitized(cx, c, 12, 25, "inputs under memcheck")
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        families: vec![
            fam("asan", 32, 4000, c17_asan),
            fam("memcheck", 8, 400, c17_memcheck),
            fam("distinct", 16, 1600, c17_distinct),
            fam("moody", 1600, 60_000, c17_moody),
            fam("balance", 4800, 200_000, c17_balance),
        ],
        need: vec![
            ("runs with all memory released", 6000),
            ("allocations watched", 2_000_000),
            ("strict HTML inputs", 1000),
            ("lenient HTML inputs", 1000),
            ("XML inputs", 1000),
            ("failed parses", 700),
            ("segments of distinct inputs", 100),
            ("inputs under AddressSanitizer and LeakSanitizer", 2000),
            ("inputs under memcheck", 50),
            ("nodes seen under a sanitizer", 10_000),
            ("changing nodes seen under a sanitizer", 10_000),
            ("changing nodes visited", 100_000),
        ],
        rule: "a parse with queries, clones, sub-soups, abandoned iterators and panicking callbacks in a random order of drops; non-trivial if it has more than two nodes or fails; distinct by input",
        assumptions: vec![
            "the counting allocator sees every allocation of the Rust code of its thread",
            "memory kept is a leak if it is kept at every one of eight repetitions, or grows in each of the last four of seven segments of distinct inputs",
        ],
    }
}

// ---------------------------------------------------------------------- C20

fn c20_processes(cx: &mut Cx) -> Res {
    let seed = cx.rng.next() >> 1;
    let max = 50;
    let mut done = vec![];
    for (order, noise) in [(0, 0), (1, 0), (2 + cx.rng.next() % 1_000_000, 1), (2 + cx.rng.next() % 1_000_000, 12)] {
        let args = strs(&["plain", "digest", &seed.to_string(), &max.to_string(), &order.to_string(), &noise.to_string(), "1"]);
        at(&args.join(" "));
        let d = watch(child::own(&args), &format!("soupmon {}", args.join(" ")))?;
        let diff: Vec<&str> = d.out.lines().filter(|l| l.starts_with("diff")).take(5).collect();
        ensure!(diff.is_empty(), "the same input gave two results in one process (soupmon {}): {}", args.join(" "), diff.join("\n"));
        done.push((d, args.join(" ")));
    }
    for k in 1..done.len() {
        compare(cx, &done[0].0, &done[k].0, [&done[0].1, &done[k].1], seed, max)?;
    }
    for i in corpus(seed, 18, max) {
        cx.eval(i.bytes(), true);
    }
    cx.count("processes", 4);
    cx.sample(|| format!("{} and three other orders agree", done[0].1));
    Ok(())
}

fn agree(before: &Obs, after: &Obs, what: &str, i: &In) -> Res {
    ensure!(before == after, "another result {what}: {before:?} before, {after:?} after\n{}", i.show());
    Ok(())
}

fn c20_histories(cx: &mut Cx) -> Res {
    let i = work::input(&mut cx.rng, 60, cx.idx as usize, None);
    at(&i.show());
    let seed = cx.rng.next();
    let before = work::run(&i, seed);
    agree(&before, &work::run(&i, seed), "at once again", &i)?;
    for _ in 0..cx.rng.range(1, 12) {
        disturb(&mut cx.rng, 40);
        cx.count("other events in between", 1);
    }
    agree(&before, &work::run(&i, seed), "after other work", &i)?;
    let j = i.clone();
    let there = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || work::run(&j, seed))
        .unwrap()
        .join()
        .map_err(|_| format!("panic in another thread\n{}", i.show()))?;
    agree(&before, &there, "in another thread", &i)?;
    cx.count("repetitions compared", 3);
    cx.eval(i.bytes(), !before.failed && before.nodes > 2);
    cx.sample(|| i.show());
    Ok(())
}

/// Different texts at one address, one text at different addresses.
fn c20_buffers(cx: &mut Cx) -> Res {
    let mut docs: Vec<In> = vec![];
    let base = corpus(cx.rng.next(), 3, 20);
    for _ in 0..6 {
        let w = cx.rng.pick(&["lt", "gt", "Mu", "Nu", "Pi", "Xi"]);
        let n = cx.rng.pick(&["a", "b", "i", "p"]);
        let v = cx.rng.range(100, 999);
        docs.push(In::Strict(format!("<{n} k='&{w};{v}'>{v}&{w};&#{v};<br id={v}></{n}>")));
        docs.push(In::Xml(format!("<{n} k='&lt;{v}'>{v}&gt;&#{v};<c id='{v}'/></{n}>").into_bytes()));
        docs.push(In::Lenient(format!("<{n} k='&{w};{v}'>{v}&{w};&#{v};<br id={v}></{n}>")));
    }
    docs.extend(base);
    let seed = cx.rng.next();
    let fresh: Vec<Obs> = docs.iter().map(|d| work::run(d, seed)).collect();
    let mut buf = [In::Strict(String::with_capacity(1 << 16)), In::Lenient(String::with_capacity(1 << 16)), In::Xml(Vec::with_capacity(1 << 16))];
    for _ in 0..60 {
        let k = cx.rng.below(docs.len());
        let slot = match (&docs[k], &mut buf) {
            (In::Strict(d), [b @ In::Strict(_), _, _]) => {
                if let In::Strict(s) = b {
                    s.clear();
                    s.push_str(d);
                }
                &*b
            }
            (In::Lenient(d), [_, b, _]) => {
                if let In::Lenient(s) = b {
                    s.clear();
                    s.push_str(d);
                }
                &*b
            }
            (In::Xml(d), [_, _, b]) => {
                if let In::Xml(s) = b {
                    s.clear();
                    s.extend_from_slice(d);
                }
                &*b
            }
            _ => unreachable!(),
        };
        agree(&fresh[k], &work::run(slot, seed), "from a buffer that held another text", slot)?;
        cx.count("reused buffers compared", 1);
        cx.eval(docs[k].bytes(), !fresh[k].failed);
    }
    Ok(())
}

/// Documents that hardly differ, each with a single text, value or name, at one address.
fn c20_twins(cx: &mut Cx) -> Res {
    const SETS: &[&[&str]] = &[
        &["abcde", "&amp;", "&lt;x", "x&gt;", "&#65;", "&#x9", "&#x9;", "vwxyz", "&AMP;", "\u{e9}1\u{e9}", "&amp", "a&b;c", "ABCDE"],
        &["abcdefgh", "&eacute;", "&Eacute;", "&frac12;", "&EACUTE;", "&#x1F4A;", "&#12345;", "x&amp;y&x", "x&lt;yxyz", "&lt;&gt;"],
        &["ab", "br", "hr", "h1", "li", "LI", "\u{e9}", "&x", "a&", "--"],
        &["script", "scripu", "styles", "SCRIPT", "colgro", "source", "&#065;", "&quot;"],
        &["the same length as the name", "&CounterClockwiseContourInt", "&amp;&amp;&amp;&lt;&#65;&x;x", "&lt;&lt;&lt;&lt;&lt;&lt;&l;"],
    ];
    const HOLES: &[&str] = &[
        "@", "<a>@</a>", "<a b='@'></a>", "<a b=\"@\"></a>", "<a b=@></a>", "<a @=b></a>", "<@></@>", "<@>", "<@/>", "<!--@--><a/>", "<script>@</script>",
        "<a><b>@</b></a>", "<a b='@'/>", "<!doctype @><a/>", "<a><![CDATA[@]]></a>", "<a></a>@", "<a b='' c='@'></a>",
    ];
    fn see(i: &In) -> String {
        match i {
            In::Strict(s) => match Soup::html_strict(forever(s)) {
                Ok(s) => format!("{s:?}"),
                Err(e) => e.to_string(),
            },
            In::Lenient(s) => format!("{:?}", Soup::html(s)),
            In::Xml(b) => match Soup::xml(&b[..]) {
                Ok(s) => format!("{s:?}"),
                Err(e) => e.to_string(),
            },
        }
    }
    let set = SETS[cx.idx as usize % SETS.len()];
    let hole = HOLES[cx.idx as usize / SETS.len() % HOLES.len()];
    for kind in 0..3 {
        // each at an address of its own, all at once
        let own: Vec<In> = set
            .iter()
            .map(|w| {
                let d = hole.replace('@', w);
                match kind {
                    0 => In::Strict(d),
                    1 => In::Lenient(d),
                    _ => In::Xml(d.into_bytes()),
                }
            })
            .collect();
        let want: Vec<String> = own.iter().map(see).collect();
        // and all at one
        let mut one = match kind {
            0 => In::Strict(String::with_capacity(256)),
            1 => In::Lenient(String::with_capacity(256)),
            _ => In::Xml(Vec::with_capacity(256)),
        };
        let put = |d: &In, one: &mut In| match (d, one) {
            (In::Strict(d), In::Strict(s)) | (In::Lenient(d), In::Lenient(s)) => {
                s.clear();
                s.push_str(d);
            }
            (In::Xml(d), In::Xml(s)) => {
                s.clear();
                s.extend_from_slice(d);
            }
            _ => unreachable!(),
        };
        for a in 0..own.len() {
            for b in 0..own.len() {
                for k in [a, b] {
                    put(&own[k], &mut one);
                    let got = see(&one);
                    ensure!(got == want[k], "in the place of another text: {got}, elsewhere {}\n{}", want[k], one.show());
                }
                cx.count("texts put in the place of another", 2);
            }
            cx.eval(own[a].bytes(), true);
        }
    }
    Ok(())
}

/// Many rejected inputs, then good ones.
/// The same document at every alignment: something worth noticing behind and before
/// any length of what is not, read by whoever reads words and not bytes.
fn c20_aligned(cx: &mut Cx) -> Res {
    const HOLES: [&str; 14] = [
        "@", "<a>@</a>", "<a b='@'></a>", "<a b=\"@\"></a>", "<a b=@></a>", "<a x@ c='d'></a>", "<x@></x@>", "<!--@--><a/>", "<script>@</script>",
        "<a><b>@</b>@</a>", "<!doctype @><a/>", "<a><![CDATA[@]]></a>", "<a></a>@", "<a b='' c='@'>@</a>",
    ];
    const MARKS: [&str; 20] = [
        "", "&lt;", "&#65;", "&eacute;", "&", "é", "🦀", "\u{a0}", "\r\n", "\n", "\t", "Z", "<b/>", "<", ">", "--", "\"", "'", "</a>", "]]>",
    ];
    let hole = HOLES[cx.idx as usize % HOLES.len()];
    for _ in 0..12 {
        let mark = *cx.rng.pick(&MARKS);
        let fill = *cx.rng.pick(&["a", "b", "0", "aé", "x y"]);
        let most = if cx.rng.pct(80) { 40 } else { 300 };
        let (before, after) = (cx.rng.below(most), cx.rng.below(24));
        let word = format!("{}{mark}{}", fill.repeat(before), fill.repeat(after));
        let doc = hole.replace('@', &word);
        let mut room = vec![0u64; doc.len() / 8 + 20];
        let bytes: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(room.as_mut_ptr().cast(), room.len() * 8) };
        let start = (64 - bytes.as_ptr() as usize % 64) % 64;
        let mut first: Option<[String; 3]> = None;
        let span = if cx.rng.pct(10) { 64 } else { 16 };
        for off in 0..span {
            bytes.fill(*cx.rng.pick(b"<&\0 ;"));
            let at = start + off;
            bytes[at..at + doc.len()].copy_from_slice(doc.as_bytes());
            let here = std::str::from_utf8(&bytes[at..at + doc.len()]).unwrap();
            let strict = match Soup::html_strict(here) {
                Ok(s) => format!("{s:?}"),
                Err(e) => e.to_string(),
            };
            let xml = match Soup::xml(here.as_bytes()) {
                Ok(s) => format!("{s:?}"),
                Err(e) => e.to_string(),
            };
            let lenient = if off % 4 == 0 || first.is_none() { format!("{:?}", Soup::html(here)) } else { first.as_ref().unwrap()[1].clone() };
            let all = [strict, lenient, xml];
            match &first {
                None => first = Some(all),
                Some(f) => ensure!(*f == all, "the same document {off} bytes further on: {all:?}, before {f:?}"),
            }
            cx.count("alignments compared", 1);
        }
        cx.eval(doc.as_bytes(), !mark.is_empty());
    }
    Ok(())
}

fn c20_failures(cx: &mut Cx) -> Res {
    let good = corpus(cx.rng.next(), 9, 40);
    let seed = cx.rng.next();
    let before: Vec<Obs> = good.iter().map(|d| work::run(d, seed)).collect();
    for _ in 0..2000 {
        fail(&mut cx.rng);
    }
    cx.count("rejected inputs before", 2000);
    for (d, b) in good.iter().zip(&before) {
        agree(b, &work::run(d, seed), "after many rejected inputs", d)?;
        cx.eval(d.bytes(), !b.failed);
        cx.count("repetitions compared", 1);
    }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        families: vec![
            fam("processes", 128, 8000, c20_processes),
            fam("buffers", 480, 20_000, c20_buffers),
            fam("twins", 85, 85, c20_twins),
            fam("aligned", 1400, 70_000, c20_aligned),
            fam("failures", 40, 2000, c20_failures),
            fam("histories", 4800, 200_000, c20_histories),
        ],
        need: vec![
            ("processes", 250),
            ("observations compared with another process", 5000),
            ("repetitions compared", 7000),
            ("other events in between", 10_000),
            ("reused buffers compared", 10_000),
            ("alignments compared", 200_000),
            ("texts put in the place of another", 20_000),
            ("rejected inputs before", 50_000),
        ],
        rule: "an input observed again (tree, Debug form, query results, sub-soups, error) after, among or without other work, in the same or another process or thread; non-trivial if it parses; distinct by input",
        assumptions: vec!["observations are compared as 64-bit hashes of all that was seen"],
    }
}

// ---------------------------------------------------------------------- C21

// The parser contract.

struct Tok {
    body: Box<[u64]>,
    fail: bool,
}
/// Neither Clone nor Debug nor anything else; tells when it is dropped.
struct Plain {
    id: u64,
    kids: Vec<Plain>,
}
struct Bad(Box<u64>);
thread_local! {
    static CALLS: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) };
    static DROPS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static BOX: Cell<usize> = const { Cell::new(0) };
    static ASKED: RefCell<Vec<(u8, usize, bool)>> = const { RefCell::new(vec![]) };
}
impl Drop for Plain {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.id));
    }
}
impl Node for Plain {
    type Text = ();
    fn name(&self) -> Option<&()> {
        None
    }
    fn text(&self) -> Option<&()> {
        None
    }
    fn attrs(&self) -> Option<&BTreeMap<(), ()>> {
        None
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}
struct Spy;
impl Parser for Spy {
    type Input = Tok;
    type Node = Plain;
    type Error = Bad;
    fn parse(t: Tok) -> Result<Vec<Plain>, Bad> {
        CALLS.with(|c| c.borrow_mut().push((t.body.as_ptr() as usize, t.body.len())));
        if t.fail {
            let b = Box::new(t.body.len() as u64);
            BOX.with(|p| p.set(addr(&*b)));
            return Err(Bad(b));
        }
        Ok(t.body.iter().map(|id| Plain { id: *id, kids: (0..id % 3).map(|k| Plain { id: id * 10 + k + (1 << 40), kids: vec![] }).collect() }).collect())
    }
}
/// Borrowed inputs: the parser sees the very same memory.
struct Borrowing<'a>(PhantomData<&'a ()>);
impl<'a> Parser for Borrowing<'a> {
    type Input = (&'a str, &'a mut Vec<(usize, usize)>);
    type Node = query::UNode<Cow<'a, str>>;
    type Error = &'a str;
    fn parse(i: Self::Input) -> Result<Vec<Self::Node>, &'a str> {
        i.1.push((i.0.as_ptr() as usize, i.0.len()));
        match i.0.strip_prefix('!') {
            Some(e) => Err(e),
            None => Ok(i
                .0
                .split(',')
                .enumerate()
                .map(|(k, w)| query::UNode { id: k as u64, name: Some(w.into()), text: None, attrs: None, kids: vec![] })
                .collect()),
        }
    }
}

fn c21_parsers(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let n = if cx.rng.pct(5) { cx.rng.range(1000, 5000) } else { cx.rng.small(60) };
        let body: Vec<u64> = (0..n).map(|_| cx.rng.next() >> 30).collect();
        let fail = cx.rng.pct(30);
        let t = Tok { body: body.clone().into(), fail };
        let want = (t.body.as_ptr() as usize, n);
        CALLS.with(|c| c.borrow_mut().clear());
        DROPS.with(|c| c.borrow_mut().clear());
        let r = Soup::new::<Spy>(t);
        let calls = CALLS.with(|c| c.borrow().clone());
        ensure!(calls.len() == 1, "Soup::new called the parser {} times", calls.len());
        ensure!(calls[0] == want, "the parser was given another input than Soup::new");
        cx.count("parsers called", 1);
        match r {
            Err(Bad(b)) => {
                ensure!(fail, "Soup::new failed, its parser did not");
                ensure!(addr(&*b) == BOX.with(Cell::get) && *b == n as u64, "Soup::new returned another error than its parser");
                cx.count("errors handed through", 1);
            }
            Ok(s) => {
                ensure!(!fail, "Soup::new succeeded, its parser failed");
                let mut ids = vec![];
                for id in &body {
                    ids.push(*id);
                    ids.extend((0..id % 3).map(|k| id * 10 + k + (1 << 40)));
                }
                let got: Vec<u64> = s.iter().map(|n| n.id).collect();
                ensure!(got == ids, "Soup::new does not hold its parser's nodes: {got:?}, expected {ids:?}");
                let top: Vec<u64> = s.strict().all().map(|n| n.id).collect();
                ensure!(top == body, "Soup::new does not hold its parser's top-level nodes: {top:?}, expected {body:?}");
                ensure!(DROPS.with(|d| d.borrow().is_empty()), "nodes were dropped while the soup is alive");
                drop(s);
                let mut d = DROPS.with(|d| d.borrow().clone());
                d.sort_unstable();
                ids.sort_unstable();
                ensure!(d == ids, "the soup's nodes were dropped {d:?}, expected {ids:?} once each");
                cx.count("nodes handed through", ids.len() as u64);
            }
        }
        // a borrowed input
        let text = format!("{}{}", if cx.rng.pct(30) { "!" } else { "" }, body.iter().take(9).map(|b| format!("n{b}")).collect::<Vec<_>>().join(","));
        let mut seen = vec![];
        let r = Soup::new::<Borrowing<'_>>((&text, &mut seen));
        match r {
            Err(e) => ensure!(text.len() == e.len() + 1 && e.as_ptr() as usize == text.as_ptr() as usize + 1, "another error than the parser's: {e}"),
            Ok(s) => {
                let got: Vec<String> = s.iter().map(|n| n.name.clone().unwrap().into_owned()).collect();
                let want: Vec<&str> = text.split(',').collect();
                ensure!(got == want && !text.starts_with('!'), "names {got:?}, the parser gave {want:?}");
            }
        }
        ensure!(seen == [(text.as_ptr() as usize, text.len())], "a borrowed input arrived as {seen:?}");
        cx.count("parsers called", 1);
        cx.eval(text.as_bytes(), n > 1);
    }
    Ok(())
}

// Nodes of unusual shapes.

/// A text type that is no string.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Key(u32);
impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl<'a> From<&'a u32> for Key {
    fn from(n: &'a u32) -> Key {
        Key(*n)
    }
}
/// Nodes may share their children.
#[derive(Clone, Debug)]
struct Num {
    name: Option<Key>,
    text: Option<Key>,
    attrs: Option<BTreeMap<Key, Key>>,
    kids: std::sync::Arc<[Num]>,
}
impl Node for Num {
    type Text = Key;
    fn name(&self) -> Option<&Key> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&Key> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<Key, Key>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Num] {
        &self.kids
    }
}
#[derive(Clone, Copy)]
enum KeyPat {
    Is(u32, bool),
    Mod(u32),
}
impl Pattern<Key> for KeyPat {
    fn matches(&self, h: &Key) -> bool {
        match self {
            KeyPat::Is(k, _) => h.0 == *k,
            KeyPat::Mod(m) => h.0 % m == 0,
        }
    }
    fn value(&self) -> Option<Key> {
        match self {
            KeyPat::Is(k, true) => Some(Key(*k)),
            _ => None,
        }
    }
}

fn num(rng: &mut Rng, depth: usize, pool: &mut Vec<std::sync::Arc<[Num]>>) -> Num {
    let kids: std::sync::Arc<[Num]> = if depth == 0 {
        [].into()
    } else if !pool.is_empty() && rng.pct(30) {
        rng.pick(pool).clone()
    } else {
        let v: Vec<Num> = (0..rng.below(4)).map(|_| num(rng, depth - 1, pool)).collect();
        pool.push(v.into());
        pool.last().unwrap().clone()
    };
    Num {
        name: rng.pct(70).then(|| Key(rng.below(6) as u32)),
        text: rng.pct(40).then(|| Key(rng.below(100) as u32)),
        attrs: rng.pct(60).then(|| (0..rng.below(5)).map(|_| (Key(rng.below(6) as u32), Key(rng.below(6) as u32))).collect()),
        kids,
    }
}
fn flat<'a>(n: &'a Num, out: &mut Vec<&'a Num>) {
    out.push(n);
    for k in n.kids.iter() {
        flat(k, out);
    }
}
fn ptrs<'a>(v: impl IntoIterator<Item = &'a Num>) -> Vec<usize> {
    v.into_iter().map(addr).collect()
}

fn c21_nodes(cx: &mut Cx) -> Res {
    let mut pool = vec![];
    let n = cx.rng.below(5);
    let depth = cx.rng.range(0, 5);
    let nodes: Vec<Num> = (0..n).map(|_| num(&mut cx.rng, depth, &mut pool)).collect();
    let soup = query::soup_of(nodes.clone());
    at(&format!("{nodes:?}"));
    let top: Vec<QueryItem<'_, Num>> = soup.strict().all().collect();
    ensure!(top.len() == n, "strict() gives {} of {n} nodes", top.len());
    let mut all = vec![];
    for t in &top {
        flat(t, &mut all);
        let mut own = vec![];
        flat(t, &mut own);
        ensure!(ptrs(t.descendants()) == ptrs(own.iter().copied()), "descendants() of a node with shared children\n{nodes:?}");
        let want: Vec<String> = own.iter().filter_map(|n| n.text.map(|t| t.to_string())).collect();
        ensure!(t.all_text() == want.join("\n"), "all_text() is {:?}, expected {want:?}\n{nodes:?}", t.all_text());
    }
    let items: Vec<QueryItem<'_, Num>> = soup.iter().collect();
    ensure!(ptrs(items.iter().map(|i| &**i)) == ptrs(all.iter().copied()), "iterating a soup with shared children\n{nodes:?}");
    for n in &all {
        for k in 0..7u32 {
            let want = n.attrs.as_ref().and_then(|m| m.get(&Key(k)));
            ensure!(n.get(&k).map(addr) == want.map(addr), "get({k}) on {n:?}");
        }
    }
    let shared = ptrs(all.iter().copied());
    let mut u = shared.clone();
    u.sort_unstable();
    u.dedup();
    cx.count("nodes reached by several paths", (shared.len() - u.len()) as u64);
    let m = |p: KeyPat, k: &Key| p.matches(k);
    for _ in 0..8 {
        let mut p = || {
            let k = cx.rng.below(6) as u32;
            match cx.rng.below(3) {
                0 => KeyPat::Is(k, true),
                1 => KeyPat::Is(k, false),
                _ => KeyPat::Mod(k + 1),
            }
        };
        let (a, b, c) = (p(), p(), p());
        let strict = cx.rng.pct(25);
        let scope: Vec<&Num> = if strict { top.iter().map(|t| &**t).collect() } else { all.clone() };
        let tag = |n: &&Num| n.name.is_some_and(|k| m(a, &k));
        let attr = |n: &&Num| n.attrs.iter().flatten().any(|(k, v)| m(b, k) && m(c, v));
        macro_rules! cmp {
            ($what:literal, $q:expr, $w:expr) => {{
                let got = ptrs($q.all().map(|i| unsafe { &*std::ptr::from_ref::<Num>(&*i) }));
                let want = ptrs(scope.iter().copied().filter($w));
                ensure!(got == want, "{} gives {} nodes, expected {} (strict {strict})\n{nodes:?}", $what, got.len(), want.len());
                cx.count("queries over nodes without strings", 1);
                cx.count("results over nodes without strings", got.len() as u64);
            }};
        }
        let q = || if strict { soup.strict() } else { soup.recursive() };
        cmp!("tag", q().tag(a), tag);
        cmp!("attr", q().attr(b, c), attr);
        cmp!("attr_name", q().attr_name(b), |n: &&Num| n.attrs.iter().flatten().any(|(k, _)| m(b, k)));
        cmp!("attr_value", q().attr_value(c), |n: &&Num| n.attrs.iter().flatten().any(|(_, v)| m(c, v)));
        cmp!("tag and attr", q().tag(a).attr(b, c), |n: &&Num| tag(n) && attr(n));
        cmp!("attr and tag(true)", q().attr(b, c).tag(true), |n: &&Num| attr(n) && n.name.is_some());
    }
    if let Some(i) = items.get(cx.rng.below(items.len().max(1))) {
        let s = i.query();
        let got: Vec<String> = s.iter().map(|n| format!("{:?}{:?}{:?}", n.name, n.text, n.attrs)).collect();
        let mut own = vec![];
        flat(i, &mut own);
        let want: Vec<String> = own[1..].iter().map(|n| format!("{:?}{:?}{:?}", n.name, n.text, n.attrs)).collect();
        ensure!(got == want, "query() of a node with shared children\n{nodes:?}");
    }
    cx.eval(format!("{nodes:?}").as_bytes(), all.len() > 2);
    Ok(())
}

/// Nodes without size or identity.
#[derive(Clone)]
struct Nothing;
impl Node for Nothing {
    type Text = ();
    fn name(&self) -> Option<&()> {
        Some(&())
    }
    fn text(&self) -> Option<&()> {
        None
    }
    fn attrs(&self) -> Option<&BTreeMap<(), ()>> {
        None
    }
    fn children(&self) -> &[Self] {
        &[]
    }
}

fn c21_sizeless(cx: &mut Cx) -> Res {
    let n = cx.rng.below(300);
    let s = query::soup_of(vec![Nothing; n]);
    let got = [s.iter().count(), s.tag(true).all().count(), s.strict().tag(true).all().count(), s.strict().all().count(), s.clone().iter().count()];
    ensure!(got == [n; 5], "a soup of {n} nodes without size gives {got:?}");
    ensure!(s.tag(false).first().is_none() && s.attr(true, true).first().is_none(), "nodes without attributes match");
    cx.count("soups of nodes without size", 1);
    cx.eval(&n.to_le_bytes(), n > 0);
    Ok(())
}

/// soupy's own nodes over a text type of the user's: each accessor gives the very field.
fn holds_fields<S: Ord + Clone + fmt::Debug>(cx: &mut Cx, n: &HTMLNode<S>) -> Result<usize, String> {
    let (name, text, attrs, kids) = match n {
        HTMLNode::Comment(_) | HTMLNode::Doctype(_) => (None, None, None, None),
        HTMLNode::Text(t) => (None, Some(t), None, None),
        HTMLNode::Element { name, attrs, children } => (Some(name), None, Some(attrs), Some(children)),
        HTMLNode::RawElement { name, attrs, .. } | HTMLNode::Void { name, attrs } => (Some(name), None, Some(attrs), None),
    };
    let same = |a: Option<&S>, b: Option<&S>| a.map(addr) == b.map(addr);
    ensure!(same(n.name(), name) && same(n.text(), text), "name or text of {n:?}");
    ensure!(n.attrs().map(addr) == attrs.map(addr), "attributes of {n:?}");
    let kids = kids.map_or(&[][..], |k| k);
    let got = n.children();
    ensure!(got.len() == kids.len() && (kids.is_empty() || got.as_ptr() == kids.as_ptr()), "children of {n:?}: {}", got.len());
    ensure!(n.iter().count() == kids.len() && n.into_iter().count() == kids.len(), "direct iteration of {n:?}");
    let mut all = 1;
    for k in kids {
        all += holds_fields(cx, k)?;
    }
    ensure!(n.descendants().count() == all, "descendants of {n:?}");
    cx.count("nodes over a user's text type", 1);
    Ok(all)
}

fn over<S: Ord + Clone + fmt::Debug>(cx: &mut Cx, make: &dyn Fn(usize) -> S) -> Res {
    fn grow<S: Ord>(rng: &mut Rng, make: &dyn Fn(usize) -> S, depth: usize) -> HTMLNode<S> {
        let word = |rng: &mut Rng| make(rng.below(5));
        let attrs: BTreeMap<S, S> = (0..rng.below(4)).map(|_| (word(rng), word(rng))).collect();
        match rng.below(9) {
            0 => HTMLNode::Comment(word(rng)),
            1 => HTMLNode::Doctype(word(rng)),
            2 | 3 => HTMLNode::Text(word(rng)),
            4 => HTMLNode::RawElement { name: word(rng), attrs, content: word(rng) },
            5 => HTMLNode::Void { name: word(rng), attrs },
            _ => {
                let n = if depth == 0 { 0 } else { rng.below(4) };
                HTMLNode::Element { name: word(rng), attrs, children: (0..n).map(|_| grow(rng, make, depth - 1)).collect() }
            }
        }
    }
    let mut top = vec![];
    for _ in 0..cx.rng.range(1, 3) {
        top.push(grow(&mut cx.rng, make, 4));
    }
    let mut n = 0;
    for t in &top {
        n += holds_fields(cx, t)?;
    }
    cx.eval(format!("{}{top:?}", std::any::type_name::<S>()).as_bytes(), n > 2);
    let strict = top.len();
    let named = top.iter().flat_map(|t| t.descendants()).filter(|t| t.name().is_some()).count();
    let with = top.iter().flat_map(|t| t.descendants()).filter(|t| t.attrs().is_some_and(|a| !a.is_empty())).count();
    let s = query::soup_of(top.clone());
    let got = [s.iter().count(), s.strict().all().count(), s.tag(true).all().count(), s.attr(true, true).all().count()];
    ensure!(got == [n, strict, named, with], "queries over {top:?}: {got:?}, expected {:?}", [n, strict, named, with]);
    for (t, i) in top.iter().flat_map(|t| t.descendants()).zip(s.iter()) {
        let sub = i.query();
        ensure!(sub.iter().count() + 1 == t.descendants().count() && *i == *t, "sub-soup of {t:?}");
    }
    Ok(())
}

fn c21_generic(cx: &mut Cx) -> Res {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    struct Unit;
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    struct Big([u64; 9]);
    for _ in 0..5 {
        over(cx, &|_| Unit)?;
        over(cx, &|_| ())?;
        over(cx, &|i| i as u8)?;
        over(cx, &|i| i > 2)?;
        over(cx, &|i| Big([i as u64; 9]))?;
        over(cx, &|i| "ab c ".repeat(i))?;
        over(cx, &|i| Rc::<str>::from("ab c ".repeat(i)))?;
        over(cx, &|i| "a\0".repeat(i).into_bytes().into_boxed_slice())?;
        over(cx, &|i| Some(i).filter(|i| *i > 2))?;
        over(cx, &|i| vec![String::new(); i])?;
    }
    Ok(())
}

// Patterns and filters that decide by where they are asked, and remember it.

fn says(salt: u64, a: usize) -> bool {
    let mut x = salt ^ a as u64;
    rng::splitmix(&mut x) % 5 < 2
}
struct Ask {
    role: u8,
    salt: u64,
}
impl<S> Pattern<S> for Ask {
    fn matches(&self, h: &S) -> bool {
        let a = addr(h);
        let y = says(self.salt, a);
        ASKED.with(|l| l.borrow_mut().push((self.role, a, y)));
        y
    }
}
struct AskNode(u8, u64);
impl<N> Filter<N> for AskNode {
    fn matches(&self, n: &N) -> bool {
        let a = addr(n);
        let y = says(self.1, a);
        ASKED.with(|l| l.borrow_mut().push((self.0, a, y)));
        y
    }
}
fn asked() -> Vec<(u8, usize, bool)> {
    ASKED.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

struct J21;
impl super::queries::Job for J21 {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &super::queries::Env<N>) -> Res {
        let all: Vec<QueryItem<'_, N>> = e.soup.iter().collect();
        let [a, b, c, d] = [1, 2, 3, 4].map(|_| cx.rng.next());
        let ask = |role, salt| Ask { role, salt };
        // where each role may be asked
        let mut place: [HashMap<usize, usize>; 3] = Default::default();
        for (i, n) in all.iter().enumerate() {
            if let Some(s) = n.name() {
                place[0].insert(addr(s), i);
            }
            for (k, v) in n.attrs().into_iter().flatten() {
                place[1].insert(addr(k), i);
                place[2].insert(addr(v), i);
            }
        }
        let tag = |n: &N, s: u64| n.name().is_some_and(|x| says(s, addr(x)));
        let attr = |n: &N| n.attrs().into_iter().flatten().any(|(k, v)| says(b, addr(k)) && says(c, addr(v)));
        for strict in [false, true] {
            let q = || if strict { e.soup.strict() } else { e.soup.recursive() };
            macro_rules! run {
                ($what:literal, $q:expr, $w:expr) => {{
                    asked();
                    let got: Vec<usize> = $q.all().map(|i| addr(&*i)).collect();
                    let log = asked();
                    let want: Vec<usize> = all
                        .iter()
                        .zip(&e.snap.ents)
                        .filter(|(n, x)| (!strict || x.depth == 0) && $w(&***n))
                        .map(|(n, _)| addr(&**n))
                        .collect();
                    ensure!(
                        got == want,
                        "{} with patterns that decide by address gives {} nodes, the patterns accept {} (strict {strict})",
                        $what,
                        got.len(),
                        want.len()
                    );
                    for (role, at, _) in &log {
                        let r = usize::from(*role % 3);
                        let Some(i) = place[r].get(at) else {
                            return Err(format!(
                                "{}: the pattern for {} was asked about something else",
                                $what,
                                ["the tag name", "attribute names", "attribute values"][r]
                            ));
                        };
                        ensure!(!strict || e.snap.ents[*i].depth == 0, "{}: a pattern was asked about a node out of scope", $what);
                    }
                    cx.count("patterns consulted", log.len() as u64);
                    cx.count("answers that selected a node", got.len() as u64);
                    cx.eval(format!("{}{a}{strict}", $what).as_bytes(), !got.is_empty());
                    log
                }};
            }
            let log = run!("tag", q().tag(ask(0, a)), |n: &N| tag(n, a));
            // every element in scope has been asked about
            let scope = e.snap.ents.iter().filter(|x| x.name.is_some() && (!strict || x.depth == 0)).count();
            let mut at: Vec<usize> = log.iter().map(|l| l.1).collect();
            at.sort_unstable();
            at.dedup();
            ensure!(at.len() == scope, "tag: the pattern was asked about {} of {scope} elements", at.len());
            run!("attr", q().attr(ask(1, b), ask(2, c)), attr);
            run!("attr_name", q().attr_name(ask(1, b)), |n: &N| n.attrs().into_iter().flatten().any(|(k, _)| says(b, addr(k))));
            run!("attr_value", q().attr_value(ask(2, c)), |n: &N| n.attrs().into_iter().flatten().any(|(_, v)| says(c, addr(v))));
            run!("class", q().class(ask(2, c)), |n: &N| n
                .attrs()
                .into_iter()
                .flatten()
                .any(|(k, v)| k.as_ref() == "class" && says(c, addr(v))));
            run!("tag, attr, tag", q().tag(ask(0, a)).attr(ask(1, b), ask(2, c)).tag(ask(3, d)), |n: &N| tag(n, a) && attr(n) && tag(n, d));
        }
        // filters, on each node
        for n in &all {
            let n: &N = n;
            let (x, y, z) = (says(a, addr(n)), says(b, addr(n)), says(c, addr(n)));
            let f = |k: u8| AskNode(k, [a, b, c][usize::from(k)]);
            macro_rules! on {
                ($what:literal, $f:expr, $w:expr) => {{
                    asked();
                    let got = Filter::<N>::matches(&$f, n);
                    let log = asked();
                    ensure!(got == $w, "{} of user filters answering {x} {y} {z} is {got}", $what);
                    ensure!(log.iter().all(|l| l.1 == addr(n)), "{}: a filter was asked about another node", $what);
                    cx.count("filters consulted", log.len() as u64);
                }};
            }
            on!("And", And(f(0), f(1)), x && y);
            on!("Or", Or(f(0), f(1)), x || y);
            on!("And(Or, And)", And(Or(f(0), f(1)), And(f(2), ())), (x || y) && z);
            on!("Or(And, Or)", Or(And(f(0), f(1)), Or(f(2), And(f(0), f(2)))), x && y || z);
            on!("And(Tag, Or)", And(Tag { tag: true }, Or(f(0), f(2))), n.name().is_some() && (x || z));
            on!("Or(Attr, And)", Or(Attr { name: "class", value: true }, And((), f(1))), n.attrs().is_some_and(|m| m.keys().any(|k| k.as_ref() == "class")) || y);
        }
        // a pattern with a memory: each name once
        let seen = Rc::new(RefCell::new((std::collections::BTreeSet::new(), vec![])));
        struct Once(Rc<RefCell<(std::collections::BTreeSet<String>, Vec<(usize, bool)>)>>);
        impl<S: AsRef<str>> Pattern<S> for Once {
            fn matches(&self, h: &S) -> bool {
                let mut m = self.0.borrow_mut();
                let y = m.0.insert(h.as_ref().to_string());
                m.1.push((addr(h), y));
                y
            }
        }
        let got: Vec<QueryItem<'_, N>> = e.soup.tag(Once(seen.clone())).all().collect();
        let log = seen.borrow().1.clone();
        for n in &all {
            let Some(name) = n.name() else { continue };
            let said: Vec<bool> = log.iter().filter(|l| l.0 == addr(name)).map(|l| l.1).collect();
            let hit = got.iter().any(|g| addr(&**g) == addr(&**n));
            ensure!(said.contains(&hit), "a pattern with a memory answered {said:?} for a node, which was {}selected", if hit { "" } else { "not " });
            if all.len() > 60 {
                break;
            }
        }
        cx.count("answers of a pattern with a memory", log.len() as u64);
        Ok(())
    }
}

fn c21_asked(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    super::queries::drive::<J21>(cx, k, 60)
}

/// Text handed to the lenient parser by a type of the user's.
struct Mine(Rc<Cell<u32>>, String);
impl AsRef<str> for Mine {
    fn as_ref(&self) -> &str {
        self.0.set(self.0.get() + 1);
        &self.1
    }
}
impl Drop for Mine {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1000);
    }
}
fn c21_texts(cx: &mut Cx) -> Res {
    let In::Lenient(d) = work::input(&mut cx.rng, 40, 1, None) else { unreachable!() };
    at(&d);
    let n = Rc::new(Cell::new(0));
    let a = Soup::html(Mine(n.clone(), d.clone()));
    ensure!(n.get() >= 1001 && n.get() < 2000, "the text was read {} times and dropped {} times", n.get() % 1000, n.get() / 1000);
    let b = Soup::html(d.as_str());
    ensure!(format!("{a:?}") == format!("{b:?}"), "a text of a user's type gives another soup\n{d:?}");
    cx.count("texts of a user's type", 1);
    cx.eval(d.as_bytes(), true);
    Ok(())
}

// User-defined parts that use the library while the library uses them.

/// A small job for the library with a known outcome.
fn errand(k: usize) {
    match k % 7 {
        0 => {
            let s = Soup::html_strict("<p class='x y' id=i>a&lt;b<b id=j>c</b></p><br>").expect("nested parse");
            assert_eq!(s.attr(true, "i").all().count(), 1, "an inner query by attribute");
            assert_eq!(s.tag("p").first().map(|p| p.all_text()), Some("a<b\nc".to_string()), "an inner text");
            assert_eq!(s.attr_name(regex::Regex::new("^i").unwrap()).all().count(), 2, "an inner query by expression");
        }
        1 => {
            let s = Soup::xml(&b"<r><a k='&lt;v'>x</a><!-- --><a/></r>"[..]).expect("nested parse");
            assert_eq!(s.tag("a").all().count(), 2, "an inner query of XML");
            assert_eq!(s.attr("k", "<v").first().map(|p| p.all_text()), Some("x".to_string()), "an inner text of XML");
        }
        2 => {
            let s = Soup::html("<p class=c>x<p>y&eacute;");
            assert_eq!(s.tag("p").all().count(), 2, "an inner query of lenient HTML");
            assert_eq!(s.class("c").all().count(), 1, "an inner query by class");
        }
        3 => {
            assert!(Soup::html_strict("<a b='").is_err() && Soup::html_strict("<a></b>").is_err(), "an inner parse that fails");
            assert!(Soup::xml(&b"<a>&x;"[..]).is_err(), "an inner XML parse that fails");
        }
        4 => {
            let s = Soup::html_strict("<script>&amp;</b></script><i a=&#65;>&amp;lt;</i>").expect("nested parse");
            assert_eq!(s.strict().attr_value("A").all().count(), 1, "an inner query by value");
            assert_eq!(s.iter().filter_map(|i| i.text().map(|t| t.to_string())).collect::<Vec<_>>(), ["&lt;"], "an inner text");
        }
        5 => {
            let n: Vec<query::UNode<query::UText>> = (0..3)
                .map(|k| query::UNode { id: k, name: Some("n".into()), text: None, attrs: Some([("class".into(), "v".into())].into()), kids: vec![] })
                .collect();
            let s = query::soup_of(n);
            assert_eq!(s.attr("class", "v").all().count(), 3, "an inner query of user-defined nodes");
            assert_eq!(s.attr(query::PatO(P::EqPlain("class".into())), query::PatO(P::NotEq("v".into()))).all().count(), 0, "an inner query by pattern");
            assert_eq!(s.clone().tag("n").all().count(), 3, "an inner copy");
        }
        _ => {
            let s = Soup::html_strict("<ul><li>1</li><li id=i>2<b>3</b></li></ul>").expect("nested parse");
            let sub = s.tag("li").all().last().map(|i| i.query());
            assert_eq!(sub.map(|s| s.iter().count()), Some(3), "an inner sub-query");
            assert_eq!(s.attr("id", true).tag("li").first().and_then(|i| i.get("id").map(|v| v.to_string())), Some("i".into()), "an inner attribute");
        }
    }
}

struct JRe;
impl super::queries::Job for JRe {
    fn run<N: Good, W: Pattern<N::Text> + From<P> + 'static>(cx: &mut Cx, e: &super::queries::Env<N>) -> Res {
        let turn = Cell::new(cx.rng.below(100));
        let done = Cell::new(0u64);
        let wrong = RefCell::new(None);
        let inner: Vec<Vec<query::Op>> = (0..4).map(|_| query::chain(&mut cx.rng, &e.vocab)).collect();
        let counts: Vec<usize> = inner.iter().map(|o| query::expect(&e.snap, o).len()).collect();
        let small = e.snap.ents.len() <= 40;
        let f = || {
            let k = turn.replace(turn.get() + 1);
            done.set(done.get() + 1);
            if k % 3 == 0 && small {
                // the very soup that is being queried
                let at = k / 3 % inner.len();
                let got = query::build::<N, W>(&e.soup, &inner[at]).all().count();
                if got != counts[at] {
                    *wrong.borrow_mut() = Some(format!("inside a user's part, soup{} gives {got} nodes, expected {}", query::show(&inner[at]), counts[at]));
                }
            } else {
                errand(k);
            }
        };
        let r = query::within(&f, || -> Res {
            for _ in 0..4 {
                let ops = query::chain(&mut cx.rng, &e.vocab);
                let n = query::check::<N, W>(&e.soup, &e.snap, &e.addrs, &ops)?;
                cx.count("results of queries consulting parts that query", n as u64);
                cx.eval(query::show(&ops).as_bytes(), n > 0);
            }
            for (k, i) in e.soup.iter().enumerate().take(30) {
                let want = e.snap.texts(k).join("\n");
                let got = i.all_text();
                ensure!(got == want, "all_text() of texts that query while they are written is {got:?}, expected {want:?}");
                for (a, b) in e.snap.ents[k].attrs.iter().flatten().take(2) {
                    if a == "class" {
                        ensure!(i.get("class").map(AsRef::as_ref) == Some(b.as_str()), "get() of names that query while they are compared");
                    }
                }
            }
            let copy = e.soup.clone();
            ensure!(copy.iter().zip(&e.snap.ents).all(|(n, x)| query::same(&*n, x)), "a copy of texts that query while they are copied");
            Ok(())
        });
        cx.count("queries and parses by parts being consulted", done.get());
        if let Some(w) = wrong.take() {
            return Err(w);
        }
        r
    }
}
fn c21_reentrant(cx: &mut Cx) -> Res {
    let k = cx.idx as usize;
    super::queries::drive::<JRe>(cx, k, 40)
}

/// Parsers, readers, texts, nodes and filters that use the library themselves.
fn c21_nested(cx: &mut Cx) -> Res {
    struct Inner;
    impl Parser for Inner {
        type Input = usize;
        type Node = query::UNode<String>;
        type Error = String;
        fn parse(k: usize) -> Result<Vec<Self::Node>, String> {
            (0..7).for_each(errand);
            if k % 4 == 3 {
                return Err(match Soup::html_strict("<a") {
                    Ok(_) => "no error".into(),
                    Err(e) => e.to_string(),
                });
            }
            let s = Soup::xml(&b"<r><a/><b/></r>"[..]).map_err(|e| e.to_string())?;
            Ok(s.iter().map(|n| query::UNode { id: 0, name: n.name().cloned(), text: None, attrs: None, kids: vec![] }).collect())
        }
    }
    struct Busy<'a>(&'a [u8], usize);
    impl std::io::Read for Busy<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.1 += 1;
            errand(self.1);
            let n = (self.1 % 5 + 1).min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    struct Talk(Cell<usize>, String);
    impl AsRef<str> for Talk {
        fn as_ref(&self) -> &str {
            (0..7).for_each(|k| errand(k + self.0.get()));
            &self.1
        }
    }
    /// a node that queries to answer
    #[derive(Clone)]
    struct Asking(query::UNode<String>, Vec<Asking>);
    impl Asking {
        fn of(n: &query::UNode<String>) -> Asking {
            Asking(query::UNode { kids: vec![], ..n.clone() }, n.kids.iter().map(Asking::of).collect())
        }
    }
    impl Node for Asking {
        type Text = String;
        fn name(&self) -> Option<&String> {
            errand(self.0.id as usize);
            self.0.name.as_ref()
        }
        fn text(&self) -> Option<&String> {
            errand(self.0.id as usize + 1);
            self.0.text.as_ref()
        }
        fn attrs(&self) -> Option<&BTreeMap<String, String>> {
            errand(self.0.id as usize + 2);
            self.0.attrs.as_ref()
        }
        fn children(&self) -> &[Asking] {
            errand(self.0.id as usize + 3);
            &self.1
        }
    }
    struct Sieve(usize);
    impl<N: Node<Text = String>> Filter<N> for Sieve {
        fn matches(&self, n: &N) -> bool {
            errand(self.0);
            n.attrs().is_some_and(|m| m.contains_key("class"))
        }
    }
    let k = cx.idx as usize;
    match Soup::new::<Inner>(k) {
        Ok(s) => {
            let got: Vec<String> = s.iter().map(|n| n.name.clone().unwrap_or_default()).collect();
            ensure!(got == ["r", "a", "b"] && k % 4 != 3, "a parser made of the library's own gives {got:?}");
        }
        Err(e) => {
            let want = Soup::html_strict("<a").err().map(|e| e.to_string());
            ensure!(k % 4 == 3 && Some(&e) == want.as_ref(), "a parser made of the library's own fails with {e:?}");
        }
    }
    let In::Xml(d) = work::input(&mut cx.rng, 15, 2, None) else { unreachable!() };
    let show = |r: Result<Soup<XMLNode>, String>| r.map_or_else(|e| e, |s| format!("{s:?}"));
    let (a, b) = (show(Soup::xml(&d[..]).map_err(|e| e.to_string())), show(Soup::xml(Busy(&d, k)).map_err(|e| e.to_string())));
    ensure!(a == b, "a reader that uses the library while it is read gives {b}, expected {a}");
    let In::Lenient(d) = work::input(&mut cx.rng, 15, 1, None) else { unreachable!() };
    let (a, b) = (format!("{:?}", Soup::html(&d)), format!("{:?}", Soup::html(Talk(Cell::new(k), d.clone()))));
    ensure!(a == b, "a text that uses the library while it is read gives {b}, expected {a}");
    let plain: Vec<query::UNode<String>> = super::queries::unodes(&mut cx.rng, 20);
    let asking = query::soup_of(plain.iter().map(Asking::of).collect());
    let plain = query::soup_of(plain);
    let id = |s: &Soup<Asking>, f: &dyn Fn(&Soup<Asking>) -> Vec<u64>| f(s);
    let pairs: [(&str, Vec<u64>, Vec<u64>); 6] = [
        ("iter", plain.iter().map(|n| n.id).collect(), id(&asking, &|s| s.iter().map(|n| n.0.id).collect())),
        ("tag", plain.tag("a").all().map(|n| n.id).collect(), id(&asking, &|s| s.tag("a").all().map(|n| n.0.id).collect())),
        ("attr", plain.attr("class", true).all().map(|n| n.id).collect(), id(&asking, &|s| s.attr("class", true).all().map(|n| n.0.id).collect())),
        (
            "strict attr by expression",
            plain.strict().attr_value(regex::Regex::new("a").unwrap()).all().map(|n| n.id).collect(),
            id(&asking, &|s| s.strict().attr_value(regex::Regex::new("a").unwrap()).all().map(|n| n.0.id).collect()),
        ),
        (
            "tag with memory of attr",
            plain.class("foo").tag(true).all().map(|n| n.id).collect(),
            id(&asking, &|s| s.class("foo").tag(true).all().map(|n| n.0.id).collect()),
        ),
        (
            "filters",
            plain.iter().filter(|n| n.attrs.as_ref().is_some_and(|m| m.contains_key("class")) && n.name.is_some()).map(|n| n.id).collect(),
            id(&asking, &|s| s.iter().filter(|n| Filter::<Asking>::matches(&And(Or(Sieve(3), Sieve(4)), Tag { tag: true }), n)).map(|n| n.0.id).collect()),
        ),
    ];
    for (what, a, b) in pairs {
        ensure!(a == b, "{what}: nodes that query to answer give {b:?}, expected {a:?}");
        cx.count("results of nodes that query to answer", b.len() as u64);
    }
    for (a, b) in plain.strict().all().zip(asking.strict().all()) {
        ensure!(a.all_text() == b.all_text(), "all_text() of nodes that query to answer");
        ensure!(a.query().iter().count() == b.query().iter().count(), "query() of nodes that query to answer");
    }
    cx.eval(&k.to_le_bytes(), true);
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        families: vec![
            fam("parsers", 1600, 30_000, c21_parsers),
            fam("sizeless", 40, 300, c21_sizeless),
            fam("generic", 1200, 40_000, c21_generic),
            fam("texts", 3200, 50_000, c21_texts),
            fam("nodes", 48_000, 400_000, c21_nodes),
            fam("asked", 48_000, 400_000, c21_asked),
            fam("reentrant", 3600, 100_000, c21_reentrant),
            fam("nested", 400, 10_000, c21_nested),
        ],
        need: vec![
            ("parsers called", 10_000),
            ("errors handed through", 1000),
            ("nodes handed through", 50_000),
            ("nodes reached by several paths", 10_000),
            ("queries over nodes without strings", 200_000),
            ("results over nodes without strings", 200_000),
            ("soups of nodes without size", 40),
            ("nodes over a user's text type", 100_000),
            ("patterns consulted", 500_000),
            ("answers that selected a node", 100_000),
            ("filters consulted", 500_000),
            ("answers of a pattern with a memory", 30_000),
            ("texts of a user's type", 500),
            ("queries and parses by parts being consulted", 50_000),
            ("results of queries consulting parts that query", 5000),
            ("results of nodes that query to answer", 2000),
        ],
        rule: "a parser, node type, pattern or filter of the harness' own, used through the library; non-trivial if a node was selected or the tree has more than two nodes; distinct by tree or decision function",
        assumptions: vec!["which node or string a user-defined part is asked about is recognised by its address"],
    }
}
