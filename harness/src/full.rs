//! Cases and their workers.
use std::{
    io::Write,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Mutex,
    time::{Duration, Instant},
};

use crate::{
    case::{self, Cx, Tier},
    mem, props,
};

#[global_allocator]
static A: mem::Counting = mem::Counting;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub enum Verdict {
    Held,
    Violated(String),
    Harness(String),
}

/// Runs one case; a panic raised in harness code is a harness error, any other a violation.
pub fn run_case(f: fn(&mut Cx) -> case::Res, cx: &mut Cx) -> Verdict {
    *LAST_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) => Verdict::Violated(m),
        Err(_) => {
            let (at, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            if at.starts_with("src/") || at.contains("/verif/") || at.is_empty() {
                Verdict::Harness(format!("harness panic at {at}: {msg}"))
            } else {
                Verdict::Violated(format!("panic at {at}: {msg}\ncase notes: {:?}", props::note()))
            }
        }
    }
}

fn find(id: &str) -> case::Prop {
    props::get(id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    })
}

fn worker(a: &[String]) -> i32 {
    let id = &a[0];
    let shard: u64 = a[1].parse().unwrap();
    let nsh: u64 = a[2].parse().unwrap();
    let dir = &a[3];
    let deadline = Instant::now() + Duration::from_secs(a[4].parse().unwrap());
    let seed: u64 = a[5].parse().unwrap();
    let tier = if a[6] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let prop = find(id);
    let status = std::fs::File::create(format!("{dir}/w{shard}.status")).unwrap();
    let mut evals = 0u64;
    let mut counters = std::collections::BTreeMap::<String, u64>::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: Vec<u64> = vec![];
    let mut cases = 0u64;
    let mut truncated = false;
    let mut viol: Option<(usize, u64, String)> = None;
    let mut herr: Option<String> = None;
    let mut findings: Vec<(usize, u64, String, String)> = vec![];
    'all: for (fi, fam) in prop.families.iter().enumerate() {
        let n = if tier == Tier::Thorough { fam.thorough } else { fam.quick };
        let mut fam_cases = 0u64;
        // families with few cases are spread over the shards too
        let first = (shard + nsh - (fi as u64 % nsh)) % nsh;
        let mut idx = first;
        while idx < n {
            if Instant::now() > deadline {
                truncated = true;
                break 'all;
            }
            let _ = status.write_all_at(format!("{:<8}{:<20}\n", fi, idx).as_bytes(), 0);
            let mut cx = Cx::new(id, fam.name, idx, seed, tier);
            cx.want_samples = idx / nsh == 1 || n <= nsh;
            let v = run_case(fam.run, &mut cx);
            cases += 1;
            fam_cases += 1;
            evals += cx.evals;
            for (k, v) in cx.counters {
                *counters.entry(k.to_string()).or_insert(0) += v;
            }
            findings.extend(cx.findings.into_iter().map(|(k, m)| (fi, idx, k, m)));
            if hashes.len() < 2_000_000 {
                hashes.extend(cx.hashes);
            }
            if shard < 2 && samples.len() < 12 {
                samples.extend(cx.samples.into_iter().map(|s| format!("{}#{idx}: {s}", fam.name)));
            }
            match v {
                Verdict::Held => {}
                Verdict::Violated(m) => {
                    viol = Some((fi, idx, m));
                    break 'all;
                }
                Verdict::Harness(m) => {
                    herr = Some(format!("{}#{idx}: {m}", fam.name));
                    break 'all;
                }
            }
            idx += nsh;
        }
        *counters.entry(format!("cases:{}", fam.name)).or_insert(0) += fam_cases;
    }
    hashes.sort_unstable();
    hashes.dedup();
    let mut h = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/w{shard}.hashes")).unwrap());
    for x in &hashes {
        h.write_all(&x.to_le_bytes()).unwrap();
    }
    h.flush().unwrap();
    let mut o = String::new();
    o.push_str(&format!("{{\"evals\":{evals},\"cases\":{cases},\"truncated\":{truncated},\"counters\":{{"));
    o.push_str(&counters.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"violation\":");
    match &viol {
        None => o.push_str("null"),
        Some((fi, idx, m)) => o.push_str(&format!(
            "{{\"family\":{},\"index\":{idx},\"message\":{}}}",
            json(prop.families[*fi].name),
            json(m)
        )),
    }
    o.push_str(&format!(
        ",\"findings\":[{}],\"harness_error\":{}}}\n",
        findings
            .iter()
            .map(|(fi, idx, k, m)| format!(
                "{{\"family\":{},\"index\":{idx},\"key\":{},\"message\":{}}}",
                json(prop.families[*fi].name),
                json(k),
                json(m)
            ))
            .collect::<Vec<_>>()
            .join(","),
        herr.as_deref().map_or("null".into(), json)
    ));
    std::fs::write(format!("{dir}/w{shard}.json"), o).unwrap();
    if viol.is_some() {
        10
    } else if herr.is_some() {
        3
    } else {
        0
    }
}

fn one(a: &[String]) -> i32 {
    let (id, fam, idx, seed) = (&a[0], &a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
    let tier = if a.get(4).map(String::as_str) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let prop = find(id);
    let Some(f) = prop.families.iter().find(|f| f.name == *fam) else {
        eprintln!("no family {fam}");
        return 3;
    };
    let mut cx = Cx::new(id, f.name, idx, seed, tier);
    cx.want_samples = true;
    cx.verbose = true;
    let v = run_case(f.run, &mut cx);
    for s in &cx.samples {
        println!("sample: {s}");
    }
    for (k, m) in &cx.findings {
        println!("finding: {k}: {m}");
    }
    match v {
        Verdict::Held => {
            println!("held ({} evaluations)", cx.evals);
            0
        }
        Verdict::Violated(m) => {
            println!("violated: {m}");
            10
        }
        Verdict::Harness(m) => {
            println!("harness error: {m}");
            3
        }
    }
}

fn list(a: &[String]) -> i32 {
    let p = find(&a[0]);
    println!(
        "{{\"families\":[{}],\"need\":{{{}}},\"rule\":{},\"assumptions\":[{}]}}",
        p.families
            .iter()
            .map(|f| format!("{{\"name\":{},\"quick\":{},\"thorough\":{}}}", json(f.name), f.quick, f.thorough))
            .collect::<Vec<_>>()
            .join(","),
        p.need.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(","),
        json(p.rule),
        p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
    );
    0
}

/// How many distinct hashes the workers have written.
fn union(dir: &str) -> i32 {
    let mut v: Vec<u64> = vec![];
    for f in std::fs::read_dir(dir).unwrap() {
        let p = f.unwrap().path();
        if p.extension().is_some_and(|e| e == "hashes") {
            v.extend(std::fs::read(p).unwrap().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

pub fn main(a: Vec<String>) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var_os("SOUPMON_BT").is_some() {
            eprintln!("{at}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let mut l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        // the first panic of a case is the one to report
        if l.is_none() {
            *l = Some((at, msg));
        }
    }));
    // everything runs on a large stack: ordinary nesting must never decide
    if a[0] == "plain" {
        props::plain(&a[1..])
    } else {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || match a[0].as_str() {
                "worker" => worker(&a[1..]),
                "case" => one(&a[1..]),
                "list" => list(&a[1..]),
                "union" => union(&a[1]),
                _ => props::plain(&a),
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| {
                eprintln!("harness thread panicked: {:?}", LAST_PANIC.lock());
                3
            })
    }
}
