#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property against /repo's working tree
   check.py setup                 build everything once
   check.py replay FILE           run the case of a violation again"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = f"{V}/target"
OUT = f"{V}/out"
REL = f"{TARGET}/rel/release/soupmon"
TRIPLE = "x86_64-unknown-linux-gnu"
TSAN = f"{TARGET}/tsan/{TRIPLE}/release/soupmon"
ASAN = f"{TARGET}/asan/{TRIPLE}/release/soupmon"
DBG = f"{TARGET}/dbg/debug/soupmon"
SHARDS = 8
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"
START = time.time()


class Inconclusive(Exception):
    pass


def log(*a):
    print(f"[{time.time() - START:6.1f}]", *a, flush=True)


# ------------------------------------------------------------------ building

def source_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, sub, files in sorted(os.walk(d)):
            sub[:] = sorted(s for s in sub if s not in (".git", "target"))
            for f in sorted(files):
                p = os.path.join(base, f)
                if os.path.isfile(p):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def forget(tdir):
    """Cargo goes by modification times; go by contents: rebuild soupy and what uses it."""
    for base, sub, _ in os.walk(tdir):
        if os.path.basename(base) == ".fingerprint":
            for s in list(sub):
                if re.match(r"(soupy|soupmon|featprobe|mirirun|probes)-[0-9a-f]+$", s):
                    shutil.rmtree(os.path.join(base, s), ignore_errors=True)
            sub[:] = []


def prepare(kind, crate):
    tdir = f"{TARGET}/{kind}"
    os.makedirs(tdir, exist_ok=True)
    want = source_hash(f"{REPO}/src", f"{V}/{crate}") + hashlib.sha256(
        b"".join(open(f"{REPO}/{f}", "rb").read() for f in ("Cargo.toml", "README.md") if os.path.exists(f"{REPO}/{f}"))).hexdigest()
    stamp = f"{tdir}/soupmon.stamp"
    try:
        have = open(stamp).read()
    except OSError:
        have = ""
    if have != want:
        forget(tdir)
    return tdir, stamp, want


def cargo(kind, crate, args, env=None):
    tdir, stamp, want = prepare(kind, crate)
    e = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(["cargo", *args], cwd=f"{V}/{crate}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        with open(stamp, "w") as f:
            f.write(want)
    return r


def must(r, what):
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise Inconclusive(f"{what} does not build")


def build_rel():
    must(cargo("rel", "harness", ["build", "--release", "--offline"]), "the harness")


def build_dbg():
    must(cargo("dbg", "harness", ["build", "--offline"]), "the harness without optimisation")


def build_san(kind):
    s = {"tsan": "thread", "asan": "address"}[kind]
    must(cargo(kind, "harness", ["+nightly", "build", "--release", "--offline", "-Zbuild-std", "--target", TRIPLE, "--features", "sanitizer"],
               {"RUSTFLAGS": f"-Zsanitizer={s} -Cforce-frame-pointers=yes"}), f"the harness under the {s} sanitizer")


def build_miri():
    must(cargo("miri", "miri", ["+nightly", "miri", "run", "--offline", "--", "memory", "1", "0"], {"MIRIFLAGS": MIRIFLAGS}), "the Miri program")


SUBSETS = [f"{a} {b} {c} {d}".split() for a in ("", "regex") for b in ("", "html-lenient") for c in ("", "html-strict") for d in ("", "xml")]
SUBSETS += [["html"], ["html", "regex"], ["html", "xml"], ["html", "regex", "xml"]]


def build_features(feats):
    """(program, output): the program is None if it does not compile."""
    r = cargo("features", "features", ["build", "--offline", "--features", " ".join(feats)])
    if r.returncode != 0:
        return None, r.stdout
    dst = f"{OUT}/feat-" + ("+".join(feats) or "none")
    shutil.copy2(f"{TARGET}/features/debug/featprobe", dst)
    return dst, ""


def user_types():
    """Minimal user-defined parsers, nodes, patterns and filters are a program that compiles (C21)."""
    base = cargo("probes", "probes", ["build", "--offline"])
    if base.returncode != 0:
        return
    r = cargo("probes", "probes", ["build", "--offline", "--features", "user"])
    if r.returncode != 0:
        raise Violation(f"property C21\nuser-defined parsers, nodes, patterns and filters with nothing beyond what their traits ask for no longer compile, although the library does:\n"
                        f"cd {V}/probes && cargo build --offline --features user\n\n{r.stdout[-5000:]}\n")


# ------------------------------------------------------------------ findings

def known():
    ks = {}
    for l in open(f"{V}/known-findings.txt"):
        m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', l)
        if m:
            ks[(m[1], m[2])] = m[3].strip()
    return ks


# ------------------------------------------------------------------- workers

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # only the soft limit: children that need more raise it again
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.RLIM_INFINITY))


def alone(pid, fam, idx, seed, tier, cpu=120, wall=300):
    """Runs one case by itself. (code or -signal, text)"""
    def lim():
        limits()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    try:
        r = subprocess.run([REL, "case", pid, fam, str(idx), str(seed), tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", preexec_fn=lim, timeout=wall, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def cpu_of(pid):
    """(all threads asleep, processor seconds, has children)"""
    asleep, ticks, kids = True, 0, False
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            s = open(f"/proc/{pid}/task/{t}/stat").read().rsplit(")", 1)[1].split()
            asleep &= s[0] == "S"
            ticks += int(s[11]) + int(s[12])
            kids |= bool(open(f"/proc/{pid}/task/{t}/children").read().strip())
    except (OSError, IndexError):
        return False, 0, False
    return asleep, ticks / os.sysconf("SC_CLK_TCK"), kids


class Violation(Exception):
    pass


def describe(pid, fam, idx, seed, tier, msg):
    return (f"property {pid}\nfamily {fam}\nindex {idx}\nseed {seed}\ntier {tier}\n"
            f"again: python3 {V}/check.py replay {OUT}/{pid}.violation.txt\n\n{msg}\n")


SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def status(d, k, fams):
    try:
        f = open(f"{d}/w{k}.status").read().split()
        return fams[int(f[0])], int(f[1])
    except (OSError, IndexError, ValueError):
        return None


def start_worker(pid, k, d, secs, seed, tier):
    err = open(f"{d}/w{k}.err", "wb")
    return subprocess.Popen([REL, "worker", pid, str(k), str(SHARDS), d, str(int(secs)), str(seed), tier],
                            stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits, start_new_session=True)


def reproduce(pid, k, d, fams, seed, tier, why, secs):
    """A worker died or stands still: what does its case do by itself, or its shard again?"""
    at = status(d, k, fams)
    err = open(f"{d}/w{k}.err", errors="replace").read()[-3000:]
    if at is None:
        raise Inconclusive(f"worker {k}: {why}\n{err}")
    fam, idx = at
    log(f"worker {k}: {why} at {fam}#{idx}; running it alone")
    stuck = "stands still" in why or "processor time" in why
    code, text = alone(pid, fam, idx, seed, tier, wall=400 if not stuck else 240)
    what = None
    if code == 10:
        what = text
    elif code is not None and -code == signal.SIGXCPU:
        what = f"does not return within 120 s of processor time\n{text}"
    elif code is not None and code < 0 and -code in SIGNALS:
        what = f"the process died of signal {signal.Signals(-code).name}\n{text}"
    elif code is None and "stands still" in why:
        what = f"stands still without using the processor, again\n{text}"
    if what:
        raise Violation(describe(pid, fam, idx, seed, tier, what))
    if "signal" in why and "SIGKILL" not in why:
        # it may take the cases before it
        d2 = tempfile.mkdtemp(prefix="again.", dir=OUT)
        try:
            p = start_worker(pid, k, d2, secs, seed, tier)
            p.wait(timeout=secs + 60)
            if p.returncode < 0 and -p.returncode in SIGNALS and status(d2, k, fams) == at:
                raise Violation(describe(pid, fam, idx, seed, tier, f"the process dies of {signal.Signals(-p.returncode).name} after the cases of shard {k} before\n{err}"))
        except subprocess.TimeoutExpired:
            p.kill()
        finally:
            shutil.rmtree(d2, ignore_errors=True)
    raise Inconclusive(f"worker {k}: {why} at {fam}#{idx}, not reproduced ({code})\n{err}\n{text[-2000:]}")


def run_workers(pid, seed, tier, secs):
    """Runs all shards; returns (results, directory). Raises Violation."""
    info = json.loads(subprocess.check_output([REL, "list", pid]))
    fams = [f["name"] for f in info["families"]]
    d = tempfile.mkdtemp(prefix=f"run.{pid}.", dir=OUT)
    ps = [start_worker(pid, k, d, secs, seed, tier) for k in range(SHARDS)]
    seen = [[None, time.time(), 0.0] for _ in ps]
    left = set(range(SHARDS))
    try:
        while left:
            time.sleep(0.1)
            for k in sorted(left):
                c = ps[k].poll()
                if c is None:
                    s = status(d, k, fams)
                    asleep, cpu, kids = cpu_of(ps[k].pid)
                    o = seen[k]
                    if s != o[0] or kids:
                        seen[k] = [s, time.time(), cpu]
                    elif cpu - o[2] > 90:
                        ps[k].kill()
                        ps[k].wait()
                        reproduce(pid, k, d, fams, seed, tier, "90 s of processor time in one case", secs)
                    elif asleep and cpu == o[2] and time.time() - o[1] > 60:
                        ps[k].kill()
                        ps[k].wait()
                        reproduce(pid, k, d, fams, seed, tier, "stands still", secs)
                    elif cpu != o[2] and asleep is False:
                        # standstill counts from the last time it ran
                        seen[k][1] = time.time()
                    continue
                left.discard(k)
                if c in (0, 10, 3):
                    j = json.load(open(f"{d}/w{k}.json"))
                    if j["violation"]:
                        v = j["violation"]
                        raise Violation(describe(pid, v["family"], v["index"], seed, tier, v["message"]))
                    if j["harness_error"]:
                        raise Inconclusive(f"harness error: {j['harness_error']}")
                else:
                    why = f"died of signal {signal.Signals(-c).name}" if c < 0 else f"exit {c}"
                    reproduce(pid, k, d, fams, seed, tier, why, secs)
        rs = [json.load(open(f"{d}/w{k}.json")) for k in range(SHARDS)]
        distinct = int(subprocess.check_output([REL, "union", d]))
        return info, rs, distinct
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------- Miri

def miri(pid, mode, runs, seed, docs):
    """Programs under the interpreter; each with its own schedule."""
    env = dict(os.environ, CARGO_TARGET_DIR=f"{TARGET}/miri", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")

    def one(k):
        s = seed * 100_003 + k
        e = dict(env, MIRIFLAGS=f"{MIRIFLAGS} -Zmiri-seed={s} -Zmiri-preemption-rate={[0.01, 0.05, 0.2][k % 3]}")
        try:
            return s, subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", mode, str(s), str(docs)], cwd=f"{V}/miri",
                                     env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            return s, None
    n = views = 0
    with ThreadPoolExecutor(SHARDS) as ex:
        for s, r in ex.map(one, range(runs)):
            if r is None:
                log(f"Miri, seed {s}: stopped by the watchdog, not counted")
                continue
            err = "\n".join(l for l in r.stderr.splitlines() if not l.startswith("warning"))
            if r.returncode == 0:
                n += 1
                views += int(re.search(r"^stat (\d+)", r.stdout, re.M)[1])
                continue
            bad = re.search(r"Undefined Behavior|[Dd]ata race|memory leaked|deadlock|diff: ", err)
            panic = re.search(r"panicked at (\S+)", err)
            if bad or (panic and not panic[1].startswith("src/main.rs")):
                i = err.find(bad[0]) if bad else err.find("panicked")
                raise Violation(f"property {pid}\nunder Miri: cd {V}/miri && CARGO_TARGET_DIR={TARGET}/miri MIRIFLAGS='{MIRIFLAGS} -Zmiri-seed={s}' "
                                f"cargo +nightly miri run --offline -q -- {mode} {s} {docs}\n\n{err[max(0, i - 500):i + 5000]}\n")
            raise Inconclusive(f"Miri, seed {s}: {err[-3000:]}")
    return n, views


# ----------------------------------------------------------------------- C22

def c22(seed, tier):
    build_rel()
    corpus = f"{OUT}/corpus"
    n = 150 if tier == "quick" else 3000
    subprocess.check_call([REL, "plain", "corpus", str(seed), str(n), corpus], stdout=subprocess.DEVNULL)
    full, text = build_features(["standard"])
    if full is None:
        print(text[-4000:])
        raise Inconclusive("the default features do not build")

    def lines(exe, feats):
        def lim():
            limits()
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            resource.setrlimit(resource.RLIMIT_CPU, (300, 305))
        r = subprocess.run([exe, corpus], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
        if r.returncode != 0:
            return None, r.stderr[-3000:] + f"\nexit {r.returncode}"
        m = {}
        for l in r.stdout.splitlines():
            a, b, c = l.split(" ", 2)
            m[(a, int(b))] = c
        return m, ""
    ref, err = lines(full, ["standard"])
    if ref is None:
        raise Inconclusive(f"the default build fails on the corpus: {err}")
    docs = open(corpus, "rb").read()

    def doc(k):
        p = 0
        while k:
            p += 5 + int.from_bytes(docs[p + 1:p + 5], "little")
            k -= 1
        return docs[p + 5:p + 5 + int.from_bytes(docs[p + 1:p + 5], "little")]
    compared = 0
    counts = {}
    samples = []
    distinct = set()
    for feats in SUBSETS:
        name = " ".join(feats) or "(none)"
        exe, text = build_features(feats)
        if exe is None:
            raise Violation(f"property C22\nwith the features {name} the library, or a program using what they provide, does not compile although the default build does:\n"
                            f"cd {V}/features && cargo build --offline --features \"{' '.join(feats)}\"\n\n{text[-5000:]}\n")
        got, err = lines(exe, feats)
        os.unlink(exe)
        if got is None:
            raise Violation(f"property C22\nwith the features {name} the program fails on documents the default build handles:\n{err}\n")
        have = set(feats) | ({"html-lenient", "html-strict"} if "html" in feats else set())
        for (view, k), want in ref.items():
            base, _, what = view.partition("-")
            due = base == "own" or base == "xml" and "xml" in have or f"html-{base}" in have
            due &= what != "regex" or "regex" in have
            if not due:
                continue
            if got.get((view, k)) != want:
                raise Violation(f"property C22\nwith the features {name}: {view} of document {k} gives {got.get((view, k))}, in the default build {want}\ndocument: {doc(k)!r}\n")
            compared += 1
            if not want.startswith("error"):
                distinct.add((view, k, name))
        counts[name] = len(got)
        if len(samples) < 5:
            samples.append(f"features {name}: {len(got)} views of {n} documents as in the default build")
    os.unlink(full)
    os.unlink(corpus)
    views = {}
    for (v, _) in ref:
        views[f"views: {v}"] = views.get(f"views: {v}", 0) + 1
    if min(len([1 for (v, _) in ref if v == w]) for w in ("strict", "lenient", "xml", "own", "strict-regex", "xml-regex", "lenient-owned")) < 20:
        raise Inconclusive(f"too little observed: {views}")
    return {
        "evaluations": compared,
        "distinct_nontrivial": len(distinct),
        "rule": "one view (all nodes, queries, Debug form, regex queries, owned patterns, a user-defined parser) of one document in one of 20 feature sets, "
                "compared with the build with default features; non-trivial if the document parses; distinct by view, document and feature set",
        "samples": samples,
        "feature sets built": len(SUBSETS),
        "counters": {**views, **{f"lines with features {k}": v for k, v in counts.items()}},
    }, ["the feature sets are built with this compiler and the locked dependency versions", "the default build is the reference"]


# --------------------------------------------------------------------- check

def decide(pid, tier, seed):
    if pid == "C22":
        return c22(seed, tier)
    # a quick run is expected to need far less
    secs = 330 if tier == "quick" else 2400
    if pid == "C21":
        user_types()
    build_rel()
    log("harness built")
    if pid == "C18":
        build_dbg()
        os.environ["SOUPMON_DBG"] = DBG
    if pid == "C16":
        build_san("tsan")
        os.environ["SOUPMON_TSAN"] = TSAN
    if pid == "C17":
        build_san("asan")
        os.environ["SOUPMON_ASAN"] = ASAN
    if pid in ("C16", "C17"):
        build_miri()
        log("sanitizer and Miri programs built")
    info, rs, distinct = run_workers(pid, seed, tier, secs)
    log("workers done")
    counters, samples, findings = {}, [], []
    for r in rs:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += r["samples"]
        findings += r["findings"]
    evals = sum(r["evals"] for r in rs)
    truncated = any(r["truncated"] for r in rs)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": info["rule"],
        "samples": samples[:14],
        "counters": dict(sorted(counters.items())),
    }
    if truncated:
        cov["stopped early"] = f"after {secs} s, before the planned number of cases"
    need = dict(info["need"])
    assumptions = list(info["assumptions"])
    if pid in ("C16", "C17"):
        mode = "threads" if pid == "C16" else "memory"
        runs = {"quick": 8, "thorough": 200}[tier]
        n, views = miri(pid, mode, runs, seed, 4 if pid == "C16" else 14)
        counters["programs under Miri"] = n
        counters["documents under Miri"] = views
        cov["counters"] = dict(sorted(counters.items()))
        need["programs under Miri"] = 4
        assumptions.append("Miri interprets with permissive provenance (dependencies cast integers to pointers)")
        log("Miri done")
    short = {k: (counters.get(k, 0), v) for k, v in need.items() if counters.get(k, 0) < v}
    if short and not truncated:
        raise Inconclusive(f"too little was observed: {short}")
    ks = known()
    for f in findings:
        if (pid, f["key"]) in ks:
            print(f"KNOWN-FINDING: property={pid} {ks[(pid, f['key'])]}", flush=True)
        else:
            raise Violation(describe(pid, f["family"], f["index"], seed, tier, f"finding {f['key']!r}: {f['message']}"))
    if findings:
        cov["known findings observed"] = [f["key"] for f in findings]
    return cov, assumptions


def evidence(pid, tier, seed, cov, assumptions, violations):
    os.makedirs(f"{V}/evidence", exist_ok=True)
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
         "wall_s": round(time.time() - START, 1), "violations": violations}
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def check(pid, tier):
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    try:
        os.unlink(f"{V}/evidence/{pid}.json")
    except OSError:
        pass
    try:
        cov, assumptions = decide(pid, tier, seed)
    except Violation as v:
        path = f"{OUT}/{pid}.violation.txt"
        with open(path, "w") as f:
            f.write(str(v))
        evidence(pid, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the first violation", "samples": [str(v)[:3000]]}, [], 1)
        print(str(v)[:6000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    except Inconclusive as x:
        print(f"no verdict: {x}", flush=True)
        return 2
    evidence(pid, tier, seed, cov, assumptions, 0)
    log(f"{pid} held: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct and non-trivial")
    return 0


def setup():
    os.makedirs(OUT, exist_ok=True)
    build_rel()
    build_dbg()
    log("harness")
    for k in ("tsan", "asan"):
        build_san(k)
        log(k)
    build_miri()
    log("Miri")
    user_types()
    log("user-defined types")
    for f in [["standard"]] + SUBSETS:
        exe, text = build_features(f)
        if exe is None:
            print(text[-3000:])
            return 1
        os.unlink(exe)
    log("feature sets")
    return 0


def replay(path):
    t = open(path).read()
    f = dict(re.findall(r"^(property|family|index|seed|tier) (.*)$", t, re.M))
    build_rel()
    if "family" not in f:
        print(t)
        return 2
    for k, v in (("SOUPMON_TSAN", TSAN), ("SOUPMON_ASAN", ASAN), ("SOUPMON_DBG", DBG)):
        if os.path.exists(v):
            os.environ[k] = v
    code, text = alone(f["property"], f["family"], f["index"], f["seed"], f["tier"])
    print(text)
    return 1 if code else 0


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "setup":
        try:
            sys.exit(setup())
        except Inconclusive as x:
            print(x)
            sys.exit(2)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(sys.argv[1], tier if tier in ("quick", "thorough") else "quick"))
