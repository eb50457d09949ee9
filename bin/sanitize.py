"""C21: the same safe programs under Miri, AddressSanitizer and ThreadSanitizer, and programs that
would be unsound if the borrow checker let them through.

Only a sanitizer's report (or a program that should have been rejected and was not) decides; wrong
values belong to other properties."""
import os
import re
import subprocess
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

import check as c
import snippets

HOST = "x86_64-unknown-linux-gnu"
SAN = os.path.join(c.VERIF, "san", "Cargo.toml")
UB = re.compile(r"error: Undefined Behavior: .*|Data race detected.*|ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|"
                r"error: .*(?:deadlock|the evaluated program deadlocked).*|unsafe precondition\(s\) violated.*")
RACY = ("threads", "first-use")  # modes whose assertions are about coinciding uses


def nightly(target, **kw):
    e = c.env(CARGO_TARGET_DIR=target, **kw)
    del e["RUSTUP_TOOLCHAIN"]
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    return e


def target(name):
    return os.path.join(c.TARGET, name)


def builds():
    """name -> (command, environment)"""
    worker = os.path.join(c.HARNESS, "Cargo.toml")
    out = {"miri": (["cargo", "miri", "run", "-q", "--offline", "--manifest-path", SAN, "--", "none"], nightly(target("miri"), MIRIFLAGS="-Zmiri-ignore-leaks"))}
    for name, flag, extra in (("address", "address", []), ("thread", "thread", ["-Zbuild-std"])):
        for man, sub in ((worker, name), (SAN, name)):
            out[name + "/" + os.path.basename(os.path.dirname(man))] = (
                ["cargo", "build", "--offline", "--target", HOST, "--manifest-path", man] + extra,
                nightly(target(sub), RUSTFLAGS="-Zsanitizer=" + flag, CARGO_BUILD_JOBS="6"))
    return out


def build():
    for t in ("miri", "address", "thread"):
        c.fresh(target(t))

    def chain(name):
        for k, (cmd, e) in builds().items():
            if k.split("/")[0] == name:
                r = c.sh(cmd, timeout=800, e=e)
                if r.returncode != 0 and not (name == "miri" and "mode none" in c.text(r.stderr)):
                    raise c.Inconclusive("%s does not build:\n%s" % (k, c.text(r.stderr)[-2500:]))
    with ThreadPoolExecutor(3) as pool:
        for f in [pool.submit(chain, n) for n in ("miri", "address", "thread")]:
            f.result()


def run(kind, args, timeout=400, seeds=None):
    """Run the small programs (or the worker) under one tool; (exit status, output)"""
    if kind == "miri":
        flags = "-Zmiri-ignore-leaks"
        if seeds:
            flags += " -Zmiri-many-seeds=0..%d" % seeds
        return c.sh(["cargo", "miri", "run", "-q", "--offline", "--manifest-path", SAN, "--"] + args, timeout=timeout,
                    e=nightly(target("miri"), MIRIFLAGS=flags))
    exe = os.path.join(target(kind), HOST, "debug", "worker" if args[0][0] == "C" else "san")
    e = c.env(ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="halt_on_error=0 exitcode=66")
    return c.sh([exe] + args, timeout=timeout, e=e)


def report(r):
    """The first report of a tool in this run, if any (a stack that instrumentation made too big is not one)."""
    err = c.text(r.stderr) + c.text(r.stdout)
    for m in UB.finditer(err):
        if "stack-overflow" in m.group(0):
            continue
        rest = err[m.start():m.start() + 3000]
        where = re.findall(r"/repo/src/[\w/]+\.rs:\d+", rest)
        return m.group(0)[:300] + (" at " + where[0] if where else "")
    return None


def sanitizers(c_, res):
    quick = c.TIER == "quick"
    build()
    # the tools are alive: each reports what it must
    for kind, which in (("miri", "control-free"), ("miri", "control-race"), ("address", "control-free"), ("thread", "control-race")):
        for _ in range(5):
            r = run(kind, [which, "1"])
            if report(r):
                break
        else:
            raise c.Inconclusive("%s did not report its control %s (exit %d)" % (kind, which, r.returncode))
    seed = c.SEED * 1000
    jobs = []
    rounds = 3 if quick else 40
    for mode in ("rules", "values", "text", "api"):
        for k in range(rounds):
            jobs.append(("miri", [mode, str(seed + k)], None))
            jobs.append(("address", [mode, str(seed + k)], None))
    for k in range(20 if quick else 400):
        jobs.append(("address", ["hostile", str(seed + k)], None))
    for k in range(3 if quick else 60):
        jobs.append(("miri", ["hostile", str(seed + k)], None))
    many = 6 if quick else 64
    for k in range(2 if quick else 12):
        jobs.append(("miri", ["threads", str(seed + k)], many))
    for k in range(4 if quick else 24):
        jobs.append(("miri", ["first-use", str(seed + k)], many))
    jobs.append(("miri", ["claims", "1"], 3))
    for k in range(6 if quick else 60):
        jobs.append(("thread", ["threads", str(seed + k)], None))
        jobs.append(("thread", ["first-use", str(seed + k)], None))
        jobs.append(("thread", ["claims", "1"], None))
    scale = "0.03" if quick else "0.3"
    for pid in ("C01", "C03", "C04", "C06", "C09", "C11", "C13", "C15", "C17", "C19", "C22"):
        jobs.append(("address", [pid, "--seed", str(c.SEED + 70), "--tier", "quick", "--scale", scale, "--secs", "200" if quick else "300",
                                 "--threads", "2", "--out", os.path.join(c.WORK, "C21-address-%s.json" % pid)], None))
    for pid in ("C15", "C15-first-use", "C15-first-use", "C01"):
        k = len(jobs)
        jobs.append(("thread", [pid, "--seed", str(c.SEED + k), "--tier", "quick", "--scale", scale, "--secs", "200" if quick else "300",
                                "--threads", "4", "--out", os.path.join(c.WORK, "C21-thread-%s-%d.json" % (pid, k))], None))
    jobs.sort(key=lambda j: {"miri": 0}.get(j[0], 1))
    deadline = time.time() + (500 if quick else 780)

    def limit(kind, args):
        # generous multiples of what they take; an instrumented process that hangs is nobody's fault here
        return (250 if quick else 600) if kind == "miri" or args[0][0] == "C" else 60

    slow = []

    def go(job):
        kind, args, seeds = job
        left = deadline - time.time()
        if left < 20:
            return job, None
        t = time.time()
        try:
            return job, run(kind, args, timeout=max(30, min(left, limit(kind, args))), seeds=seeds)
        except c.Inconclusive:
            return job, None
        finally:
            slow.append((round(time.time() - t, 1), kind + " " + " ".join(args[:2])))
    counts, notes, execs, deep = {}, [], 0, 0
    with ThreadPoolExecutor(8) as pool:
        for (kind, args, seeds), r in pool.map(go, jobs):
            name = kind + " " + args[0]
            if r is None:
                notes.append(name + ": out of time")
                continue
            rep = report(r)
            what = "%s %s: " % (kind, " ".join(args[:3]))
            if rep:
                res.violate(what + rep, tool=kind, args=args, seeds=seeds, output=(c.text(r.stderr))[-6000:])
                continue
            out = c.text(r.stdout)
            if args[0][0] == "C":
                p = args[args.index("--out") + 1]
                if not os.path.exists(p):
                    notes.append("%s: exit %d without a report: %s" % (name, r.returncode, c.text(r.stderr)[-200:]))
                    continue
                d = c.load(p)
                n = d["evaluations"]
                deep += d["distinct_nontrivial"]
            else:
                n = out.count("SAN-OK")
                if r.returncode != 0 or n == 0:
                    err = c.text(r.stderr)
                    if args[0] in RACY and "panicked" in err:
                        # is it the coincidence, or is the value wrong anyway?
                        res.violate(what + "an assertion that holds for one thread failed: " + err[-600:], tool=kind, args=args, seeds=seeds) \
                            if sequential() else notes.append(name + ": fails without threads too")
                        continue
                    notes.append("%s: exit %d without a report: %s" % (name, r.returncode, err[-200:]))
                    continue
                for m in re.finditer(r"claims: (.*)", out):
                    counts["claims of shareability made and tested"] = m.group(1)
            execs += n
            counts[name] = counts.get(name, 0) + n
    res.coverage["executions_by_tool"] = counts
    slow.sort(reverse=True)
    res.coverage["slowest_processes"] = slow[:5]
    print("  slowest: %s" % slow[:3])
    if notes:
        print("  not judged: %s" % notes[:10])
        res.coverage["not_judged"] = notes[:40]
    return execs, deep


def sequential():
    r = run("address", ["sequential", "1"])
    return "SAN-OK" in c.text(r.stdout)


# (name, body that must be rejected, pattern of its diagnostic, near-miss that must compile)
LIFE = [
    ("parser holds a borrowed prefix", 'let p; { let s = String::from("ab"); let t = s.as_str(); p = parser!(t u8); } let _ = p.parse("ab1");', "E0597",
     'let s = String::from("ab"); let p; { let t = s.as_str(); p = parser!(t u8); } let _ = p.parse("ab1");'),
    ("parser holds a borrowed parser", 'let q; { let p = parser!(u8 "x"); let p = &p; q = parser!(p p); } let _ = q.parse("1x2x");', "E0597",
     'let p = parser!(u8 "x"); let q; { let p = &p; q = parser!(p p); } let _ = q.parse("1x2x");'),
    ("conversion borrows a dropped value", 'let p; { let v = vec![1, 2]; p = parser!(i:digit => v[i]); } let _ = p.parse("1");', "E0597",
     'let v = vec![1, 2]; let p; { p = parser!(i:digit => v[i]); } let _ = p.parse("1");'),
    ("value borrowed through a conversion outlives its source", 'let got: &str; { let names = vec![String::from("a")]; let p = parser!(i:digit => names[i].as_str()); got = p.parse("0").unwrap(); } println!("{got}");', "E0597",
     'let names = vec![String::from("a")]; let got: &str; { let p = parser!(i:digit => names[i].as_str()); got = p.parse("0").unwrap(); } println!("{got}");'),
    ("source changed while a parser borrows it", 'let mut s = String::from("ab"); let p = { let t = s.as_str(); parser!(t u8) }; s.clear(); let _ = p.parse("ab1");', "E0502",
     'let mut s = String::from("ab"); let p = { let t = s.as_str(); parser!(t u8) }; let _ = p.parse("ab1"); s.clear();'),
    ("match object outlives its parser", 'let mut cx = ParseContext::new("12"); let it; { let p = parser!(u8); it = p.parse_iter(&mut cx, 0); } let _ = it.map(|i| i.match_end());', "E0597",
     'let mut cx = ParseContext::new("12"); let p = parser!(u8); let it; { it = p.parse_iter(&mut cx, 0); } let _ = it.map(|i| i.match_end());'),
    ("match object outlives its text", 'let p = parser!(string(alpha+)); let it; { let s = String::from("ab"); let mut cx = ParseContext::new(&s); it = p.parse_iter(&mut cx, 0); } let _ = it.map(|i| i.convert());', "E0597",
     'let p = parser!(string(alpha+)); let s = String::from("ab"); let it; { let mut cx = ParseContext::new(&s); it = p.parse_iter(&mut cx, 0); } let _ = it.map(|i| i.convert());'),
    ("context outlives its text", 'let cx; { let s = String::from("ab"); cx = ParseContext::new(&s); } println!("{}", cx.source());', "E0597",
     'let s = String::from("ab"); let cx; { cx = ParseContext::new(&s); } println!("{}", cx.source());'),
    ("context that met a rule set outlives it", 'let mut cx = ParseContext::new("1"); { let p = parser!(rule a: u8 = u8; a); let _ = p.parse_iter(&mut cx, 0).map(drop); } let q = parser!(u8); let _ = q.parse_iter(&mut cx, 0).map(drop);', "E0597",
     'let mut cx = ParseContext::new("1"); let p = parser!(rule a: u8 = u8; a); { let _ = p.parse_iter(&mut cx, 0).map(drop); } let q = parser!(u8); let _ = q.parse_iter(&mut cx, 0).map(drop);'),
    ("rule keeps a borrow of a local", 'let p; { let v = vec![1usize, 2]; let v = &v; p = parser!(rule a: usize = i:digit => v[i]; a); } let _ = p.parse("1");', "E0597",
     "static V: [usize; 2] = [1, 2]; let p; { let v = &V; p = parser!(rule a: usize = i:digit => v[i]; a); } let _ = p.parse(\"1\");"),
    ("rule holds a borrowed parser", 'let q; { let p = parser!(u8 "x"); let p = &p; q = parser!(rule a: u8 = p; a); } let _ = q.parse("1x");', "E0597",
     'let q; { let p = parser!(u8 "x"); q = parser!(rule a: u8 = p; a); } let _ = q.parse("1x");'),
    ("rule set moved while its match is alive", 'let p = parser!(rule a: u8 = u8; a); let mut cx = ParseContext::new("1"); let it = p.parse_iter(&mut cx, 0); drop(p); let _ = it.map(|i| i.convert());', "E0505",
     'let p = parser!(rule a: u8 = u8; a); let mut cx = ParseContext::new("1"); let it = p.parse_iter(&mut cx, 0); let _ = it.map(|i| i.convert()); drop(p);'),
    ("parser with a cell shared", 'let n = std::cell::Cell::new(0); let n = &n; let p = parser!(alpha => n.set(1)); let p = &p; std::thread::scope(|s| { s.spawn(move || { let _ = p.parse("a"); }); });', "E0277",
     'let n = std::sync::atomic::AtomicUsize::new(0); let n = &n; let p = parser!(alpha => n.fetch_add(1, std::sync::atomic::Ordering::SeqCst)); let p = &p; std::thread::scope(|s| { s.spawn(move || { let _ = p.parse("a"); }); });'),
    ("parser with a counted pointer moved", 'let n = std::rc::Rc::new(0); let n = &n; let p = parser!(alpha => n.clone()); std::thread::scope(|s| { s.spawn(move || { let _ = p.parse("a").map(drop); }); });', "E0277",
     'let n = std::sync::Arc::new(0); let n = &n; let p = parser!(alpha => n.clone()); std::thread::scope(|s| { s.spawn(move || { let _ = p.parse("a").map(drop); }); });'),
    ("item of a local pattern list", 'let p; { let a = String::from("a"); let t = a.as_str(); p = parser!(lines({ t => 1, "b" => 2 })); } let _ = p.parse("a\\n");', "E0597",
     'let a = String::from("a"); let p; { let t = a.as_str(); p = parser!(lines({ t => 1, "b" => 2 })); } let _ = p.parse("a\\n");'),
]

LIFE_HEAD = "#![allow(unused)]\nuse aoc_parse::{parser, prelude::*, ParseContext, ParseIter};\nfn main() {\n"


def miri_program(text):
    d = os.path.join(c.WORK, "miriprog")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    man = open(SAN).read().replace('name = "san"', 'name = "miriprog"')
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(man)
    shutil.copy(os.path.join(os.path.dirname(SAN), "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(text)
    r = c.sh(["cargo", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml")], timeout=200,
             e=nightly(target("miri"), MIRIFLAGS="-Zmiri-ignore-leaks"))
    return report(r)


def lifetimes(res):
    lib = snippets.library()
    dir = os.path.join(c.WORK, "lifetimes")
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    todo = []
    for i, (name, bad, code, good) in enumerate(LIFE):
        if good is None:
            continue
        for kind, body in (("bad", bad), ("good", good)):
            p = os.path.join(dir, "%s%d.rs" % (kind, i))
            with open(p, "w") as f:
                f.write(LIFE_HEAD + body + "\n}\n")
            todo.append((name, kind, code, p))
    with ThreadPoolExecutor(8) as pool:
        outs = list(pool.map(lambda t: snippets.rustc(lib, t[3], t[3][:-3], False), todo))
    n = 0
    pending = {}
    for (name, kind, code, p), (rc, err) in zip(todo, outs):
        n += 1
        if kind == "good":
            if rc != 0:
                pending[name] = "near-miss is rejected: " + snippets.errors(err)
        elif rc == 0:
            # accepted: harmless if nothing is borrowed any more; Miri says whether something is
            rep = miri_program(open(p).read())
            if rep:
                res.violate("the compiler accepts `%s`, and it goes wrong: %s: %s" % (name, rep, open(p).read().split("\n", 3)[3]), program=open(p).read())
            else:
                pending[name] = "accepted, and harmless under Miri"
        elif not re.search(r"error\[(%s)\]" % code, err):
            pending[name] = "rejected for another reason: " + snippets.errors(err)
    if pending:
        res.coverage["lifetimes_not_judged"] = pending
    return n, n


def c21(c_, pid, res):
    os.makedirs(c.WORK, exist_ok=True)
    n1, d1 = sanitizers(c_, res)
    n2, d2 = lifetimes(res)
    cov = res.coverage
    cov["evaluations"] += n1 + n2
    cov["lifetime_programs"] = n2
    cov["distinct_nontrivial"] += d1 + d2
    cov["samples"] += ["miri rules: recursive rule sets moved between stack, heap and vectors, results kept beyond their parsers",
                       "miri values: heap values in every tuple position, conversions that panic half-way, collections, borrowed surroundings",
                       "miri text: exact-size texts sliced at every early boundary", "miri first-use: coinciding first uses of each global pattern",
                       "hostile: user-written parsers whose ends lie outside the text, inside characters or change",
                       "claims: every claim of Send or Sync the library makes about parsers holding a Cell or an Rc is put to use",
                       "lifetimes: " + LIFE[1][1]]


if __name__ == "__main__":
    build()
