"""C02: random well-typed programs over `parser!`, compiled by rustc and run; the static type is
ascribed in each program and the values are compared with those computed from the structure."""
import os
import re
import shutil
import subprocess

import check as c

GEN = os.path.join(c.TARGET, "debug", "typedgen")


def generator():
    c.fresh()
    r = c.sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(c.VERIF, "typedgen", "Cargo.toml")], timeout=600)
    if r.returncode != 0:
        raise c.Inconclusive("generator does not build:\n" + c.text(r.stderr)[-2000:])


CONTROL = """use aoc_parse::{parser, prelude::*};
fn main() {
    let p = parser!(lines(u64 "x" a:u64 => a));
    let _ = p;
    let q = parser!(lines(u64 "x" u64 "x" u64));
    let v: Vec<(u64, u64, u64)> = q.parse("1x2x3\\n").unwrap();
    assert_eq!(v, vec![(1, 2, 3)]);
}
"""


def batch(res, seed, programs, bins, texts, name):
    out = os.path.join(c.WORK, name)
    shutil.rmtree(out, ignore_errors=True)
    r = c.sh([GEN, "--seed", str(seed), "--programs", str(programs), "--bins", str(bins), "--texts", str(texts), "--out", out])
    if r.returncode != 0:
        raise c.Inconclusive("generator failed: " + c.text(r.stderr)[-1000:])
    info = __import__("json").loads(c.text(r.stdout))
    shutil.copy(os.path.join(c.HARNESS, "Cargo.lock"), os.path.join(out, "Cargo.lock"))
    with open(os.path.join(out, "src/bin/control.rs"), "w") as f:
        f.write(CONTROL)
    index = {}
    for line in open(os.path.join(out, "index.txt")):
        i, b, ty, src = line.rstrip("\n").split("\t", 3)
        index[int(i)] = (int(b), ty, src)
    bindir = os.path.join(c.TARGET, "debug")
    for b in ["control"] + ["t%d" % i for i in range(bins)]:
        p = os.path.join(bindir, b)
        if os.path.exists(p):
            os.unlink(p)
    man = os.path.join(out, "Cargo.toml")
    r = c.sh(["cargo", "build", "--offline", "--manifest-path", man, "--bin", "control"], timeout=600)
    if r.returncode != 0:
        raise c.Inconclusive("the control program does not compile:\n" + c.text(r.stderr)[-2000:])
    r = c.sh(["cargo", "build", "--offline", "--keep-going", "--message-format", "short", "--manifest-path", man], timeout=800)
    bad = {}
    if r.returncode != 0:
        err = c.text(r.stderr)
        for m in re.finditer(r"^src/bin/t(\d+)\.rs:(\d+):\d+: (error.*)$", err, re.M):
            b, line, msg = int(m.group(1)), int(m.group(2)), m.group(3)
            src = open(os.path.join(out, "src/bin/t%d.rs" % b)).read().split("\n")
            while line > 0 and not src[line - 1].startswith("// program "):
                line -= 1
            if line:
                bad.setdefault(int(src[line - 1].split()[2]), []).append(msg)
        if not bad:
            raise c.Inconclusive("generated programs do not compile, no program to blame:\n" + err[-2000:])
        for i in sorted(bad)[:10]:
            b, ty, src = index[i]
            res.violate("parser!(%s), whose structure says %s, does not compile: %s" % (src, ty, "; ".join(bad[i][:3])),
                        seed_of_programs=seed, program=i)
    ran = 0
    procs = []
    for b in range(bins):
        exe = os.path.join(bindir, "t%d" % b)
        if os.path.exists(exe):
            procs.append((b, subprocess.Popen(["timeout", "-s", "KILL", "200", exe, os.path.join(out, "cases%d.txt" % b)],
                                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    for b, p in procs:
        o, e = p.communicate()
        o = c.text(o)
        m = re.search(r"^RAN\t(\d+)$", o, re.M)
        for x in re.finditer(r"^BAD\t(\d+)\t(.*)\t(.*)\t(.*)$", o, re.M):
            i = int(x.group(1))
            res.violate("parser!(%s) on %s: expected %s, got %s" % (index[i][2], x.group(2), x.group(3), x.group(4)),
                        seed_of_programs=seed, program=i)
        if not m:
            raise c.Inconclusive("program group %d ended with %s: %s" % (b, p.returncode, c.text(e)[-500:]))
        ran += int(m.group(1))
    samples = ["parser!(%s) : %s" % (index[i][2], index[i][1]) for i in sorted(index)[-4:]]
    shutil.rmtree(out, ignore_errors=True)
    return dict(programs=len(index), ran=ran, fixed=info["fixed"], without_text=info["programs_without_a_text"], samples=samples)


def c02(_, pid, res):
    generator()
    rounds = 1 if c.TIER == "quick" else 8
    n = 350 if c.TIER == "quick" else 900
    cov = dict(programs=0, texts_run=0, without_text=0)
    import time
    t0 = time.time()
    for k in range(rounds):
        if time.time() - t0 > 600:
            break
        b = batch(res, c.SEED * 100 + k, n, 8, 12, "typed%d" % k)
        cov["programs"] += b["programs"]
        cov["texts_run"] += b["ran"]
        cov["without_text"] += b["without_text"]
        res.coverage["samples"] += b["samples"]
    res.coverage["evaluations"] = cov["texts_run"]
    res.coverage["distinct_nontrivial"] = cov["texts_run"]  # texts are distinct within a program
    res.coverage["typed_programs"] = cov
