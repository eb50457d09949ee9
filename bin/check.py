#!/usr/bin/env python3
"""Run the check of one property:  bin/check.py C01 [--replay FILE]

Exit 0: held on everything observed.  Exit 1: violation (a VIOLATION line names a replay file).
Exit 2: no verdict (tool failure); never used for an observed violation.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
"""
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
WORKER = os.path.join(TARGET, "debug", "worker")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Inconclusive(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, timeout=800, cwd=None, e=None, stdin=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        # the whole group: cargo's own children hold the pipes open
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        raise Inconclusive("timed out: " + " ".join(cmd)[:200])
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def text(b):
    return b.decode("utf-8", "replace")


def repo_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in fs]
    for extra in ("Cargo.toml", "Cargo.lock", "build.rs", "README.md"):
        p = os.path.join(REPO, extra)
        if os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def fresh(target=None):
    """Never reuse a build of some other state of /repo: cargo goes by time stamps, we go by content."""
    target = target or TARGET
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.sha256")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for d, ds, fs in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if re.match(r"(aoc-parse|aoc_parse|vharness|typed|miri|san|snip)", x):
                        subprocess.run(["rm", "-rf", os.path.join(d, x)])
                ds[:] = []
        with open(stamp, "w") as f:
            f.write(now)


def build():
    fresh()
    r = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")], timeout=850)
    if r.returncode != 0:
        err = text(r.stderr)
        raise Inconclusive("harness does not build:\n" + err[-3000:])


def load(path):
    with open(path) as f:
        return json.load(f)


class Result:
    def __init__(self):
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
        self.violations = []  # dicts: what, replay data

    def add(self, part, cov):
        c = self.coverage
        c["evaluations"] += cov.pop("evaluations", 0)
        c["distinct_nontrivial"] += cov.pop("distinct_nontrivial", 0)
        c["samples"] += cov.pop("samples", [])[:8]
        if cov:
            c[part] = cov

    def violate(self, what, **replay):
        self.violations.append(dict(what=what, **replay))


def worker(pid, res, secs=None, scale=None, only=None):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, pid + ".json")
    slots = os.path.join(WORK, pid + ".slots")
    for p in (out, slots):
        if os.path.exists(p):
            os.unlink(p)
    secs = secs or (240 if TIER == "quick" else 700)
    cmd = [WORKER, pid, "--seed", str(SEED), "--tier", TIER, "--out", out, "--slots", slots, "--secs", str(secs)]
    if scale:
        cmd += ["--scale", str(scale)]
    r = sh(cmd, timeout=850)
    if not os.path.exists(out):
        crashed(pid, res, r, slots)
        return
    d = load(out)
    for v in d.pop("violations"):
        res.violate(v["what"], idx=v["idx"], check=pid)
    res.add("worker", d)


def worker_once(check, seed, res):
    """One short process of a stage list; returns how many executions it observed."""
    out = os.path.join(WORK, check + ".json")
    if os.path.exists(out):
        os.unlink(out)
    r = sh([WORKER, check, "--seed", str(seed), "--tier", "quick", "--out", out, "--threads", "1"], timeout=120)
    if not os.path.exists(out):
        r2 = sh([WORKER, check, "--seed", str(seed), "--tier", "quick", "--out", out, "--threads", "1"], timeout=120)
        if not os.path.exists(out):
            res.violate("%s seed %d: the process died twice (%s, %s): %s" % (check, seed, r.returncode, r2.returncode, text(r2.stderr)[-400:]),
                        check=check, at=seed)
            return 0
    d = load(out)
    for v in d["violations"]:
        res.violate(v["what"], idx=v["idx"], check=check, at=seed)
    return d["evaluations"]


def one(pid, idx, seed):
    out = os.path.join(WORK, pid + ".one.json")
    if os.path.exists(out):
        os.unlink(out)
    r = sh([WORKER, pid, "--seed", str(seed), "--one", str(idx), "--out", out], timeout=400)
    return r, (load(out) if os.path.exists(out) else None)


def crashed(pid, res, r, slots):
    """The whole process died: find the case, run it by itself, and believe only what repeats."""
    tail = text(r.stderr)[-1500:]
    cases = []
    if os.path.exists(slots):
        for line in open(slots, errors="replace"):
            m = re.match(r"\s*(\d+) L", line.replace("\0", " "))
            if m:
                cases.append(int(m.group(1)))
    for idx in cases:
        rr, d = one(pid, idx, SEED)
        if d is None and rr.returncode < 0 or (d is None and "overflow" in text(rr.stderr)):
            phases = re.findall(r"phase (.)", text(rr.stderr))
            if phases and phases[-1] == "M":
                continue
            res.violate("the process died (%s) while the library ran: %s" % (rr.returncode, text(rr.stderr)[-400:]), idx=idx, check=pid)
            return
        if d and d["violations"]:
            for v in d["violations"]:
                res.violate(v["what"], idx=idx, check=pid)
            return
    raise Inconclusive("worker for %s died (exit %s) and no single case reproduces it:\n%s" % (pid, r.returncode, tail))


def known():
    """Known findings that are still open: [(property, text that identifies the failing input)]."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"open: property=(\S+) match=(\S.*)$", line.strip())
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def replay(pid, path):
    d = load(path)
    build()
    print("recorded:", d["what"])
    if "idx" in d:
        r, o = one(d.get("check", pid), d["idx"], d.get("at", d["seed"]))
        print(text(r.stderr)[-2000:])
        for v in (o or {}).get("violations", []):
            print("now:", v["what"])
        return 1 if (o is None or o["violations"]) else 0
    print(json.dumps(d, indent=1))
    return 0


def main():
    pid = sys.argv[1]
    sys.modules.setdefault("check", sys.modules[__name__])
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(pid, sys.argv[3])
    import plans
    t0 = time.time()
    res = Result()
    plan = plans.PLANS[pid]
    try:
        plan.get("build", build)()
        plan["run"](sys.modules[__name__], pid, res)
    except Inconclusive as e:
        if not res.violations:
            print("INCONCLUSIVE property=%s: %s" % (pid, e))
            return 2
    shown, rc = set(), 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    kn = known()
    new = []
    for v in res.violations:
        hit = [k for k in kn if k[0] == pid and k[1] in v["what"]]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
        else:
            new.append(v)
    for n, v in enumerate(new[:int(os.environ.get("VERIF_SHOW", "5"))]):
        rc = 1
        path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (pid, SEED, n))
        v.update(property=pid, seed=SEED, tier=TIER, how="bin/check.py %s --replay %s" % (pid, path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  " + v["what"][:1500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    cov = res.coverage
    cov["rule"] = plan["rule"]
    cov["samples"] = cov["samples"][:24]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER, seed=SEED, level="exploration", coverage=cov,
              assumptions=plan["assumes"], wall_s=round(time.time() - t0, 2), violations=len(new))
    tmp = os.path.join(VERIF, "evidence", pid + ".json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d executions observed, %d distinct non-trivial, %d violations, %.1f s"
          % (pid, TIER, SEED, cov["evaluations"], cov["distinct_nontrivial"], len(new), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
