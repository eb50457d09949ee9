#!/usr/bin/env python3
"""Make and confirm a planted bug.  plant.py DIR...  where DIR/bug.json = {property, needs, what_it_breaks, edits: [[file, old, new], ...]}
and DIR/main.rs (a program that fails under the bug) or DIR/demo.sh. Writes /verif/seeded/<name>/."""
import json, os, shutil, subprocess, sys, tempfile
REPO = "/repo"
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the property holds here; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aoc-parse = { path = "$repo" }
TOML
cd "$dir" && CARGO_TARGET_DIR="$dir/target" timeout 250 cargo run --offline -q
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main(dirs):
    wt = tempfile.mkdtemp(prefix="plant")
    tree = os.path.join(wt, "repo")
    subprocess.run(["git", "clone", "-q", REPO, tree], check=True)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), tree)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(wt, "target"))
    for d in dirs:
        name = os.path.basename(d.rstrip("/"))
        b = json.load(open(os.path.join(d, "bug.json")))
        sh("git checkout -q -- .", tree)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "EDIT: occurs", s.count(old), "times in", f, ":", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
        r = sh("cargo test --workspace --no-fail-fast --offline -q -- --test-threads 8 2>&1 | tail -60", tree, env=env)
        if "FAILED" in r.stdout or "error" in r.stdout and "could not compile" in r.stdout:
            print(name, "TESTS FAIL"); print("\n".join(l for l in r.stdout.splitlines() if "failed" in l.lower() or "panicked" in l or "error" in l)[:1500]); continue
        out = os.path.join(OUT, name)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in os.listdir(d):
            if f != "bug.json":
                shutil.copy(os.path.join(d, f), out)
        if not os.path.exists(os.path.join(out, "demo.sh")):
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, tree)
        sh("git checkout -q -- .", tree)
        c = sh("bash %s/demo.sh" % out, tree)
        good = a.returncode != 0 and c.returncode == 0
        print(name, "OK" if good else "DEMO WRONG", "patched", a.returncode, "clean", c.returncode, "|", a.stdout.strip()[-160:].replace("\n", " "))
        if not good:
            print(c.stdout[-800:])
            shutil.rmtree(out)
    shutil.rmtree(wt)
main(sys.argv[1:])
