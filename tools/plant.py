#!/usr/bin/env python3
"""Confirms and stores a planted bug: plant.py SPEC.py [id...]   (a development tool; no check uses it)

SPEC.py defines BUGS = [dict(id=, property=, file=, edits=[(old, new), ...], features=, hook=False, needs=, breaks=, demo=)].
Works in a scratch copy of /repo; writes /verif/seeded/<id>/ when the bug builds, passes the stable tests and its
demonstration passes without it and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
DEMO = r'''#!/bin/bash
# Run in the repository: exits 0 when the behaviour is right, non-zero when it is broken.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
D=$(mktemp -d) || exit 2
trap 'find "$D" -delete' EXIT
mkdir "$D/src"; cp "$H/main.rs" "$D/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
email-parser = { path = "$R/email-parser", default-features = false, features = [%(features)s] }
EOF
cd "$D" && %(flags)scargo run --offline -q --target-dir "$D/t" 2>&1 | tail -n 20
exit "${PIPESTATUS[0]}"
'''
PRE = '''#![allow(dead_code, unused_imports)]
use email_parser::prelude::*;
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
    W = "/tmp/plant/w"
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        tmp = "/tmp/plant/" + b["id"]
        sh("mkdir -p /tmp/plant; [ -d %s ] && find %s -delete; mkdir -p %s" % (tmp, tmp, tmp))
        if not os.path.isdir(W):
            sh("cp -a /repo %s" % W)
        sh("git reset -q --hard && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
        feats = ", ".join('"%s"' % f for f in b["features"].split())
        open(tmp + "/main.rs", "w").write(PRE + b["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO % dict(features=feats, flags='RUSTFLAGS="--cfg email_parser_verif" ' if b.get("hook") else ""))
        os.chmod(tmp + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % tmp, cwd=W)
        ok = True
        if r0.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:]); continue
        files = b["edits"]
        for f, old, new in files:
            p = os.path.join(W, "email-parser/src", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], f, "edit matches", t.count(old), "times"); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
        open(tmp + "/patch.diff", "w").write(d)
        # build and test in the copy
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8; cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=W)
        bad = sorted({l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")})
        bad = [x for x in bad if x not in ("my_emails", "enron")]
        if bad or "error: could not compile" in r.stdout or "error[" in r.stdout:
            print(b["id"], "TESTS/BUILD FAIL", bad, r.stdout[-1500:] if not bad else ""); continue
        r1 = sh("bash %s/demo.sh" % tmp, cwd=W)
        if r1.returncode == 0:
            print(b["id"], "DEMO DOES NOT FAIL"); continue
        if "could not compile" in r1.stdout:
            print(b["id"], "DEMO DOES NOT COMPILE", r1.stdout[-800:]); continue
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        print(b["id"], "ok:", r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else "(no output)")
        sys.stdout.flush()
main()
