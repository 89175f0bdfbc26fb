#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it, in copies under /tmp/try (a development tool).
trybugs.py [-j LANES] [-d DIR_OF_BUGS] [-a: every check, not only the property's] [id...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
lanes, src, every = 2, HERE + "/seeded", False
while a and a[0].startswith("-"):
    o = a.pop(0)
    if o == "-j": lanes = int(a.pop(0))
    elif o == "-d": src = a.pop(0)
    elif o == "-a": every = True
ids = a or sorted(os.listdir(src))
ALL = ["C%02d" % k for k in range(1, 37)]
def lane(k):
    base = "/tmp/try/%d" % k
    v, r = base + "/verif", base + "/repo"
    os.makedirs(base, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", r + "/"]) if shutil.which("rsync") else (shutil.rmtree(r, ignore_errors=True), shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git")))
    os.makedirs(v, exist_ok=True)
    for n in ("core", "harness", "featcheck"):
        shutil.rmtree(v + "/" + n, ignore_errors=True)
        shutil.copytree(HERE + "/" + n, v + "/" + n, ignore=shutil.ignore_patterns("target"))
    for n in ("check", "KNOWN_FINDINGS"):
        shutil.copy2(HERE + "/" + n, v + "/" + n)
    for n in ("harness/Cargo.toml", "featcheck/Cargo.toml", "harness/src/adapter.rs"):
        t = open(v + "/" + n).read()
        t = t.replace('"/repo/email-parser"', '"%s/email-parser"' % r)
        open(v + "/" + n, "w").write(t)
    return v, r
def one(i):
    k = q.get()
    try:
        v, r = ready[k]
        d = src + "/" + i
        p = json.load(open(d + "/meta.json"))["property"]
        if subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + r, d + "/patch.diff"], cwd="/").returncode and subprocess.run(["patch", "-s", "-p1", "-d", r, "-i", d + "/patch.diff"]).returncode:
            print(i, p, "DOES NOT APPLY", flush=True); return
        try:
            for c in (ALL if every else [p]):
                t = time.time()
                x = subprocess.run([v + "/check", "run", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                vio = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
                ok = x.returncode == 1 and any("property=%s " % c in l for l in vio)
                why = x.stdout.strip().splitlines()[-3:]
                print("%-34s %s %s rc=%d %.0fs %s" % (i, c, "CAUGHT" if ok else "MISSED", x.returncode, time.time() - t, [w[:220] for w in why] if ok else why), flush=True)
        finally:
            subprocess.run(["patch", "-s", "-R", "-p1", "-d", r, "-i", d + "/patch.diff"])
    finally:
        q.put(k)
q = Queue()
ready = [lane(k) for k in range(lanes)]
for k in range(lanes):
    q.put(k)
with ThreadPoolExecutor(lanes) as ex:
    list(ex.map(one, ids))
