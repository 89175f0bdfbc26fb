#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).
mutate.py [-j LANES] [-f FILE_SUBSTRING] [-s STEP/OFFSET] [-o OUT] : small changes to the sources in copies under /tmp/mut,
every check with few cases against each; writes one line per mutant. Survivors are then looked at by hand."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
lanes, only, step, off, out, resume = 3, "", 1, 0, "/tmp/mut/out.txt", None
while a:
    o = a.pop(0)
    if o == "-j": lanes = int(a.pop(0))
    elif o == "-f": only = a.pop(0)
    elif o == "-s": step, off = map(int, a.pop(0).split("/"))
    elif o == "-o": out = a.pop(0)
    elif o == "-r": resume = a.pop(0)
SRC = "/repo/email-parser/src"
FEATS = "benchmarking,bcc,cc,comments,content-disposition,date,from,hook,in-reply-to,keywords,message-id,mime,references,reply-to,sender,subject,to,trace,unrecognized-headers".replace("unrecognized-headers", "unrecognized-headers")
ORDER = "C32 C29 C07 C20 C17 C34 C13 C14 C11 C03 C04 C09 C10 C12 C27 C08 C18 C19 C22 C05 C06 C15 C16 C21 C24 C25 C26 C28 C31 C33 C02 C01 C35 C36 C30".split()
OPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" * ", " + "), (" << ", " >> "), (" >> ", " << "), ("..=", ".."),
       ("take_while1(", "take_while("), ("take_while(", "take_while1("), ("many1(", "many("), ("many(", "many1("), ("true", "false"), ("false", "true"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("Ok(_)", "Err(_)"),
       (".is_empty()", ".is_empty() == false"), ("to_ascii_lowercase", "to_ascii_uppercase"), ("break;", "continue;"), ("continue;", "break;"), ("u8", "u16"), ("starts_with", "ends_with"), ("insert(", "get_mut(&"), ("Some(", "None.or(")][:30]
def body(t):
    i = t.find("#[cfg(test)]")
    return t if i < 0 else t[:i]
def mutants(rel):
    t = open(SRC + "/" + rel).read()
    b = body(t)
    n = 0
    pos = 0
    for line in b.splitlines(keepends=True):
        code = line.split("//")[0]
        s = code.strip()
        if s and not s.startswith(("use ", "#[", "#![", "///", "mod ", "pub mod", "pub use")):
            for x, y in OPS:
                for m in re.finditer(re.escape(x), code):
                    if x in ("true", "false") and re.search(r"\w", (code[m.start() - 1 : m.start()] + code[m.end() : m.end() + 1])):
                        continue
                    if x in ("many(", "take_while(", "many1(", "take_while1(") and code[: m.start()].rstrip().endswith("fn"):
                        continue
                    if x == ".is_err()" and ".is_err()" not in code: continue
                    yield (rel, pos + m.start(), len(x), y)
            for m in re.finditer(r"(?<![\w.'\"x])(\d+)(?![\w'\"])", code):
                v = int(m[1])
                yield (rel, pos + m.start(), len(m[1]), str(v + 1))
                if v > 0:
                    yield (rel, pos + m.start(), len(m[1]), str(v - 1))
            for m in re.finditer(r"b'(\\?.)'", code):
                c = m[1]
                if len(c) == 1:
                    yield (rel, pos + m.start(1), 1, chr(ord(c) + 1) if c not in "[&" else "x")
                else:
                    yield (rel, pos + m.start(1), len(c), "\\t" if c != "\\t" else " ")
            for m in re.finditer(r'b?"((?:[^"\\]|\\.)+)"', code):
                if "ERROR" in m[1] or "Error::" in code or "feature" in code or len(m[1]) > 40 or " a " in m[1]:
                    continue
                c = m[1]
                # the last plain letter changed, and the first
                k = [i for i in range(len(c)) if c[i].isalnum() and (i == 0 or c[i - 1] != "\\")]
                for i in {k[0], k[-1]} if k else ():
                    y = c[:i] + ("z" if c[i] not in "zZ" else "y") + c[i + 1 :]
                    yield (rel, pos + m.start(1), len(c), y)
                if m[0].startswith("b") and "\\r\\n" in c:
                    yield (rel, pos + m.start(1), len(c), c.replace("\\r\\n", "\\n"))
            if s.endswith(";") and not s.startswith(("let ", "return", "use ", "type ", "const ", "static ", "break", "continue", "}", ")", "]")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                i = code.index(s)
                yield (rel, pos + i, len(s), ";")
            m = re.match(r"\s*(?:\} else )?if (?!let)(.+) \{\s*$", code)
            if m:
                yield (rel, pos + m.start(1), len(m[1]), "!(" + m[1] + ")")
            # a match arm or list entry of its own line is dropped
            if re.match(r"\s*(b'.*'|\"[^\"]*\"|Some\(.*\)) => .*,\s*$", code) or re.match(r"\s*\(?[a-z_|]+,\s*$", code) and False:
                yield (rel, pos, len(code.rstrip("\n")), "")
        pos += len(line)
def files():
    for base, d, f in os.walk(SRC):
        d.sort()
        for x in sorted(f):
            r = os.path.relpath(os.path.join(base, x), SRC)
            if x.endswith(".rs") and only in r:
                yield r
done = {}
if resume:
    for l in open(resume):
        p = l.split("\t")
        done[p[0]] = p[1]
todo = [m for r in files() for m in mutants(r)]
todo = [m for i, m in enumerate(todo) if i % step == off]
print(len(todo), "mutants", file=sys.stderr)
if out == "-":
    sys.exit()
def lane(k):
    base = "/tmp/mut/%d" % k
    v, r = base + "/verif", base + "/repo"
    os.makedirs(base, exist_ok=True)
    shutil.rmtree(r, ignore_errors=True)
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"))
    os.makedirs(v, exist_ok=True)
    for n in ("core", "harness"):
        shutil.rmtree(v + "/" + n, ignore_errors=True)
        shutil.copytree(HERE + "/" + n, v + "/" + n, ignore=shutil.ignore_patterns("target"))
    for n in ("harness/Cargo.toml", "harness/src/adapter.rs"):
        t = open(v + "/" + n).read().replace('"/repo/email-parser"', '"%s/email-parser"' % r)
        open(v + "/" + n, "w").write(t)
    shutil.copy2(HERE + "/check", v + "/check")
    subprocess.run([sys.executable, "-c", "import importlib.machinery as m,os;os.environ['VERIF_REPO']=%r;l=m.SourceFileLoader('c',%r).load_module();l.literals(%r)" % (r, v + "/check", base + "/dict")], stderr=subprocess.DEVNULL)
    return base
def build(base):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER=base + "/verif/harness/rustc-wrapper.sh", VERIF_HOOK="1", CARGO_BUILD_JOBS="3")
    x = subprocess.run(["cargo", "build", "-q", "--release", "--offline", "--manifest-path", base + "/verif/harness/Cargo.toml", "--target-dir", base + "/t", "--features", FEATS], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return x.returncode == 0
def checks(base, cases, secs):
    for p in ORDER:
        o = base + "/o.json"
        try:
            x = subprocess.run([base + "/t/release/harness", "run", "--prop", p, "--label", "all", "--seed", "1", "--cases", str(cases), "--max-secs", str(secs), "--out", o, "--dict", base + "/dict", "--shrink-secs", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            return p + " timeout"
        if x.returncode != 0:
            return p
    return None
def one(m):
    rel, at, n, y = m
    t = open(SRC + "/" + rel).read()
    line = t.count("\n", 0, at) + 1
    key = "%s:%d:%d %r -> %r" % (rel, line, at, t[at : at + n], y)
    if key in done and done[key] != "SURVIVED":
        return
    k = q.get()
    try:
        base = ready[k]
        f = base + "/repo/email-parser/src/" + rel
        open(f, "w").write(t[:at] + y + t[at + n :])
        t0 = time.time()
        try:
            if not build(base):
                r = "nocompile"
            else:
                r = checks(base, 4000, 8)
                if r is None:
                    r = checks(base, 30000, 20)
                r = "SURVIVED" if r is None else r
        finally:
            open(f, "w").write(t)
        with open(out, "a") as w:
            w.write("%s\t%s\t%.0f\t%s\n" % (key, r, time.time() - t0, t.splitlines()[line - 1].strip()[:120]))
    finally:
        q.put(k)
q = Queue()
ready = [lane(k) for k in range(lanes)]
for k in range(lanes):
    q.put(k)
with ThreadPoolExecutor(lanes) as ex:
    list(ex.map(one, todo))
