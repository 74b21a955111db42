#!/usr/bin/env python3
"""mutate.py tests MUTANTS OUT      which mutants build and pass the stable tests
   mutate.py checks SURVIVORS OUT [workers]  which checks catch them (first one that does)
Works with build overlays only: /repo is never changed."""
import json, os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GIT_ALLOW_PROTOCOL="none", GIT_TERMINAL_PROMPT="0", GIT_CEILING_DIRECTORIES="/repo")
for l in subprocess.run(". %s/env.sh; env" % ROOT, shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines():
    k, _, v = l.partition("=")
    if k.startswith("GO") or k == "PATH" or k.startswith("CGO"):
        ENV[k] = v
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = {"exe.go": "C06 C07 C09 C04 C05 C12 C08 C10 C11 C13 C30", "pesum.go": "C08 C11", "rsrc.go": "C02 C03 C01 C04 C05 C12 C13 C10 C30",
       "winres.go": "C01 C15 C16 C04 C05 C09 C33 C27 C10 C13", "coff.go": "C03 C02 C13 C10", "icon.go": "C14 C15 C17 C19 C21 C16 C13 C10 C11",
       "cursor.go": "C18 C20 C16 C13 C10 C11", "manifest.go": "C27 C28 C29", "id.go": "C01 C02 C04 C13", "reader.go": "C10 C11 C12",
       "version/binary.go": "C22 C24 C33 C26", "version/version.go": "C25 C26 C22 C24 C33 C23", "version/json.go": "C23 C29", "version/timestamp.go": "C22 C23 C24 C29"}
def overlay(m, d):
    s = open(m["file"], "rb").read()
    s = s[:m["From"]] + m["text"].encode() + s[m["To"]:]
    p = os.path.join(d, "m.go")
    open(p, "wb").write(s)
    json.dump({"Replace": {m["file"]: p}}, open(d + "/o.json", "w"))
    return d + "/o.json"
def run(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""
def test(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        o = overlay(m, d)
        rc, out = run(["go", "build", "-overlay", o, "./..."], "/repo", 60)
        if rc: return "build"
        rc, out = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "40s", "-overlay", o, "./..."], "/repo", 80)
        ok = set()
        for l in out.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and "Test" in e: ok.add((e["Package"], e["Test"]))
        names = {t for _, t in ok} | {p + "::" + t for p, t in ok} | {p + "." + t for p, t in ok} | {p + "/" + t for p, t in ok} | {p + " " + t for p, t in ok}
        miss = STABLE - names
        return "survives" if not miss else "killed"
    finally:
        shutil.rmtree(d)
def check(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        o = overlay(m, d)
        shutil.copy(ROOT + "/KNOWN_FINDINGS.txt", d)
        rc, out = run(["go", "build", "-overlay", o, "-o", d + "/check", "./cmd/check"], ROOT + "/harness", 100)
        if rc: return "build", out
        for id in MAP[m["file"][len("/repo/"):]].split():
            ENV2 = dict(ENV, VERIF_ROOT=d, VERIF_DEADLINE_S="25")
            try:
                p = subprocess.run([d + "/check", id, "quick"], cwd=ROOT, env=ENV2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                return id + " timeout", ""
            if rc == 1: return id, ""
            if rc: return id + " rc=%d" % rc, out[-300:]
        return "MISSED", ""
    finally:
        shutil.rmtree(d)
if sys.argv[1] == "tests":
    ms = [json.loads(l) for l in open(sys.argv[2])]
    ms = [m for m in ms if not m["file"].endswith("errors.go")]
    with cf.ThreadPoolExecutor(7) as ex, open(sys.argv[3], "w") as f:
        for m, r in zip(ms, ex.map(test, ms)):
            if r == "survives": f.write(json.dumps(m) + "\n"); f.flush()
            m["r"] = r
    import collections; print(collections.Counter(m["r"] for m in ms))
else:
    done = {}
    if os.path.exists(sys.argv[3]):
        for l in open(sys.argv[3]):
            x = json.loads(l); done[(x["file"], x["From"], x["To"], x["text"])] = 1
    with open(sys.argv[3], "a") as f:
        for l in open(sys.argv[2]):
            m = json.loads(l)
            if (m["file"], m["From"], m["To"], m["text"]) in done: continue
            r, out = check(m)
            m["r"] = r; m["out"] = out
            f.write(json.dumps(m) + "\n"); f.flush()
