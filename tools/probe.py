#!/usr/bin/env python3
"""probe.py SPEC.py [ID...]: like seed.py without demonstrations: each edit is built with an overlay (/repo is not
touched), judged by the stable tests, then by the check of its property. Prints what is missed."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(p):
    d = tempfile.mkdtemp(prefix="probe-")
    try:
        rep = {}
        for f, old, new in p["edits"]:
            src = rep.get("/repo/" + f, "/repo/" + f)
            t = open(src).read()
            if t.count(old) != 1: return p["id"], "BAD EDIT (%d matches)" % t.count(old)
            dst = d + "/" + f.replace("/", "_")
            open(dst, "w").write(t.replace(old, new)); rep["/repo/" + f] = dst
        json.dump({"Replace": rep}, open(d + "/o.json", "w"))
        r = subprocess.run(["bash", "-c", "cd %s/harness && . ../env.sh && go build -overlay %s/o.json -o %s/check ./cmd/check" % (ROOT, d, d)], capture_output=True, text=True)
        if r.returncode: return p["id"], "BUILD " + r.stderr[-400:]
        subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export GIT_ALLOW_PROTOCOL=none GIT_TERMINAL_PROMPT=0 GIT_CEILING_DIRECTORIES=/repo; cd /repo; go test -json -vet=off -count=1 -overlay %s/o.json ./... > %s/t.log; python3 /opt/vp/results.py %s/t.json gojson:%s/t.log" % (d, d, d, d)], capture_output=True)
        bad = sorted(B - set(json.load(open(d + "/t.json"))["passed"]))
        tests = "TESTS " + " ".join(bad)[:150] if bad else ""
        shutil.copy(ROOT + "/KNOWN_FINDINGS.txt", d)
        out = []
        for i in p["props"]:
            c = subprocess.run([d + "/check", i, "quick"], cwd=ROOT, env=dict(os.environ, VERIF_ROOT=d, VERIF_DEADLINE_S="400"), capture_output=True, text=True, errors="replace")
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            out.append(i + (":CAUGHT" if c.returncode == 1 and v else ":MISSED rc=%d" % c.returncode))
        return p["id"], " ".join(out) + " " + tests
    finally:
        shutil.rmtree(d)
ns = {"P": []}
exec(open(sys.argv[1]).read(), ns)
ps = [p for p in ns["P"] if not sys.argv[2:] or p["id"] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for i, s in ex.map(one, ps): print(i, s, flush=True)
