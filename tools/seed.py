#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: makes /verif/seeded/<id>/ from specs and keeps the ones that are real bugs:
the patch builds, passes the stable tests, the demonstration passes without it and fails with it.
Then runs the check of the property (and tells whether it catches it)."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo. Exit 0 when the property holds in this demonstration.
here="$(cd "$(dirname "$0")" && pwd)" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
python3 - "$here" "$PWD" > "$tmp/overlay.json" <<'PY'
import json, os, sys
here, repo = sys.argv[1:]
r = {}
for f in sorted(os.listdir(here)):
    if f.endswith(".go.txt"):
        d = "zz_verif_demo/" + ("ref/" if f.startswith("ref_") else "")
        r[os.path.join(repo, d + f[:-4])] = os.path.join(here, f)
print(json.dumps({"Replace": r}))
PY
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_verif_demo || exit 3
cd "$tmp" && timeout 200 ./demo
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    o = json.load(open("/tmp/seed-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def main():
    ns = {"BUGS": [], "ROOT": ROOT}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    ok = []
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        good = False
        try:
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/main.go.txt", "w").write(b["demo"])
            for r in b.get("ref", []):
                s = open(os.path.join(ROOT, "harness/ref", r + ".go")).read()
                open(d + "/ref_%s.go.txt" % r, "w").write(s)
            p = sh(d + "/demo.sh", cwd="/repo")
            if p.returncode != 0:
                print(b["id"], "REJECTED: demo fails without the patch\n", p.stdout[-1500:]); continue
            for f, old, new in b["edits"]:
                t = open("/repo/" + f).read()
                if t.count(old) != 1:
                    print(b["id"], "REJECTED: %d matches in %s: %s" % (t.count(old), f, old)); break
                open("/repo/" + f, "w").write(t.replace(old, new))
            else:
                sh("cd /repo && . /opt/vp/env.sh && gofmt -w " + " ".join({e[0] for e in b["edits"]}) if b.get("fmt") else "true")
                diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
                open(d + "/patch.diff", "wb").write(diff)
                p = sh("bash /opt/vp/build.sh")
                if p.returncode: print(b["id"], "REJECTED: build\n", p.stdout); continue
                m = stable()
                if m: print(b["id"], "REJECTED: tests", m[:5]); continue
                p = sh(d + "/demo.sh", cwd="/repo")
                if p.returncode in (0, 3): print(b["id"], "REJECTED: demo rc", p.returncode, p.stdout[-800:]); continue
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                good = True
                c = sh("./check.sh %s quick" % b["property"], cwd=ROOT)
                caught = c.returncode == 1 and "VIOLATION property=%s" % b["property"] in c.stdout
                print(b["id"], b["property"], "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, "| demo:", p.stdout.strip()[:150], flush=True)
        finally:
            sh("git -C /repo checkout -- .")
            if not good:
                shutil.rmtree(d, ignore_errors=True)
main()
