#!/usr/bin/env python3
"""Development helper: check one or more /verif/seeded/<id> in a scratch copy and write their patch.

seed.py new ID PROP PKG FILE < edit   edit is OLD<newline>====<newline>NEW ; makes patch.diff and demo.sh
seed.py check ID...                   demo passes unpatched, patched builds, passes tests, demo fails
"""
import json, os, subprocess, sys, tempfile, shutil
SEED = "/verif/seeded"
def sh(cmd, cwd=None):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d
def new(id, prop, pkg, file):
    d = copy()
    try:
        for part in sys.stdin.read().split("\n@@@@\n"):
            if part.startswith("FILE "):
                l, part = part.split("\n", 1)
                file = l[5:].strip()
            old, nw = part.split("\n====\n")
            nw = nw.rstrip("\n")
            old = old.strip("\n")
            s = open(f"{d}/repo/{file}").read()
            assert s.count(old) == 1, (s.count(old), old)
            open(f"{d}/repo/{file}", "w").write(s.replace(old, nw.strip("\n")))
        r = sh(". /opt/vp/env.sh; gofmt -l . ; git diff", f"{d}/repo")
        diff = sh("git diff", f"{d}/repo").stdout
        os.makedirs(f"{SEED}/{id}", exist_ok=True)
        open(f"{SEED}/{id}/patch.diff", "w").write(diff)
        t = open("/verif/tools/demo.tmpl").read().replace("PKG", pkg)
        open(f"{SEED}/{id}/demo.sh", "w").write(t)
        os.chmod(f"{SEED}/{id}/demo.sh", 0o755)
    finally:
        shutil.rmtree(d)
def check(id):
    d = copy()
    try:
        q = f"{d}/demo"
        shutil.copytree(f"{SEED}/{id}", q)
        os.remove(q + "/patch.diff")
        a = sh(f"bash {q}/demo.sh", f"{d}/repo")
        p = sh(f"git apply {SEED}/{id}/patch.diff", f"{d}/repo")
        b = sh(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", f"{d}/repo")
        t = sh(". /opt/vp/env.sh; go test ./... 2>&1 | grep -v 'no test files'", f"{d}/repo")
        t0 = sh("git stash -q; . /opt/vp/env.sh; go test ./... 2>&1 | grep -v 'no test files'; git stash pop -q", f"{d}/repo")
        f = lambda o: sorted(l for l in o.splitlines() if l.startswith("--- FAIL"))
        g = lambda o: sorted(l.split(" (")[0] for l in f(o))
        c = sh(f"bash {q}/demo.sh", f"{d}/repo")
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode == 0 and g(t.stdout) == g(t0.stdout) and c.returncode != 0
        print(id, "OK" if ok else "BAD", "| unpatched", a.returncode, "apply", p.returncode, "build", b.returncode, "newfails", set(g(t.stdout)) - set(g(t0.stdout)), "patched", c.returncode)
        if not ok:
            print(a.stdout[-1500:], p.stdout, b.stdout[-800:], c.stdout[-1500:])
        elif os.environ.get("V"):
            print(c.stdout[-1200:])
        if os.path.exists("/tmp/finchlint"):
            m = json.load(open(f"{SEED}/{id}/meta.json")) if os.path.exists(f"{SEED}/{id}/meta.json") else {}
            if m.get("property"):
                r = sh(f"/tmp/finchlint -prop {m['property']} -repo {d}/repo -out {d}", "/verif")
                print("   check", m["property"], "exit", r.returncode, [l.strip() for l in r.stdout.splitlines() if "construct:" in l][:3])
    finally:
        shutil.rmtree(d)
if sys.argv[1] == "new":
    new(*sys.argv[2:])
else:
    for i in (sys.argv[2:] or sorted(os.listdir(SEED))):
        check(i)
