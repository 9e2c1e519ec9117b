#!/usr/bin/env python3
"""Makes seeded/<id>/ from a description: python3 mkseed.py seeds.py [id...]
A description is a dict id, property, needs, breaks, edits [(file, old, new)], and
py (a demonstration with resp.py) or gotest (pkg, in-package test source).
Verified in a scratch copy: applies, builds, stable tests pass, demo 0 without and nonzero with it."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="0", HOME="/root",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
BASE = "260afe4"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(s):
    tmp = tempfile.mkdtemp(prefix="seed.")
    wt = tmp + "/repo"
    try:
        sh(["cp", "-a", "/repo", wt], "/")
        if sh("git status --porcelain", wt).stdout.strip():
            return "repo not clean"
        d = V + "/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in s["edits"]:
            p = wt + "/" + f
            t = open(p).read() if os.path.exists(p) else ""
            if old == "":  # append or new file
                t += new
            elif t.count(old) != 1:
                return "edit of %s matches %d times: %r" % (f, t.count(old), old[:80])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        sh("git add -AN .", wt)
        patch = sh("git diff", wt).stdout
        open(d + "/patch.diff", "w").write(patch)
        # original lines touched
        orig = 0
        for f in set(e[0] for e in s["edits"]):
            if sh(["git", "cat-file", "-e", "HEAD:" + f], wt).returncode:
                continue
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], wt).stdout.split("\n")
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], wt).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                orig += sum(1 for l in bl[a - 1:a - 1 + n] if l.startswith("^") and n)
        if not orig:
            return "changes no original line"
        if "py" in s:
            shutil.copy(V + "/tools/resp.py", d + "/resp.py")
            open(d + "/demo.py", "w").write("from resp import *\n\n" + s["py"].strip() + "\n\nprint('demo ok')\n")
            demo = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
        elif "gotest" in s:
            pkg, src = s["gotest"]
            open(d + "/demo_test.go.txt", "w").write(src.strip() + "\n")
            race = s.get("race")
            demo = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=%d
command -v go >/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
cp "$here/demo_test.go.txt" "$w/demo_test.go"
echo '{"Replace": {"'"$PWD"'/%s/zz_demo_test.go": "'"$w"'/demo_test.go"}}' > "$w/o.json"
timeout 280 go test %s-overlay "$w/o.json" -vet=off -count=1 -run '^TestZZDemo$' ./%s
''' % (1 if race else 0, pkg, ("-race " if race else "") + ("-tags %s " % s["tags"] if s.get("tags") else ""), pkg)
        else:
            for n, t in s["files"].items():
                open(d + "/" + n, "w").write(t.strip() + "\n")
            demo = s["demo"]
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("go build ./... && go build -tags v1 ./... && go build -tags debug ./...", wt)
        if r.returncode:
            return "build: " + r.stdout
        gl = sh("gofmt -l " + " ".join(e[0] for e in s["edits"]), wt).stdout
        fl = tempfile.mkdtemp(prefix="demoat.")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(d + "/" + f, fl)
        dm = sh(["bash", fl + "/demo.sh"], wt, timeout=300)
        if dm.returncode == 0:
            return "demo passes with the patch: " + dm.stdout[-500:]
        out = []
        for _ in range(2):
            t = sh("flock /tmp/seed.lock go test -json -vet=off -count=1 -timeout 2m ./... > t.json; true", wt)
            res = {}
            for l in open(wt + "/t.json"):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Test") and e["Action"] in ("pass", "fail", "skip"):
                    res[e["Package"] + "/" + e["Test"]] = e["Action"]
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [x for x in stable if res.get(x) != "pass"]
            if not bad:
                break
        else:
            return "tests fail: %r (names look like %r)" % (bad[:5], list(res)[:2])
        os.remove(wt + "/t.json")
        sh("git reset -q; git checkout -- . ; git clean -fdq", wt)
        for i in range(2):
            c = sh(["bash", fl + "/demo.sh"], wt, timeout=300)
            if c.returncode:
                return "demo fails on the clean tree: " + c.stdout[-800:]
        shutil.rmtree(fl)
        if sh(["git", "apply", "--check", d + "/patch.diff"], wt).returncode:
            return "patch does not apply"
        return "ok" + (" (gofmt: %s)" % gl.strip() if gl.strip() else "") + " | demo said: " + dm.stdout.strip()[-160:].replace("\n", " / ")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    pick = sys.argv[2:]
    for s in seeds:
        if pick and s["id"] not in pick:
            continue
        r = make(s)
        if not r.startswith("ok"):
            shutil.rmtree(V + "/seeded/" + s["id"], ignore_errors=True)
        print(s["id"], s["property"], r, flush=True)
