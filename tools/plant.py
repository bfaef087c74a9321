#!/usr/bin/env python3
"""Makes planted bugs:  plant.py SPEC.py [ID...]

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)].  Each is applied to a
scratch copy, built, tested, and its demonstration run with and without it; only then is it written to
/verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile
BASE = "f741294"
W = "/tmp/seed/w"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           GOFLAGS="-mod=mod -modfile=/tmp/seed/owcrypt.mod")
DEMO = '''#!/bin/bash
# Run in the repository: exits 0 when it behaves, 1 when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here"/*.go "$t/"
cat > "$t/go.mod" <<X
module demo

go 1.23

require github.com/blocktree/go-owcrypt v0.0.0

replace github.com/blocktree/go-owcrypt => $repo
X
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
cd "$t" || exit 3
%s
'''
RUN = 'go build -o demo . || exit 3\n./demo'


def sh(cmd, cwd=W, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base.get("stable") or base.get("tests") or base
    rc, out = sh("go test -json -vet=off -count=1 ./...")
    ok = set()
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Test"])
    return ok


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    shutil.copy("/repo/go.mod", "/tmp/seed/owcrypt.mod")
    shutil.copy("/opt/vp/owcrypt.sum", "/tmp/seed/owcrypt.sum")
    sh(["git", "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "checkout", "-qf", "FETCH_HEAD"])
    good = tests()
    for s in spec["SEEDS"]:
        if only and s["id"] not in only:
            continue
        sh(["git", "checkout", "-qf", "--", "."])
        err = None
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                err = "%s: the text occurs %d times:\n%s" % (f, t.count(old), old)
                break
            open(p, "w").write(t.replace(old, new))
        if err:
            print(s["id"], "BAD", err)
            continue
        rc, diff = sh(["git", "diff"])
        for f, old, new in s["edits"]:
            rc, base = sh(["git", "show", BASE + ":" + f])
            lines = set(x.strip() for x in base.splitlines())
            cur = None
            for l in sh(["git", "diff", "-U0", "--", f])[1].splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in lines:
                    print(s["id"], "WARNING: not an original line:", l)
        rc, out = sh("go build ./...")
        if rc:
            print(s["id"], "BAD does not build", out[-1500:])
            continue
        got = tests()
        if not good <= got:
            print(s["id"], "BAD tests notice:", sorted(good - got))
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        open(d + "/demo.sh", "w").write(DEMO % s.get("run", RUN))
        open(d + "/main.go", "w").write(s["demo"])
        if not s.get("nolib"):
            shutil.copy("/tmp/seed/lib.go", d)
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
        rc1, o1 = sh(["bash", d + "/demo.sh"], env=e, timeout=290)
        sh(["git", "checkout", "-qf", "--", "."])
        rc0, o0 = sh(["bash", d + "/demo.sh"], env=e, timeout=290)
        if rc0 != 0 or rc1 != 1 and not s.get("anyrc"):
            print(s["id"], "BAD demo: clean %s, patched %s\n%s\n--\n%s" % (rc0, rc1, o0[-1200:], o1[-1200:]))
            shutil.rmtree(d)
            continue
        o = "/verif/seeded/" + s["id"]
        os.makedirs(o, exist_ok=True)
        for n in os.listdir(d):
            shutil.copy(os.path.join(d, n), o)
        shutil.rmtree(d)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(s["id"], "kept;", o1.strip()[-200:])
    sh(["git", "checkout", "-qf", "--", "."])


main()
