#!/usr/bin/env python3
"""Supervisor of the checks: builds one monitor program from /repo's working tree (in one or more
build configurations), runs it in shards, reads what the shards observed, and decides.

    python3 check.py C01 quick|thorough            run a check
    python3 check.py C01 --replay FILE             run the case of a violation again

Exit 0: held on everything observed.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

GOROOT = "/opt/veriftools/go1.27.3"
REPO = "/repo"
BASE_ENV = {
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "HOME": "/root",
}
VARIANTS = {
    "amd64": {},
    "386": {"env": {"GOARCH": "386", "CGO_ENABLED": "0"}},
    "generic": {"flags": ["-tags", "generic"]},
    "appengine": {"flags": ["-tags", "appengine"]},
    "noadx": {"run_env": {"GODEBUG": "cpu.adx=off"}, "same_as": "amd64"},
    "reversed": {"run_env": {"OW_ORDER": "reversed"}, "same_as": "amd64"},
    "shuffled": {"run_env": {"OW_ORDER": "shuffled"}, "same_as": "amd64"},
    "checkptr": {"flags": ["-gcflags=all=-d=checkptr"]},
    "race": {"flags": ["-race"], "env": {"CGO_ENABLED": "1"},
             "run_env": {"GORACE": "halt_on_error=1 exitcode=66 history_size=3"}},
    "asan": {"flags": ["-asan"], "env": {"CGO_ENABLED": "1", "CC": "gcc"},
             "run_env": {"ASAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=67:detect_leaks=0"}},
}
# Seconds after which no further case starts, and after which a process is ended.
SOFT = {"quick": 420, "thorough": int(os.environ.get("VERIF_BUDGET_S", "3600"))}
DEADLINE = {"quick": 780, "thorough": SOFT["thorough"] + 1800}


def env_with(*ds):
    e = dict(os.environ)
    for k in ("GOARCH", "GOOS", "GODEBUG", "GORACE", "GOEXPERIMENT", "GOAMD64", "GO386", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(BASE_ENV)
    for d in ds:
        e.update(d or {})
    return e


class NoAnswer(Exception):
    pass


def build(prop, pkg, variant, work):
    v = VARIANTS[variant]
    out = os.path.join(work, "bin-" + variant)
    cmd = ["go", "build", "-modfile=" + os.path.join(work, "go.mod"), "-o", out] + v.get("flags", []) + ["./props/" + pkg]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env_with(v.get("env")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer("building %s (%s) failed:\n%s" % (pkg, variant, p.stdout[-4000:]))
    return out


class Shard:
    def __init__(self, variant, k, of, binary, work, args, run_env, deadline):
        self.variant, self.k, self.of = variant, k, of
        self.base = os.path.join(work, "%s-%d" % (variant, k))
        self.cmd = [binary, "-shard", str(k), "-of", str(of), "-out", self.base + ".json", "-crumb", self.base + ".crumb"] + args
        self.run_env, self.deadline = run_env, deadline
        self.rc = None
        self.end = self.share = 0

    def run(self):
        left = self.deadline - time.time()
        if left < 5:
            self.rc = "timeout"
            return self
        if self.share:
            now = time.time()
            self.cmd += ["-until", str(int(now + max(2, (self.end - now) * self.share)))]
        with open(self.base + ".err", "w") as err, open(self.base + ".log", "w") as log:
            p = subprocess.Popen(self.cmd, stdout=log, stderr=err, env=env_with(self.run_env), start_new_session=True,
                                 cwd=os.path.dirname(self.base))
            try:
                self.rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.rc = "timeout"
        return self

    def text(self, ext, n=6000):
        try:
            with open(self.base + ext, errors="replace") as f:
                s = f.read()
            return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]
        except OSError:
            return ""

    def result(self):
        try:
            with open(self.base + ".json") as f:
                r = json.load(f)
            return r if r.get("Done") else None
        except (OSError, ValueError):
            return None


def crash_kind(rc, err):
    """What a process that ended without a result says about the code under test."""
    if rc == 66 or "WARNING: DATA RACE" in err:
        return "data race"
    if rc == 67 or "AddressSanitizer" in err:
        return "address sanitizer report"
    if "checkptr" in err:
        return "invalid pointer conversion"
    if "HANG " in err:
        return "no progress"
    if isinstance(rc, int) and (rc == 2 or rc in (-11, -7, -4, -8, -6)) and re.search(r"fatal error:|panic:|unexpected fault|SIGSEGV|signal arrived|runtime:", err):
        return "crash"
    return None


def setup():
    """Nothing outlives a run, so each check builds what it needs; this only shows that building works."""
    work = tempfile.mkdtemp(prefix="owverif-")
    try:
        for n in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HERE, "harness", n), os.path.join(work, n))
        build("C23", "c23", "amd64", work)
        print("the monitors build")
        return 0
    except NoAnswer as e:
        print(e)
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1:] == ["setup"]:
        return setup()
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    spec = PROPS[prop]
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    if not re.fullmatch(r"-?\d+", seed):
        seed = "1"
    replay = None
    if sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            replay = json.load(f)
        tier, seed = replay["tier"], str(replay["seed"])
    else:
        tier = sys.argv[2]
        if tier not in ("quick", "thorough"):
            print(__doc__)
            return 2
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="owverif-")
    os.chmod(work, 0o755)
    try:
        return decide(prop, spec, tier, seed, replay, t0, evdir, work)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, spec, tier, seed, replay, t0, evdir, work):
    for n in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", n), os.path.join(work, n))
    pkg = spec.get("pkg", prop.lower())
    runs = spec.get("runs") or [{"variant": "amd64"}]
    runs = [r for r in runs if tier in r.get("tiers", ("quick", "thorough"))]
    if replay:
        runs = [r for r in runs if r["variant"] == replay["variant"]] or runs[:1]
    need = []
    for r in runs:
        b = VARIANTS[r["variant"]].get("same_as", r["variant"])
        if b not in need:
            need.append(b)
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(need, ex.map(lambda v: build(prop, pkg, v, work), need)))
    tb = time.time()

    deadline = t0 + DEADLINE[tier]
    ncpu = max(2, min(8, os.cpu_count() or 2))
    shards = []
    for r in runs:
        v = VARIANTS[r["variant"]]
        binary = bins[v.get("same_as", r["variant"])]
        of = r.get("shards", spec.get("shards", ncpu))
        args = ["-tier", tier, "-seed", seed]
        if "only" in r:
            args += ["-only", r["only"]]
        sc = r.get("scale", {}).get(tier, 1) if isinstance(r.get("scale"), dict) else r.get("scale", 1)
        if sc != 1:
            args += ["-scale", str(sc)]
        if not replay and tier == "quick":
            args += ["-until", str(int(t0 + SOFT[tier]))]
        if r.get("hang"):
            args += ["-hang", str(r["hang"])]
        renv = dict(v.get("run_env") or {})
        renv.update(r.get("env") or {})
        renv.setdefault("GOMAXPROCS", str(r.get("procs", spec.get("procs", 1))))
        if replay:
            of = 1
            args = [a for a in args]
            if "-only" in args:
                i = args.index("-only")
                del args[i:i + 2]
            args += ["-only", "%s/%d" % (replay["group"], replay["index"])]
        for k in range(of):
            a = list(args)
            if spec.get("trace"):
                a += ["-trace", os.path.join(work, "trace-%s-%d" % (r["variant"], k))]
            sh = Shard(r["variant"], k, of, binary, work, a, renv, deadline)
            sh.weight = max(0.25, float(sc))
            shards.append(sh)
    width = max(1, ncpu // int(spec.get("procs", 1)))
    if not replay and tier != "quick":  # later builds get their part of the time
        rest = 0
        for sh in reversed(shards):
            rest += sh.weight
            sh.end, sh.share = t0 + SOFT[tier], min(1, sh.weight * width / rest)
    with ThreadPoolExecutor(width) as ex:
        list(ex.map(lambda s: s.run(), shards))

    violations, noanswer = [], []
    cut = 0
    ev, groups, classes, samples, required = 0, {}, {}, [], set()
    distinct = set()
    per_variant = {}
    for sh in shards:
        err = sh.text(".err")
        res = sh.result()
        if res is None:
            crumb = sh.text(".crumb").strip()
            kind = crash_kind(sh.rc, err) if sh.rc != "timeout" else None
            if kind:
                g, _, i = crumb.rpartition("/")
                violations.append({"variant": sh.variant, "group": g or "start", "index": int(i) if i.isdigit() else 0,
                                   "msg": "%s\n%s" % (kind, err)})
            else:
                noanswer.append("%s shard %d ended with %s without a result at %s\n%s" % (sh.variant, sh.k, sh.rc, crumb, err[-1500:]))
            continue
        for v in res.get("Violations") or []:
            violations.append({"variant": sh.variant, "group": v["Group"], "index": v["Index"], "msg": v["Msg"]})
        ev += res["Evaluations"]
        pv = per_variant.setdefault(sh.variant, 0)
        per_variant[sh.variant] = pv + res["Evaluations"]
        for k, n in (res.get("Groups") or {}).items():
            groups[k] = groups.get(k, 0) + n
        for k, n in (res.get("Classes") or {}).items():
            classes[k] = classes.get(k, 0) + n
        samples += res.get("Samples") or []
        cut += bool(res.get("Cut"))
        required |= set(res.get("Required") or [])
        distinct |= set(res.get("Distinct") or [])
    compared = 0
    if spec.get("trace") and not violations and not noanswer and not replay or (spec.get("trace") and replay):
        cv, compared = compare_traces(runs, work, spec)
        violations += cv
    missing = sorted(c for c in required if not classes.get(c)) if not replay else []

    for n, v in enumerate(violations[:1]):
        path = os.path.join(evdir, "replay-%s-%s.json" % (prop, tier))
        v.update({"property": prop, "tier": tier, "seed": int(seed)})
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("%s: case %s/%d in build %s: %s" % (prop, v["group"], v["index"], v["variant"], v["msg"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for v in violations[1:6]:
        print("also: case %s/%d in build %s: %s" % (v["group"], v["index"], v["variant"], v["msg"][:300]))

    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(distinct),
        "rule": spec["rule"],
        "samples": uniq(samples)[:16] or ["none"],
        "cases_per_group": groups,
        "events_per_class": classes,
        "evaluations_per_build": per_variant,
        "build_s": round(tb - t0, 1),
    }
    if compared:
        cov["trace_lines_compared_between_builds"] = compared
    if cut:
        cov["shards_stopped_by_the_time_budget"] = cut
    if missing:
        cov["not_observed"] = missing
    doc = {"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if not replay:
        tmp = os.path.join(evdir, ".%s.json.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(evdir, prop + ".json"))
    if violations:
        return 1
    if noanswer:
        raise NoAnswer("; ".join(noanswer[:2]))
    if missing:
        raise NoAnswer("the run never observed: " + ", ".join(missing))
    if ev == 0 or (not distinct and not replay):
        raise NoAnswer("nothing observed")
    print("%s %s: held on %d cases, %d distinct non-trivial events, %.1f s (build %.1f s)" % (
        prop, tier, ev, len(distinct), time.time() - t0, tb - t0))
    return 0


def uniq(xs):
    out = []
    seen = set()
    for x in xs:
        g = x.split(":", 1)[0].rpartition("/")[0]
        if g not in seen:
            seen.add(g)
            out.append(x)
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def compare_traces(runs, work, spec):
    """Line by line comparison of what the builds computed for the same cases."""
    out, n = [], 0
    tr = {}
    for r in runs:
        d = {}
        k = 0
        while True:
            p = os.path.join(work, "trace-%s-%d" % (r["variant"], k))
            if not os.path.exists(p):
                break
            with open(p, errors="replace") as f:
                for line in f:
                    cid, _, rest = line.rstrip("\n").partition(" ")
                    if not line.endswith("\n") or not cid.rpartition("/")[2].isdigit():
                        continue  # cut off when the shard was stopped
                    d.setdefault(cid, []).append(rest)
            k += 1
        tr[r["variant"]] = d
    base = runs[0]["variant"]
    for r in runs[1:]:
        v = r["variant"]
        for cid, lines in tr[v].items():
            ref = tr[base].get(cid)
            if ref is None:
                continue
            n += len(lines)
            if ref != lines:
                for a, b in zip(ref + ["(nothing)"], lines + ["(nothing)"]):
                    if a != b:
                        break
                g, _, i = cid.rpartition("/")
                out.append({"variant": v, "group": g, "index": int(i), "msg": "build %s computes\n  %s\nbuild %s computes\n  %s" % (base, a[:1200], v, b[:1200])})
                break
    return out, n


if __name__ == "__main__":
    sys.exit(main())
