"""Build, run and judge the monitored workloads. See DESIGN.md."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDE = os.path.join(REPO, "include")
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
JOBS = 8

PLAIN = ["g++", "-std=c++17", "-O1", "-w"]
PLAIN2 = ["clang++", "-std=c++17", "-O2", "-ffp-contract=off", "-w"]
SAN = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-DNDEBUG", "-DMON_SANITIZED",
       "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class HarnessError(Exception):
    pass


class Unusable(Exception):
    """The headers compile, but calls of their public operations do not."""

    def __init__(self, cmd, src, err):
        Exception.__init__(self, err)
        self.cmd, self.src, self.err = cmd, src, err


class Check:
    """Everything a check has learnt while it ran."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []  # dicts: key, detail, cmd
        self.evaluations = 0
        self.distinct = 0
        self.oracle_evaluations = 0
        self.observed = {}
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.level = "exploration"
        self.rule = ""
        self.errors = []      # parts of the check that gave no answer
        self.t0 = time.time()
        self.build = os.path.join(HERE, "build", prop)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)

    def violate(self, key, detail, cmd=None):
        for v in self.violations:
            if v["key"] == key:
                v["count"] += 1
                return
        self.violations.append({"key": key, "detail": detail, "cmd": cmd, "count": 1})

    def merge(self, rep):
        self.evaluations += rep["evaluations"]
        self.distinct += rep["distinct"]
        self.oracle_evaluations += rep["checks"]
        for k, v in rep["observed"].items():
            self.observed[k] = self.observed.get(k, 0) + v
        for s in rep["samples"]:
            if len(self.samples) < 40:
                self.samples.append(s)


def compile_(cmd, src, out, extra=()):
    full = list(cmd) + ["-I", INCLUDE, "-I", HARNESS] + list(extra) + [src, "-o", out]
    p = subprocess.run(full, capture_output=True, text=True, errors="replace")
    return p.returncode, p.stderr, full


def must_compile(cmd, src, out, extra=()):
    rc, err, full = compile_(cmd, src, out, extra)
    if rc != 0:
        # a public operation that was usable and no longer is, or an unusable tree or compiler?
        probe = compile_(cmd, os.path.join(HARNESS, "probe.cpp"), out, extra)[0]
        if probe == 0 and "error:" in err:
            raise Unusable(list(cmd) + list(extra), src, err)
        raise HarnessError("cannot compile %s\n%s\n%s" % (src, " ".join(full), err[:6000]))


def repro_flags(cmd):
    return [c for c in cmd]


def run_stripes(ck, exe, compile_cmd, src, scale, env=None, tag="", judge=True, timeout=None,
                stripes=JOBS, prefix=()):
    """Run one harness binary in stripes; judge=False ignores oracle reports (sanitizer runs)."""
    timeout = timeout or (3000 if ck.tier == "thorough" else 400)

    def one(i):
        base = os.path.join(ck.build, "%s%s.%d" % (os.path.basename(exe), tag, i))
        out, crash = base + ".json", base + ".crash"
        cmd = list(prefix) + [exe, "--seed", str(ck.seed), "--scale", repr(scale), "--out", out,
               "--crash-file", crash, "--stripe", str(i), "--stripes", str(stripes)]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e,
                               timeout=timeout)
            if "unexpected memory mapping" in p.stderr:  # ThreadSanitizer and address randomisation
                p = subprocess.run(["setarch", "-R"] + cmd, capture_output=True, text=True,
                                   errors="replace", env=e, timeout=timeout)
            return i, p.returncode, p.stdout, p.stderr, out, crash
        except subprocess.TimeoutExpired as x:
            se = x.stderr or b""
            return i, -1000, "", se.decode("utf8", "replace") if isinstance(se, bytes) else se, out, crash

    with cf.ThreadPoolExecutor(stripes) as ex:
        results = list(ex.map(one, range(stripes)))
    for i, rc, so, se, out, crash in results:
        if rc in (0, 1) and os.path.exists(out):
            rep = json.load(open(out))
            ck.merge(rep)
            if judge:
                for v in rep["violations"]:
                    ck.violate("%s/%s" % (v["group"], v["key"]), v["detail"],
                               {"compile": compile_cmd, "src": src, "seed": ck.seed,
                                "group": v["group"], "iter": v["iter"]})
            continue
        msg = open(crash).read() if os.path.exists(crash) else ""
        m = re.search(r"MON-(\w+) signal=(-?\d+) property=\S+ group=(.*?) iter=(\d+) seed=", msg)
        if not m:
            # a sanitizer that terminates the process without a signal handler
            m2 = re.search(r"ERROR: \w+Sanitizer|runtime error:|WARNING: ThreadSanitizer|^==\d+== ", se, re.M)
            if m2:
                ck.violate("sanitizer/" + norm_san(se), se[-6000:],
                           {"compile": compile_cmd, "src": src, "seed": ck.seed, "env": env,
                            "scale": scale, "stripe": i, "stripes": stripes,
                            "prefix": list(prefix)})
                continue
            ck.errors.append("%s stripe %d %s\n%s\n%s" % (
                exe, i, "timed out" if rc == -1000 else "ended with %s" % rc, so[-2000:], se[-4000:]))
            continue
        kind, sig, group, it = m.group(1), m.group(2), m.group(3), m.group(4)
        if kind == "HANG":
            p = None
            try:  # confirm in isolation, a hang must be a property of the iteration
                p = subprocess.run([exe, "--seed", str(ck.seed), "--group", group, "--iter", it],
                                   capture_output=True, text=True, errors="replace", timeout=200)
            except subprocess.TimeoutExpired:
                pass
            if p is not None and p.returncode in (0, 1):
                ck.errors.append("hang of %s iter %s could not be confirmed" % (group, it))
                continue
        what = {"HANG": "does-not-terminate", "CRASH": "crash"}[kind]
        detail = "%s (signal %s) in group %s iteration %s\n%s" % (what, sig, group, it, se[-5000:])
        key = "%s/%s" % (group, what)
        if "Sanitizer" in se or "runtime error" in se:
            key = "%s/sanitizer: %s" % (group, norm_san(se))
        ck.violate(key, detail, {"compile": compile_cmd, "src": src, "seed": ck.seed,
                                 "group": group, "iter": int(it), "env": env})


def norm_san(se):
    for line in se.splitlines():
        m = re.search(r"([\w./]+):\d+:\d+: runtime error: (.*)", line)
        if m:
            return "%s %s" % (os.path.basename(m.group(1)), re.sub(r"[-\d.e+]{2,}", "N", m.group(2)))
        m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", line)
        if m:
            return "%s %s" % (m.group(1), m.group(2))
        m = re.search(r"WARNING: (ThreadSanitizer: [\w -]+)", line)
        if m:
            return m.group(1).strip()
        m = re.search(r"^==\d+== ((?:Conditional|Use of|Invalid|Uninit|Syscall|Mismatched|Source and)[^()\d]*)", line)
        if m:
            return "memcheck " + m.group(1).strip()
    return "report"


def load_known(prop):
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    return known


def finish(ck):
    known = load_known(ck.prop)
    os.makedirs(REPLAYS, exist_ok=True)
    reported = 0
    seen_known = set()
    for v in ck.violations:
        hit = [k for k in known if k[0] == v["key"].replace(" ", "_")]
        if hit:
            seen_known.add(hit[0])
            continue
        reported += 1
        path = os.path.join(REPLAYS, "%s-%d.json" % (ck.prop, reported))
        with open(path, "w") as f:
            json.dump({"property": ck.prop, "key": v["key"], "detail": v["detail"],
                       "replay": v["cmd"]}, f, indent=1)
        print("  %s: %s" % (v["key"], v["detail"][:1500].rstrip()))
        print("VIOLATION property=%s replay=%s" % (ck.prop, path))
        if reported >= 20:
            print("  ... further violations not listed")
            break
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (ck.prop, k[1]))
    cov = {"evaluations": ck.evaluations, "distinct_nontrivial": ck.distinct, "rule": ck.rule,
           "samples": ck.samples, "oracle_evaluations": ck.oracle_evaluations,
           "observed": dict(sorted(ck.observed.items()))}
    cov.update(ck.notes)
    ev = {"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": ck.level,
          "coverage": cov, "assumptions": ck.assumptions, "wall_s": round(time.time() - ck.t0, 2),
          "violations": reported}
    tmp = os.path.join(EVIDENCE, ck.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, ck.prop + ".json"))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d oracle evaluations, %d violations, %.1f s"
          % (ck.prop, ck.tier, ck.seed, ck.evaluations, ck.distinct, ck.oracle_evaluations, reported,
             time.time() - ck.t0))
    shutil.rmtree(ck.build, ignore_errors=True)
    return 1 if reported else 0


def replay(path):
    d = json.load(open(path))
    c = d["replay"]
    print("replaying %s: %s\n%s" % (d["property"], d["key"], d["detail"][:3000]))
    if not c or "src" not in c:
        print("this violation is replayed by running the check itself: %s" % json.dumps(c))
        return 0
    b = os.path.join(HERE, "build", "replay")
    os.makedirs(b, exist_ok=True)
    exe = os.path.join(b, "replay")
    if c.get("uncompilable"):
        rc, err, _ = compile_(c["compile"], c["src"], exe)
        print(err[:4000])
        print("replay: the compiler ended with %d" % rc)
        return 1 if rc else 0
    must_compile(c["compile"], c["src"], exe)
    env = dict(os.environ)
    env.update(c.get("env") or {})
    cmd = list(c.get("prefix") or []) + [exe, "--seed", str(c["seed"])]
    if "group" in c:
        cmd += ["--group", c["group"], "--iter", str(c["iter"])]
    else:
        cmd += ["--scale", repr(c["scale"]), "--stripe", str(c["stripe"]), "--stripes", str(c["stripes"])]
    p = subprocess.run(cmd, env=env)
    shutil.rmtree(b, ignore_errors=True)
    print("replay ended with %d" % p.returncode)
    return 1 if p.returncode != 0 else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(REPLAYS, f))
    import checks
    ck = Check(prop, tier, seed)
    try:
        checks.run(ck)
    except Unusable as e:
        first = re.search(r"error: .*", e.err)
        ck.violate("an operation cannot be compiled any more", (first.group(0) if first else "") + "\n" + e.err[:5000],
                   {"compile": e.cmd, "src": e.src, "seed": ck.seed, "uncompilable": True})
    except HarnessError as e:
        ck.errors.append(str(e))
    for e in ck.errors:
        print("HARNESS-ERROR property=%s\n%s" % (prop, e))
    code = finish(ck)
    return code if code or not ck.errors else 2
