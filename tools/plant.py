#!/usr/bin/env python3
"""Turns a description of a planted bug into /verif/seeded/<id>/ and confirms it in a scratch copy.

plant.py SPEC.py [id ...]   SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...] or
                            files={file: [(old, new)]}, demo=<body of main or whole program>, needs, breaks)]
plant.py --check [id ...]   runs the check of its property against every kept bug, prints caught or missed

Works in copies under /tmp/w; /repo itself is never changed.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
W = "/tmp/w"
BASE = os.path.join(W, "base")
INCLUDES = """#include <vecmath/abstract_line.h>
#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/forward.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/util.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/vec_io.h>

#include <cmath>
#include <cstdio>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
"""
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; exit 1: it does not (or the demonstration does not compile)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 %s -w -I include -I "$here" "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 1
"$tmp/demo" || { echo "demonstration failed"; exit 1; }
exit 0
"""


def sh(cmd, cwd=None, timeout=1200, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, **kw)


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    r = sh(["git", "clone", "-q", "--no-hardlinks", "/repo", dst])
    assert r.returncode == 0, r.stdout


def tests_pass(repo):
    b = os.path.join(repo, "_build")
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    r = sh(["cmake", "-S", repo, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DCMAKE_CXX_FLAGS=-Wno-error",
            "-DCMAKE_PROJECT_vecmath_INCLUDE=/opt/vp/catch2-compat/catch2-compat.cmake"], env=env)
    if r.returncode:
        return "cmake: " + r.stdout[-800:]
    r = sh(["ninja", "-C", b, "-k", "0"], env=env)
    if r.returncode:
        return "build: " + "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:1500]
    out = os.path.join(repo, "out.json")
    sh(["python3", "/opt/vp/run_catch.py", os.path.join(b, "test", "vecmath-test"), out])
    res = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("passed") or base.get("stable") or base
    missing = sorted(set(stable) - set(res["passed"]))
    return "tests fail: " + ", ".join(missing[:5]) if missing else ""


def demo_program(body):
    if "int main" in body:
        return INCLUDES + "\n" + textwrap.dedent(body)
    return (INCLUDES + "\nusing namespace vm;\n\n"
            "static int failures = 0;\n"
            "#define CHECK(c) do { if (!(c)) { std::printf(\"failed: %s\\n\", #c); ++failures; } } while (false)\n\n"
            "int main() {\n" + textwrap.indent(textwrap.dedent(body).strip("\n"), "  ")
            + "\n  return failures != 0;\n}\n")


def make(bug):
    bid = bug["id"]
    repo = os.path.join(W, bid)
    copy(repo)
    try:
        files = bug.get("files") or {bug["file"]: bug["edits"]}
        for f, edits in files.items():
            p = os.path.join(repo, "include", "vecmath", f)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    return bid, False, f"{f}: {s.count(old)} matches of {old!r}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        for f in files:   # removed lines have to be lines of the original repository
            orig = sh(["git", "show", "02d1788:include/vecmath/" + f], cwd=repo).stdout.splitlines()
            gone = [l[1:] for l in sh(["git", "diff", "-U0", "--", "include/vecmath/" + f], cwd=repo).stdout.splitlines()
                    if l.startswith("-") and not l.startswith("---")]
            alien = [l for l in gone if l.strip() and l not in orig]
            if alien:
                return bid, False, "changes lines of a fix: " + alien[0]
        d = os.path.join(W, bid + ".seed")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = sh(["git", "diff"], cwd=repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % bug.get("flags", "-O1"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(demo_program(bug["demo"]))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=BASE)
        if r.returncode != 0:
            return bid, False, "demo fails on the unchanged tree: " + r.stdout[-1500:]
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if r.returncode == 0:
            return bid, False, "demo passes with the change"
        t = tests_pass(repo)
        if t:
            return bid, False, t
        dst = os.path.join(SEEDED, bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        shutil.rmtree(d, ignore_errors=True)
        return bid, True, r.stdout.strip().splitlines()[0] if r.stdout.strip() else ""
    finally:
        shutil.rmtree(repo, ignore_errors=True)


def check(bid, props=None, tier="quick"):
    meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
    repo = os.path.join(W, "chk-" + bid)
    copy(repo)
    try:
        r = sh(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], cwd=repo)
        if r.returncode:
            return bid, "patch does not apply"
        res = []
        for p in props or [meta["property"]]:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = sh(["python3", os.path.join(VERIF, "check.py"), p, "--tier", tier], env=env)
            hit = f"VIOLATION property={p} " in r.stdout
            detail = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            res.append(f"{p}: " + ("caught " if r.returncode == 1 and hit else
                       "MISSED" if r.returncode == 0 else f"NO ANSWER {r.returncode} {r.stdout[-300:]}")
                       + (" " + detail[0][-110:] if detail else ""))
        return bid, "; ".join(res)
    finally:
        shutil.rmtree(repo, ignore_errors=True)


def main(argv):
    os.makedirs(W, exist_ok=True)
    if argv[0] == "--check":
        ids = argv[1:] or sorted(os.listdir(SEEDED))
        groups = {}   # a check has one build directory: bugs of one property one after another
        for i in ids:
            groups.setdefault(json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"], []).append(i)

        def run(g):
            for i in g:
                print(*check(i), sep=" | ", flush=True)
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(run, groups.values()))
        return
    if argv[0] == "--matrix":   # every check against the given bugs
        allp = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
        for i in argv[1:]:
            print(*check(i, allp), sep=" | ", flush=True)
        return
    copy(BASE)
    spec = importlib.util.spec_from_file_location("bugs", argv[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [b for b in m.BUGS if not argv[1:] or b["id"] in argv[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(make, b) for b in todo]):
            bid, ok, msg = f.result()
            print("kept    " if ok else "REJECTED", bid, msg, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
