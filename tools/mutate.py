#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the headers do the monitors notice?

mutate.py [-j N] [--scale S] [--sample K] [--out FILE] header.h ...

Every mutant is made in a copy of the headers under /tmp/mut; /repo is never changed. The monitors of the
properties that are anchored in the header are built against the copy and run one after the other until one
of them reports. What survives is printed for review; this is a tool for the author, no check runs it.
"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SRC = os.environ.get("VERIF_REPO", "/repo") + "/include"
ROOT = "/tmp/mut"

ANCHORS = {
    "abstract_line.h": "18 17 19 20 03", "approx.h": "26", "bbox.h": "15 16 04 21 24",
    "bezier_surface.h": "25", "constexpr_util.h": "09 11 08 03", "convex_hull.h": "23",
    "distance.h": "19", "intersection.h": "20 21 17", "line.h": "18 04 03", "mat.h": "10 11 04 08",
    "mat_ext.h": "12 13 14 03", "mat_io.h": "24", "vec_io.h": "24", "bbox_io.h": "24", "line_io.h": "24",
    "ray_io.h": "24", "plane_io.h": "24", "plane.h": "17 04 03", "polygon.h": "22 04",
    "quat.h": "14 04", "ray.h": "18 04 03", "scalar.h": "05 06 07 04 03", "segment.h": "18 04 19 22",
    "util.h": "07 21 23 20", "vec.h": "08 09 04 05 03 06", "vec_ext.h": "08 04 24 09 18", "constants.h": "06 05",
}

OPS = [
    (r"<=", ["<"]), (r">=", [">"]), (r"(?<=[\w\)\]]) < (?=[\w\(\-])", [" <= ", " > "]),
    (r"(?<=[\w\)\]]) > (?=[\w\(\-])", [" >= ", " < "]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]), (r" /= ", [" *= "]),
    (r"\+\+(?=\w)", ["--"]),
    (r"(?<=[\(,=] )-(?=[\w\(])|(?<=[\(])-(?=[\w\(])|(?<=return )-(?=[\w\(])", [""]),
    (r"!(?=[\w\(])", [""]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\babs\(", ["("]), (r"\bfloor\(", ["ceil("]),
    (r"\bceil\(", ["floor("]), (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"\bround\(", ["trunc("]),
    (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "1.001"]), (r"\b2\.0\b", ["3.0"]), (r"\b0\.5\b", ["0.25"]),
    (r"(?<=[\[\(, ])0(?=[\]\),;u])", ["1"]), (r"(?<=[\[\(, +\-])1(?=[\]\),;u])", ["0", "2"]),
    (r"(?<=[\[\(, +\-])2(?=[\]\),;u])", ["1", "3"]), (r"(?<=[\[\(, +\-])3(?=[\]\),;u])", ["2"]),
    (r"\bepsilon\b(?=[\),;])", ["(epsilon * 2)", "(epsilon / 2)"]),
    (r"constants<T>::almost_zero\(\)", ["T(0)", "(constants<T>::almost_zero() * T(10))"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif \((?!constexpr)", ["if (false && ", "if (true || "]),
    (r"\.min\b(?!\()", [".max"]), (r"\.max\b(?!\()", [".min"]),
    (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
    (r"\bstart\(\)", ["end()"]), (r"\borigin\b", ["direction"]), (r"\bR\b", ["C"]), (r"\bC\b", ["R"]),
]


def blank(text):
    """comments and preprocessor lines replaced with spaces, positions kept"""
    def sp(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    text = re.sub(r"/\*.*?\*/", sp, text, flags=re.S)
    text = re.sub(r"//[^\n]*", sp, text)
    text = re.sub(r"^[ \t]*#[^\n]*", sp, text, flags=re.M)
    text = re.sub(r"static_assert\([^;]*;", sp, text, flags=re.S)
    text = re.sub(r"\bassert\([^;]*;", sp, text, flags=re.S)
    text = re.sub(r"template <[^;{]*?>(?=\s*\n|\s+\w)", sp, text)
    text = re.sub(r'"[^"\n]*"', sp, text)
    return text


def mutants(header):
    text = open(os.path.join(SRC, "vecmath", header)).read()
    code = blank(text)
    out = []
    for pat, reps in OPS:
        for m in re.finditer(pat, code):
            line_start = code.rfind("\n", 0, m.start()) + 1
            line = code[line_start:code.find("\n", m.start())]
            if m.group(0) in ("lhs", "rhs") and re.search(r"const [\w<>:, ]+&? (lhs|rhs)[,)]", line):
                continue
            if m.group(0) in ("R", "C") and not re.search(r"for \(|return|if \(", line):
                continue
            for r in reps:
                out.append((m.start(), m.end(), r))
    # statements that are deleted
    for m in re.finditer(r"^[ \t]+(?!return|const |auto |using |else|friend|static|T |typename)[\w\[\]\.\(\)<>:,\* ]+ ?[\+\-\*/]?=? ?[^;\n{}]*;$", code, re.M):
        s = m.group(0)
        if "(" in s or "=" in s:
            if not re.match(r"\s+(vec|mat|bool|size_t|const|for|constexpr|operator|explicit|public|template)\b", s):
                out.append((m.start() + len(s) - len(s.lstrip()), m.end(), ";"))
    res = []
    for s, e, r in sorted(set(out)):
        new = text[:s] + r + text[e:]
        line = text.count("\n", 0, s) + 1
        res.append((header, line, text[s:e], r, new, new.split("\n")[line - 1].strip()))
    return res


def run(mut, scale, keep_all):
    header, line, old, rep, new, shown = mut
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        inc = os.path.join(d, "include")
        shutil.copytree(SRC, inc)
        with open(os.path.join(inc, "vecmath", header), "w") as f:
            f.write(new)
        compiled = 0
        for h in ANCHORS[header].split():
            src = os.path.join(HARNESS, "c%s.cpp" % h)
            exe = os.path.join(d, "h" + h)
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-I", inc, "-I", HARNESS, src, "-o", exe]
            if h == "03":
                cmd += ["-DC03_SEED=1", "-fconstexpr-ops-limit=400000000", "-fconstexpr-depth=4000"]
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=300)
            except subprocess.TimeoutExpired:
                return mut, "killed C%s (compiler hangs)" % h
            if p.returncode:
                if compiled == 0:
                    return mut, "uncompilable"
                return mut, "killed C%s (compile)" % h
            compiled += 1
            try:
                p = subprocess.run([exe, "--seed", "1", "--scale", repr(scale), "--out", os.path.join(d, "o.json"),
                                    "--crash-file", os.path.join(d, "crash"), "--stripe", "0", "--stripes", "1"],
                                   capture_output=True, text=True, errors="replace", timeout=240)
            except subprocess.TimeoutExpired:
                return mut, "killed C%s (timeout)" % h
            if p.returncode == 1:
                rep_ = json.load(open(os.path.join(d, "o.json")))
                keys = [v for v in rep_["violations"] if "equality" not in v["key"] or h != "14"]
                if h == "14" and not keys:
                    continue
                return mut, "killed C%s" % h
            if p.returncode:
                return mut, "killed C%s (crash)" % h
        return mut, "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--out", default="/tmp/mut/out.txt")
    ap.add_argument("headers", nargs="*")
    a = ap.parse_args()
    os.makedirs(ROOT, exist_ok=True)
    todo = []
    for h in a.headers or sorted(ANCHORS):
        ms = mutants(h)
        random.Random(1).shuffle(ms)
        todo += ms[:a.sample] if a.sample else ms
    print(len(todo), "mutants", flush=True)
    tally = {}
    with open(a.out, "a") as f, cf.ThreadPoolExecutor(a.j) as ex:
        for fut in cf.as_completed([ex.submit(run, m, a.scale, False) for m in todo]):
            m, res = fut.result()
            k = res.split(" (")[0].split(" C")[0]
            tally[(m[0], k)] = tally.get((m[0], k), 0) + 1
            f.write("%s:%d [%s]->[%s] %s | %s\n" % (m[0], m[1], m[2], m[3], m[5], res))
            f.flush()
    for k in sorted(tally):
        print(k, tally[k])


if __name__ == "__main__":
    main()
