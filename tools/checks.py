"""What each check runs: harness source, tiers, and how its result is judged."""
import concurrent.futures as cf
import os

import runner
from runner import HARNESS, PLAIN, PLAIN2, SAN, must_compile, run_stripes

RULE = ("Each group of the harness is run for a number of iterations; an iteration draws its arguments "
        "from a random stream determined by (seed, group, iteration), calls the real headers of /repo "
        "and lets the oracles judge the results. An iteration is non-trivial when at least one oracle "
        "judged a result; it is distinct when its sequence of random draws was not seen before.")

# scale of the number of iterations, relative to the numbers in the harness
SCALE = {"quick": float(os.environ.get("VERIF_SCALE", "20")), "thorough": 250.0}


def simple(ck):
    src = os.path.join(HARNESS, ck.prop.lower() + ".cpp")
    exe = os.path.join(ck.build, ck.prop.lower())
    ck.rule = RULE
    scale = SCALE[ck.tier]
    must_compile(PLAIN, src, exe)
    run_stripes(ck, exe, PLAIN, src, scale)
    if ck.tier == "thorough":
        must_compile(PLAIN2, src, exe + "2")
        seed = ck.seed
        ck.seed = seed + 1000003
        run_stripes(ck, exe + "2", PLAIN2, src, scale)
        ck.seed = seed
        ck.notes["builds"] = [" ".join(PLAIN), " ".join(PLAIN2)]
    else:
        ck.notes["builds"] = [" ".join(PLAIN)]


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1"}
SHIM = ["-I", os.path.join(HARNESS, "shim")]
SAN_OPS = [f for f in SAN if f != "-DNDEBUG"] + ["-D_GLIBCXX_ASSERTIONS"] + SHIM
MEMCHECK = ["g++", "-std=c++17", "-O1", "-g", "-w"] + SHIM
DEEP = ["g++", "-std=c++17", "-O0", "-w"]
SMALL_STACK = ["bash", "-c", "ulimit -s 1024; exec \"$0\" \"$@\""]
VALGRIND = ["valgrind", "-q", "--error-exitcode=9", "--num-callers=20"]


def compile_many(jobs):
    """jobs: list of (cmd, src, out); compiled in parallel, all must compile"""
    with cf.ThreadPoolExecutor(runner.JOBS) as ex:
        for f in [ex.submit(must_compile, *j) for j in jobs]:
            f.result()


def c01(ck):
    ck.rule = ("Executions of public operations under AddressSanitizer, UndefinedBehaviorSanitizer, "
               "libstdc++ assertions and memcheck. An iteration is one drawn call (or one iteration of the "
               "workload of another property); it is distinct when its random draws were not seen before.")
    thorough = ck.tier == "thorough"
    src = os.path.join(HARNESS, "c01.cpp")
    others = sorted(f for f in os.listdir(HARNESS)
                    if f.startswith("c") and f.endswith(".cpp") and f not in ("c01.cpp", "c02.cpp", "c03.cpp"))
    jobs, parts, rest = [], [], []
    for f in others:
        exe = os.path.join(ck.build, "san_" + f[:-4])
        jobs.append((SAN, os.path.join(HARNESS, f), exe))
        rest.append(jobs[-1])
    for i in range(1, 9):
        cmd = SAN_OPS + ["-DOPS_PART=%d" % i]
        jobs.append((cmd, src, os.path.join(ck.build, "c01_%d" % i)))
        parts.append(jobs[-1])
    vg = (MEMCHECK, src, os.path.join(ck.build, "c01_memcheck"))
    jobs.append(vg)
    deep = (DEEP, os.path.join(HARNESS, "stack_c01.cpp"), os.path.join(ck.build, "c01_stack"))
    jobs.append(deep)
    compile_many(jobs)
    run_stripes(ck, deep[2], deep[0], deep[1], 20.0 if thorough else 1.0, prefix=SMALL_STACK)
    for cmd, s, exe in parts:
        run_stripes(ck, exe, cmd, s, 200.0 if thorough else 6.0, env=SAN_ENV)
    for cmd, s, exe in rest:
        run_stripes(ck, exe, cmd, s, 4.0 if thorough else 0.15, env=SAN_ENV, judge=False)
    run_stripes(ck, vg[2], vg[0], vg[1], 40.0 if thorough else 2.0, prefix=VALGRIND)
    ck.notes["builds"] = [" ".join(SAN_OPS), " ".join(SAN), " ".join(MEMCHECK) + " under " + " ".join(VALGRIND),
                          " ".join(DEEP) + " with a stack of 1 MB"]


PURE = ["g++", "-std=c++17", "-O1", "-w", "-pthread"] + SHIM
TSAN = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-pthread", "-fsanitize=thread", "-DMON_SANITIZED",
        "-DC02_TSAN"] + SHIM
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=5:report_bugs=1"}


def c02(ck):
    ck.rule = ("An event is one call of a public operation with drawn arguments; its reference result comes from "
               "a process that executed nothing else. Events are distinct by (operation, arguments); evaluations "
               "count the executions of events in sequential, reversed, shuffled, alternating and concurrent "
               "histories whose result was compared with the reference, or that ran under ThreadSanitizer.")
    thorough = ck.tier == "thorough"
    src = os.path.join(HARNESS, "c02.cpp")
    exe, texe = os.path.join(ck.build, "c02"), os.path.join(ck.build, "c02_tsan")
    compile_many([(TSAN, src, texe), (PURE, src, exe)])
    run_stripes(ck, exe, PURE, src, 40.0 if thorough else 3.0, timeout=3000 if thorough else 240)
    seed = ck.seed
    for k in range(20 if thorough else 2):
        ck.seed = seed + 7919 * k
        run_stripes(ck, texe, TSAN, src, 40.0 if thorough else 10.0, env=TSAN_ENV, stripes=2,
                    timeout=1200 if thorough else 150)
        if ck.violations:
            break
    ck.seed = seed
    ck.notes["builds"] = [" ".join(PURE), " ".join(TSAN)]


CE_GCC = PLAIN + ["-fconstexpr-ops-limit=400000000", "-fconstexpr-depth=4000"]
CE_CLANG = PLAIN2 + ["-fconstexpr-steps=400000000", "-fconstexpr-depth=4000"]


def c03(ck):
    ck.rule = RULE + (" A table entry is a result computed by the compiler and compared with the same call "
                      "executed at run time.")
    thorough = ck.tier == "thorough"
    src = os.path.join(HARNESS, "c03.cpp")
    builds = [(CE_GCC + ["-DC03_SEED=%d" % (ck.seed * 1000 + k)], k) for k in range(24 if thorough else 7)]
    builds += [(CE_CLANG + ["-DC03_SEED=%d" % (ck.seed * 1000 + 500 + k)], 500 + k) for k in range(8 if thorough else 1)]

    def one(b):
        exe = os.path.join(ck.build, "c03_%d" % b[1])
        rc, err, full = runner.compile_(b[0], src, exe)
        return b[0], exe, rc, err, full

    with cf.ThreadPoolExecutor(runner.JOBS) as ex:
        results = list(ex.map(one, builds))
    good = []
    for cmd, exe, rc, err, full in results:
        if rc == 0:
            good.append((cmd, exe))
            continue
        # the compiler cannot evaluate what the program can
        rt = cmd + ["-DC03_NO_TABLES"]
        must_compile(rt, src, exe)
        ck.violate("compile-time evaluation fails", err[:4000],
                   {"compile": cmd, "src": src, "seed": ck.seed, "uncompilable": True})
        good.append((rt, exe))
    scale = 60.0 if thorough else 2.0
    run_stripes(ck, good[0][1], good[0][0], src, scale)
    for cmd, exe in good[1:]:
        run_stripes(ck, exe, cmd, src, 0.001, stripes=1)
    ck.notes["builds"] = [" ".join(CE_GCC), " ".join(CE_CLANG)]
    ck.notes["compile_time_tables"] = len(good)


SPECIAL = {"C01": c01, "C02": c02, "C03": c03}


def run(ck):
    SPECIAL.get(ck.prop, simple)(ck)
