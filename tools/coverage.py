#!/usr/bin/env python3
"""coverage.py OUT: which lines of the library the families of all checks execute (quick scale); one file:line count per line"""
import os, sys, random, subprocess, tempfile, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + "/lib")
import osqpdrv as D, fam as F, props, trace as T
def build(tmp):
    env = {k: v for k, v in D.ENV.items() if k not in ("MKLROOT", "CONDA_PREFIX")}; env.update(CC="gcc", CXX="g++")
    D._run(["cmake", "-S", D.REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DOSQP_ALGEBRA_BACKEND=mkl", "-DMKL_ROOT=" + D.VENV, "-DCMAKE_PREFIX_PATH=" + D.VENV, "-DOSQP_BUILD_UNITTESTS=OFF",
            "-DOSQP_BUILD_DEMO_EXE=OFF", "-DOSQP_BUILD_SHARED_LIB=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_C_FLAGS=--coverage -O0"], env=env)
    D._run(["ninja", "-C", tmp], env=env)
    rt = sorted(f for f in os.listdir(D.VENV + "/lib") if f.startswith("libmkl_rt.so"))[0]
    src = open(ROOT + "/harness/driver.c").read().replace("_exit(", "__gcov_dump(), _exit(")
    open(tmp + "/d.c", "w").write("void __gcov_dump(void);\n" + src)
    D._run(["gcc", "-g", "-O1", "-I" + D.REPO + "/include/public", "-I" + tmp + "/include/public", "-o", tmp + "/drv", tmp + "/d.c", tmp + "/out/libosqpstatic.a"] + ["-Wl,--wrap=" + w for w in D.WRAPS] +
           ["-L" + D.VENV + "/lib", "-Wl,-rpath," + D.VENV + "/lib", "-l:" + rt, "-lm", "-ldl", "-lpthread", "--coverage"])
    return tmp + "/drv"
tmp = tempfile.mkdtemp(prefix="osqpcov-")
try:
    drv = build(tmp); scale = float(os.environ.get("SCALE", "0.3")); C = []
    for pid, spec in props.CHECKS.items():
        for k, f in enumerate(spec["fams"]):
            c = f(random.Random("1/%s/%d" % (pid, k)), scale)
            for x in c: x["id"] = "%s.%d.%s" % (pid, k, x["id"])
            C += c
        if spec.get("faults"): C += F.alloc_faults(spec["faults"](random.Random(1)), lambda cs: D.run(drv, cs))
    for i, x in enumerate(C): x["id"] = "k%d" % i
    D.run(drv, C, 8)
    out = {}
    for d, _, fs in os.walk(tmp):
        for f in fs:
            if f.endswith(".gcda"):
                txt = subprocess.run(["gcov", "-t", "-o", d, os.path.join(d, f)], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
                cur = None
                for ln in txt.splitlines():
                    m = re.match(r"\s*([-#=\d*]+):\s*(\d+):(.*)", ln)
                    if not m: continue
                    if m[2] == "0":
                        if m[3].startswith("Source:"): cur = m[3][7:]
                    elif m[1] != "-" and cur.startswith(D.REPO): out[(cur, int(m[2]))] = out.get((cur, int(m[2])), 0) + (0 if m[1][0] in "#=" else int(m[1].rstrip("*")))
    with open(sys.argv[1], "w") as o:
        for (f, n), c in sorted(out.items()): o.write("%s:%d %d\n" % (f[len(D.REPO) + 1:], n, c))
    tot = {}
    for (f, n), c in out.items(): a = tot.setdefault(f, [0, 0]); a[0] += 1; a[1] += c > 0
    for f in sorted(tot): print("%-50s %4d of %4d lines" % (f[len(D.REPO) + 1:], tot[f][1], tot[f][0]))
finally: shutil.rmtree(tmp, ignore_errors=True)
