#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a definition and verifies it in a scratch copy of /repo.
usage: seed.py DEFS.py [id ...]   DEFS.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=C source)}"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedwork"
DEMO_SH = r'''#!/bin/sh
# exit 0: the property holds on this history, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
v=/opt/vp/venv/lib
rt=$(ls $v | grep '^libmkl_rt.so' | sort | head -1)
export MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_CBWR=COMPATIBLE
gcc -g -O1 -w -I"$PWD/include/public" -I"$PWD/_build/include/public" -o "$t/demo" "$d/demo.c" "$PWD/_build/out/libosqpstatic.a" \
  WRAPS -L$v -Wl,-rpath,$v -l:$rt -lm -ldl -lpthread || exit 98
cd "$t" && timeout 60 ./demo
'''
HEAD = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include "osqp.h"
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
typedef OSQPFloat F; typedef OSQPInt I;
/* dense row-major -> CSC (upper triangle only if tri) */
static OSQPCscMatrix* M(int m, int n, const F* d, int tri) {
  F* x = malloc(sizeof(F) * (m * n + 1)); I* r = malloc(sizeof(I) * (m * n + 1)); I* p = malloc(sizeof(I) * (n + 1)); int k = 0;
  for (int j = 0; j < n; j++) { p[j] = k; for (int i = 0; i < m; i++) if (d[i * n + j] != 0 && (!tri || i <= j)) { x[k] = d[i * n + j]; r[k++] = i; } }
  p[n] = k;
  return OSQPCscMatrix_new(m, n, k, x, r, p);
}
static OSQPSettings defaults(void) { OSQPSettings s; osqp_set_default_settings(&s); s.verbose = 0; return s; }
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def make(i, d):
    dst = os.path.join(ROOT, "seeded", i)
    os.makedirs(dst, exist_ok=True)
    wt = SCR + "/wt"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    for f, old, new in d["edits"]:
        p = os.path.join(wt, f); s = open(p).read()
        if s.count(old) != 1: raise SystemExit("%s: %r found %d times in %s" % (i, old, s.count(old), f))
        open(p, "w").write(s.replace(old, new))
    open(dst + "/patch.diff", "w").write(sh("git -C %s diff" % wt).stdout)
    open(dst + "/demo.c", "w").write(HEAD + d["demo"])
    wr = " ".join("-Wl,--wrap=" + w for w in d.get("wraps", []))
    open(dst + "/demo.sh", "w").write(DEMO_SH.replace("WRAPS", wr)); os.chmod(dst + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    b = sh("unset MKLROOT CONDA_PREFIX; export CC=gcc CXX=g++; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DOSQP_ALGEBRA_BACKEND=mkl -DMKL_ROOT=/opt/vp/venv "
           "-DCMAKE_PREFIX_PATH=/opt/vp/venv -DOSQP_BUILD_UNITTESTS=ON -DPython_EXECUTABLE=/opt/vp/venv/bin/python -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS "
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_CXX_FLAGS=-I/opt/vp/compat && ninja -C %s/_build" % (wt, wt, wt))
    if b.returncode: print(b.stdout[-2000:]); return "build failed"
    env = dict(os.environ, MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE")
    fails = []
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for prog in ("osqp_tester", "lin_alg_tester"):
        names = [l for l in sh("cd %s/_build/out && ./%s --list-tests --verbosity quiet" % (wt, prog), env=env).stdout.splitlines() if l]
        r = sh("cd %s/_build/out && timeout 300 ./%s" % (wt, prog), env=env)
        if r.returncode:
            import re
            fails.append(prog + ": " + " | ".join(l for l in r.stdout.splitlines() if l.startswith("/") or "FAILED" in l or "test cases" in l)[:600])
    good = sh("cd /repo && sh %s/demo.sh" % dst)
    evil = sh("cd %s && sh %s/demo.sh" % (wt, dst))
    return "tests %s; demo on /repo %d%s; with the bug %d (%s)" % ("pass" if not fails else "FAIL " + str(fails), good.returncode,
           "" if good.returncode == 0 else " " + good.stdout[-600:], evil.returncode, evil.stdout.strip()[-200:])
if __name__ == "__main__":
    g = {}; exec(open(sys.argv[1]).read(), g)
    for i in (sys.argv[2:] or g["SEEDS"]):
        print(i, "->", make(i, g["SEEDS"][i]), flush=True)
    shutil.rmtree(SCR, ignore_errors=True)
