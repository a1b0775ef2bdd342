#!/usr/bin/env python3
"""mutate.py list COV | run COV OUT N SEED [SCALE]: small changes of executed lines of the library, one at a time in a scratch
copy.  Each is run over the families of every check; cases whose recorded behaviour differs from the unchanged library's
are judged with the aspects of their check.  One JSON line per change: which checks saw a difference, which rejected it.
COV is the output of coverage.py.  A development tool: no registered check uses it."""
import collections, json, os, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + "/lib"); sys.path.insert(0, ROOT)
W = os.environ.get("MUT", "/tmp/mut")
JOBS = int(os.environ.get("JOBS", "4"))
FILES = ["src/osqp_api.c", "src/auxil.c", "src/scaling.c", "src/polish.c", "src/error.c", "src/util.c", "algebra/_common/kkt.c", "algebra/_common/reduced_kkt.c", "algebra/_common/csc_math.c", "algebra/_common/csc_utils.c",
         "algebra/mkl/algebra_libs.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/_common/matrix.c"]
SWAPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])", "<="), (r"(?<![<>=!\-])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"(?<![<>=!\-+*/&|])<(?![<=])", ">"), (r"(?<![<>=!\-])>(?![>=])", "<"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"&&", "||"), (r"\|\|", "&&"), (r"\bc_max\b", "c_min"), (r"\bc_min\b", "c_max"), (r"\bc_absval\b", ""),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"-1\.0\b", "1.0"), (r"\b1\.0\b", "-1.0"), (r"!(?=[\w(])", ""),
         (r"->l\b", "->u"), (r"->u\b", "->l"), (r"->x\b", "->z"), (r"->x\b", "->x_prev"), (r"->z\b", "->z_prev"), (r"->x_prev\b", "->x"), (r"->z_prev\b", "->z"), (r"->y\b", "->delta_y"), (r"->D\b", "->Dinv"), (r"->Dinv\b", "->D"), (r"->E\b", "->Einv"), (r"->Einv\b", "->E"),
         (r"->cinv\b", "->c"), (r"->c\b", "->cinv"), (r"\bprim", "dual"), (r"\bdual", "prim"), (r"_prim", "_dual"), (r"_dual", "_prim"), (r"eps_abs", "eps_rel"), (r"eps_rel", "eps_abs"), (r"->P\b", "->A"), (r"->A\b", "->P"), (r"\bP\b", "A"), (r"\bA\b", "P"), (r"->m\b", "->n"), (r"->n\b", "->m"), (r"->rho\b", "->sigma"), (r"->sigma\b", "->rho"),
         (r"rho_vec\b", "rho_inv_vec"), (r"rho_inv_vec\b", "rho_vec"), (r"norm_inf", "norm_1"), (r"\bAxpy", "Atxpy"), (r"_low\b", "_upp"), (r"_upp\b", "_low"), (r"n_low", "n_upp"), (r"OSQP_TIME_LIMIT_REACHED", "OSQP_MAX_ITER_REACHED"), (r"_INACCURATE", ""), (r"ew_prod", "ew_div"), (r"setup_time", "solve_time"), (r"update_time", "solve_time"), (r"iter\b", "iter + 1"), (r"scaled_prim_res", "prim_res"), (r"ew_bound_vec", "copy")]
def strip(line):
    line = re.sub(r"//.*$", "", line); line = re.sub(r"/\*.*?\*/", "", line)
    return line
def mutants(repo, cov):
    ex = collections.defaultdict(set)
    for ln in open(cov):
        f, c = ln.rsplit(" ", 1)
        if int(c): a, b = f.rsplit(":", 1); ex[a].add(int(b))
    out = []
    for f in sorted(ex):
        if "timing" in f or "codegen" in f: continue
        src = open(os.path.join(repo, f)).read().split("\n")
        for n in sorted(ex[f]):
            # the statement may go on over the following lines
            for k in range(n - 1, min(n + 2, len(src))):
                if k > n - 1 and (k + 1 in ex[f] or src[k - 1].rstrip().endswith((";", "{", "}"))): break
                line = src[k]; body = strip(line)
                if re.search(r'"', body) or not body.strip() or body.lstrip().startswith("#"): continue
                if k == n - 1 and re.match(r"^\w.*\(", body): continue          # function heads
                for pat, rep in SWAPS:
                    for j, m in enumerate(re.finditer(pat, body)):
                        if j > 2: break
                        new = line[:m.start()] + rep + line[m.end():]
                        if new != line: out.append((f, k + 1, line, new))
                if k == n - 1:
                    m = re.match(r"^(\s*)(if|else if|\} else if)\s*\((.*)\)\s*(\{?)\s*$", body)
                    if m: out.append((f, k + 1, line, line.replace("(" + m[3] + ")", "(!(" + m[3] + "))", 1)))
                    if re.match(r"^\s*[\w\->\[\]\.\*\(\)]+\s*([-+*/]?=)[^=].*;\s*$", body) or re.match(r"^\s*\w+\(.*\);\s*$", body):
                        if not re.match(r"^\s*(return|OSQP\w+\s+\w|OSQP\w+\*|MKL_INT|const|int|double)\b", body): out.append((f, k + 1, line, re.match(r"^\s*", line)[0] + ";"))
                    if re.match(r"^\s*(break|continue);", body): out.append((f, k + 1, line, re.match(r"^\s*", line)[0] + ";"))
                    m = re.match(r"^(\s*)return\s+(\w+);", body)
                    if m and m[2] not in ("0", "1"): out += [(f, k + 1, line, m[1] + "return 0;"), (f, k + 1, line, m[1] + "return 1;")]
    return sorted(set(out))
def run(cov, outp, N, seed, scale):
    repo = W + "/repo"; os.makedirs(W, exist_ok=True)
    if not os.path.exists(repo): subprocess.run(["cp", "-a", "/repo", repo], check=True)
    os.environ["OSQP_REPO"] = repo
    import osqpdrv as D, trace as T, fam as F, props, check as K
    T.compile_java(); base = W + "/base"
    env = {k: v for k, v in D.ENV.items() if k not in ("MKLROOT", "CONDA_PREFIX")}; env.update(CC="gcc", CXX="g++")
    D._run(["cmake", "-S", repo, "-B", base, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DOSQP_ALGEBRA_BACKEND=mkl", "-DMKL_ROOT=" + D.VENV, "-DCMAKE_PREFIX_PATH=" + D.VENV,
            "-DOSQP_BUILD_UNITTESTS=OFF", "-DOSQP_BUILD_DEMO_EXE=OFF", "-DOSQP_BUILD_SHARED_LIB=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], env=env)
    D._run(["ninja", "-C", base], env=env)
    cmds = {os.path.relpath(c["file"], repo): c for c in json.load(open(base + "/compile_commands.json"))}
    rt = sorted(f for f in os.listdir(D.VENV + "/lib") if f.startswith("libmkl_rt.so"))[0]
    D._run(["gcc", "-g", "-O1", "-c", "-I" + repo + "/include/public", "-I" + base + "/include/public", "-o", W + "/driver.o", ROOT + "/harness/driver.c"])
    def link(lib, dst): D._run(["gcc", "-o", dst, W + "/driver.o", lib] + ["-Wl,--wrap=" + w for w in D.WRAPS] + ["-L" + D.VENV + "/lib", "-Wl,-rpath," + D.VENV + "/lib", "-l:" + rt, "-lm", "-ldl", "-lpthread"])
    link(base + "/out/libosqpstatic.a", W + "/drv0")
    C = []
    for pid, spec in props.CHECKS.items():
        for k, f in enumerate(spec["fams"]):
            for c in K.prepare(f(random.Random("%s/%s/%d" % (seed, pid, k)), scale), "%s.%d." % (pid, k)): c["asp"] = spec["asp"]; C.append(c)
        if spec.get("faults") and scale >= .3:
            for c in K.prepare(F.alloc_faults(spec["faults"](random.Random(1)), lambda cs: D.run(W + "/drv0", cs)), pid + ".f."): c["asp"] = spec["asp"]; C.append(c)
    by = {c["id"]: c for c in C}
    ref = D.run(W + "/drv0", C, JOBS)
    norm = lambda e: json.dumps(e, sort_keys=True)
    h0 = {i: hash(norm(ref[i])) for i in ref}
    print(len(C), "cases")
    M = [m for m in mutants(repo, cov) if m[0] in cmds]
    random.Random("m%s" % seed).shuffle(M)
    done = set()
    if os.path.exists(outp): done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(outp))}
    M = [m for m in M if (m[0], m[1], m[3].strip()) not in done][:N]
    for f, n, old, new in M:
        t = time.time(); rec = dict(file=f, line=n, old=old.strip(), new=new.strip())
        src = open(os.path.join(repo, f)).read().split("\n"); src[n - 1] = new
        w = W + "/w"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        mp = w + "/" + os.path.basename(f); open(mp, "w").write("\n".join(src))
        c = cmds[f]; cmd = c["command"].replace(c["file"], mp); obj = re.search(r"-o (\S+)", cmd)[1]; cmd = cmd.replace("-o " + obj, "-o %s/%s -w -I%s" % (w, os.path.basename(obj), os.path.dirname(c["file"])))
        p = subprocess.run(cmd, shell=True, cwd=c["directory"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: continue
        shutil.copy(base + "/out/libosqpstatic.a", w + "/l.a"); subprocess.run(["ar", "r", w + "/l.a", w + "/" + os.path.basename(obj)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: link(w + "/l.a", w + "/drv")
        except D.ToolError: continue
        try:
            import resource
            res = D.run(w + "/drv", C, JOBS, timeout=150)
        except Exception as e:
            rec["end"] = "hang" if "TimeoutExpired" in type(e).__name__ else "tool"; subprocess.run(["pkill", "-f", w + "/drv"])
            open(outp, "a").write(json.dumps(rec) + "\n"); continue
        diff = [i for i in res if hash(norm(res[i])) != h0[i]]
        per = collections.defaultdict(list)
        for i in diff: per[i.split(".")[0]].append(i)
        rec["diff"] = {p: len(v) for p, v in sorted(per.items())}
        pick = []
        for p, v in per.items():
            random.Random(1).shuffle(v); v.sort(key=lambda i: res[i]["end"] == "end"); pick += v[:8]
        obs = {}
        for i in pick:
            for c2 in K.closure(C, i) if by[i].get("links") else [by[i]]:
                if c2["id"] not in obs: o = T.observe(c2, res[c2["id"]]); o["asp"] = c2["asp"]; obs[c2["id"]] = o
        for i in pick:
            for r_, pairs, ign, tol in by[i].get("links", []):
                if r_ in obs: T.twin(obs[i], obs[r_], pairs, ign, tol)
        try:
            v, st = T.judge([o for i, o in obs.items() if not by[i].get("nojudge")], jobs=JOBS) if obs else ({}, 0)
            rej = collections.Counter(i.split(".")[0] for i in v if v[i] is not None)
            rec["rej"] = dict(rej); rec["why"] = [str(v[i][0])[:90] for i in v if v[i] is not None][:2]
        except Exception as e: rec["end"] = "judge: " + str(e)[-300:]
        rec["t"] = round(time.time() - t, 1)
        open(outp, "a").write(json.dumps(rec) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "list":
        M = mutants("/repo", sys.argv[2]); print(len(M)); print(collections.Counter(m[0] for m in M))
    else: run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]) if len(sys.argv) > 6 else .1)
