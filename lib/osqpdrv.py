"""Builds the library from /repo's working tree with the conformance driver, and turns case dictionaries into
driver scripts and results.  A case is {"id", "probs": [prob..], "ops": [op..]}; see prob() and the op emitters."""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSQP_REPO", "/repo")
VENV = "/opt/vp/venv"
CACHE = os.path.join(ROOT, ".cache")
WRAPS = ["malloc", "calloc", "realloc", "free", "MKL_malloc", "MKL_calloc", "MKL_free", "clock_gettime", "PARDISO",
         "dcg", "dcg_init", "mkl_sparse_d_create_csc", "mkl_sparse_destroy"]
ENV = dict(os.environ, MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE", MKL_DYNAMIC="FALSE", LC_ALL="C")

class ToolError(Exception):
    pass

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise ToolError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def repo_key():
    h = hashlib.sha256()
    for base in ["CMakeLists.txt", "configure", "src", "include", "algebra"]:
        top = os.path.join(REPO, base)
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(os.path.join(ROOT, "harness", "driver.c"), "rb").read())
    return h.hexdigest()[:20]

def build():
    """Returns the path of the driver for the current /repo, building it when its content was not built before."""
    key = repo_key()
    dst = os.path.join(CACHE, "drv-" + key)
    if os.path.exists(dst):
        return dst
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="osqpbuild-")
    try:
        env = {k: v for k, v in ENV.items() if k not in ("MKLROOT", "CONDA_PREFIX")}
        env.update(CC="gcc", CXX="g++")
        _run(["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DOSQP_ALGEBRA_BACKEND=mkl",
              "-DMKL_ROOT=" + VENV, "-DCMAKE_PREFIX_PATH=" + VENV, "-DOSQP_BUILD_UNITTESTS=OFF", "-DOSQP_BUILD_DEMO_EXE=OFF",
              "-DOSQP_BUILD_SHARED_LIB=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], env=env)
        _run(["ninja", "-C", tmp], env=env)
        rt = sorted(f for f in os.listdir(VENV + "/lib") if f.startswith("libmkl_rt.so"))[0]
        _run(["gcc", "-g", "-O1", "-I" + REPO + "/include/public", "-I" + tmp + "/include/public", "-o", tmp + "/drv",
              os.path.join(ROOT, "harness", "driver.c"), tmp + "/out/libosqpstatic.a"] + ["-Wl,--wrap=" + w for w in WRAPS] +
             ["-L" + VENV + "/lib", "-Wl,-rpath," + VENV + "/lib", "-l:" + rt, "-lm", "-ldl", "-lpthread"])
        shutil.copy(tmp + "/drv", dst + ".new%d" % os.getpid())
        os.rename(dst + ".new%d" % os.getpid(), dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("drv-")), key=os.path.getmtime)
    for f in old[:-6]:
        os.remove(f)
    return dst

# ------------------------------------------------------------------------------------------------ cases
INF = 1e30
def F(x):
    """driver text of a double"""
    return float(x).hex() if x == x and abs(x) != float("inf") else ("nan" if x != x else ("inf" if x > 0 else "-inf"))

def csc_dense(rows, m, n, triu=False, keep=None):
    """dense matrix -> (p, i, x); structural zeros dropped unless (i,j) in keep"""
    p, ii, xx = [0], [], []
    for j in range(n):
        for i in range(m):
            if triu and i > j: continue
            if rows[i][j] != 0 or (keep and (i, j) in keep): ii.append(i); xx.append(float(rows[i][j]))
        p.append(len(ii))
    return p, ii, xx

def prob(P, q, A, l, u, keepP=None, keepA=None, mod=None):
    n, m = len(q), len(l)
    Pp, Pi, Px = csc_dense(P, n, n, True, keepP)
    Ap, Ai, Ax = csc_dense(A, m, n, False, keepA)
    return {"n": n, "m": m, "Pp": Pp, "Pi": Pi, "Px": Px, "Ap": Ap, "Ai": Ai, "Ax": Ax, "q": [float(v) for v in q],
            "l": [float(v) for v in l], "u": [float(v) for v in u], "mod": mod or {}}

FLOATS = {"rho", "sigma", "alpha", "cg_tol_fraction", "adaptive_rho_fraction", "adaptive_rho_tolerance", "eps_abs", "eps_rel",
          "eps_prim_inf", "eps_dual_inf", "time_limit", "delta"}
def _set(d):
    return "%d %s" % (len(d), " ".join("%s %s" % (k, F(v) if k in FLOATS else int(v)) for k, v in d.items()))
def _vec(v):
    return "-" if v is None else "* %d %s" % (len(v), " ".join(F(x) for x in v))

def script(case):
    o = ["case " + case["id"]]
    for k, p in enumerate(case["probs"]):
        o.append("prob %d %d %d %d %d" % (k, p["n"], p["m"], len(p["Px"]), len(p["Ax"])))
        o.append(" ".join(map(str, p["Pp"] + p["Pi"])) + " " + " ".join(map(F, p["Px"])))
        o.append(" ".join(map(str, p["Ap"] + p["Ai"])) + " " + " ".join(map(F, p["Ax"])))
        o.append(" ".join(F(v) for v in p["q"] + p["l"] + p["u"]))
        for f, v in p["mod"].items(): o.append("pmod %d %s %d" % (k, f, v))
    for op in case["ops"]:
        t, s = op["op"], op.get("s", 0)
        if t == "setup": o.append("setup %d %d %s" % (s, op.get("p", 0), _set(op.get("set", {}))))
        elif t in ("solve", "cleanup", "cold", "dims", "unsupported"): o.append("%s %d" % (t, s))
        elif t == "update_vec": o.append("update_vec %d %s %s %s" % (s, _vec(op.get("q")), _vec(op.get("l")), _vec(op.get("u"))))
        elif t == "update_mat":
            a = []
            for M in "PA":
                v, i = op.get(M + "x"), op.get(M + "i")
                a.append("%d %d %s %d %s" % (op.get(M + "n", 0), -1 if v is None else len(v), " ".join(map(F, v or [])),
                                             -1 if i is None else len(i), " ".join(map(str, i or []))))
            o.append("update_mat %d %s" % (s, " ".join(a)))
        elif t == "warm": o.append("warm %d %s %s" % (s, _vec(op.get("x")), _vec(op.get("y"))))
        elif t == "update_rho": o.append("update_rho %d %s" % (s, F(op["rho"])))
        elif t == "update_settings": o.append("update_settings %d %s" % (s, _set(op.get("set", {}))))
        elif t == "get_solution": o.append("get_solution %d %d" % (s, op.get("null", 0)))
        elif t == "clock": o.append("clock %d %d %d" % (op["sym"], op["fac"], op["iter"]))
        elif t == "iterlist": o.append("iterlist %d %s" % (len(op["v"]), " ".join(map(str, op["v"]))))
        elif t in ("advance", "failat", "failfrom", "sigat", "scribble", "errmsg"): o.append("%s %d" % (t, op.get("v", 0)))
        elif t in ("sigpol", "sigint", "intro"): o.append(t)
        elif t == "csc":
            k = op["kind"]
            a = ""
            if k == "scalar": a = F(op["v"])
            elif k == "vec": a = " ".join(map(F, op["v"]))
            elif k in ("new", "set"): a = "%d %s %s %s" % (len(op["ri"]), " ".join(map(str, op["p"])), " ".join(map(str, op["ri"])), " ".join(map(F, op["v"])))
            o.append("csc %s %d %d %s" % (k, op["m"], op["n"], a))
        else: raise ToolError("unknown op " + t)
    o.append("endcase")
    return "\n".join(o) + "\n"

SILENT = {"clock", "iterlist", "advance", "failat", "failfrom", "sigat", "sigpol", "sigint", "scribble"}

def _shard(drv, cases, timeout):
    d = tempfile.mkdtemp(prefix="osqprun-")
    try:
        with open(d + "/s", "w") as f:
            for c in cases: f.write(script(c))
        p = subprocess.run([drv, d + "/s", d + "/o"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode: raise ToolError("driver failed (%d): %s" % (p.returncode, p.stderr.decode()[-2000:]))
        res = {}
        for line in open(d + "/o", errors="replace"):
            try: r = json.loads(line)
            except ValueError: r = {"case": None, "bad": line[:200]}
            if r.get("case") is not None: res.setdefault(r["case"], []).append(r)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(drv, cases, jobs=8, timeout=600):
    """Executes the cases; returns {case id: {"ev": [records], "aux": [..], "end": "end"|"crash", "sig": n}}."""
    jobs = max(1, min(jobs, len(cases)))
    sh = [cases[i::jobs] for i in range(jobs)]
    out = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: _shard(drv, c, timeout), sh):
            out.update(r)
    fin = {}
    for c in cases:
        rs = out.get(c["id"], [])
        e = {"ev": [r for r in rs if "i" in r and "aux" not in r], "aux": [r for r in rs if "aux" in r], "end": "none", "sig": 0}
        for r in rs:
            if r.get("op") in ("end", "crash") and "i" not in r: e["end"] = r["op"]; e["sig"] = r.get("sig", 0)
        fin[c["id"]] = e
    return fin
def fl(v):
    return None if v is None else [float.fromhex(x) for x in v]
