"""From executed cases to the observations OsqpTrace.tla judges, and TLC runs over them."""
import json, os, re, struct, subprocess, tempfile, shutil, concurrent.futures as cf
import osqpdrv as D

SPEC = os.path.join(D.ROOT, "spec")
CLASSES = os.path.join(D.CACHE, "classes")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# ------------------------------------------------------------------------------------------------ encoding
def dbl(x):
    x = float(x)
    if x == 0: x = 0.0
    return list(struct.unpack(">ii", struct.pack(">d", x)))
def vec(v): return [dbl(x) for x in v]
def hx(s): return dbl(float.fromhex(s))
def hv(v): return [] if v is None else [hx(x) for x in v]
SECS = lambda ns: dbl(ns / 1e9) if ns % 10 ** 9 else dbl(ns // 10 ** 9)

DEF = dict(device=0, linsys_solver=1, allocate_solution=1, verbose=1, profiler_level=0, warm_starting=1, scaling=10, polishing=0,
           rho_is_vec=1, cg_max_iter=20, cg_tol_reduction=10, cg_precond=1, adaptive_rho=1, adaptive_rho_interval=50, max_iter=4000,
           scaled_termination=0, check_termination=25, check_dualgap=1, polish_refine_iter=3)
def setrec(d): return {k: (dbl(v) if k in D.FLOATS else int(v)) for k, v in d.items() if k != "NULL"}
def st_of(s): return {k: (hx(v) if k in D.FLOATS else v) for k, v in s.items()}
def info_of(f):
    return {k: (v if isinstance(v, int) or k == "status" else hx(v)) for k, v in f.items() if k != "primdual_int"}
def sol_of(s): return {k: hv(s[k]) for k in ("x", "y", "pc", "dc")}

# ------------------------------------------------------------------------------------------------ console output
LINE = re.compile(r"^ *(\d+) +(\S+) +(\S+) +(\S+) +(\S+) +(\S+) +(\S+?)(\*| ) +(\S+)s$")
LINE2 = re.compile(r"^plsh +(.*)s$")
FOOT = [("status", "status:"), ("polish", "solution polishing:"), ("iters", "number of iterations:"), ("obj", "optimal objective:"),
        ("dobj", "dual objective:"), ("gap", "duality gap:"), ("run", "run time:"), ("rhoest", "optimal rho estimate:")]
HEAD = [("eps_abs", r"eps_abs = ([^ ,]+)"), ("eps_rel", r"eps_rel = ([^ ,]+)"), ("eps_prim_inf", r"eps_prim_inf = ([^ ,]+)"), ("eps_dual_inf", r"eps_dual_inf = ([^ ,]+)"), ("rho", r"(?<!_)rho = ([^ ,]+)"), ("adapt", r"\(adaptive: ([^)]*)\)"),
        ("sigma", r"sigma = ([^ ,]+)"), ("alpha", r"alpha = ([^ ,]+)"), ("max_iter", r"max_iter = (\d+)"), ("check", r"check_termination: (off|on \(interval \d+, duality gap: \w+\))"), ("time_limit", r"time_limit: (\S+) sec"),
        ("scaling", r"(?m)^ +scaling: (off|on \(\d+ iterations\))"), ("scaled_termination", r"scaled_termination: (\w+)"), ("warm", r"warm starting: (\w+)"), ("polishing", r"polishing: (\w+)"), ("solver", r"linear system solver = (.*?)(?: \(\d+ threads\))?,")]
def parse_out(t):
    o = dict(silent=(t == ""), header=False, nvars=-1, ncons=-1, nnz=-1, cols=0, foot=False, status="", iters=-1, polish="", obj="", dobj="",
             gap="", run="", rhoest="", lines=[], plsh=dict(has=False, obj="", prim="", dual="", gap="", err="", time=""),
             hs={k: "" for k, _ in HEAD})
    if "settings:" in t:
        for k, rx in HEAD:
            o["hs"][k] = "|".join(re.findall(rx, t))
    for ln in t.split("\n"):
        s = ln.rstrip()
        m = re.search(r"variables n = (\d+), constraints m = (\d+)", s)
        if m: o.update(header=True, nvars=int(m[1]), ncons=int(m[2])); continue
        m = re.search(r"nnz\(P\) \+ nnz\(A\) = (\d+)", s)
        if m: o["nnz"] = int(m[1]); continue
        if s.startswith("iter ") and "objective" in s: o["cols"] += 1; continue
        m = LINE.match(s)
        if m:
            o["lines"].append(dict(k=int(m[1]), obj=unneg(m[2]), prim=m[3], dual=m[4], gap=unneg(m[5]), err=m[6], rho=m[7], mark=m[8] == "*", time=m[9])); continue
        m = LINE2.match(s)
        if m:
            w = m[1].split()
            o["plsh"] = dict(has=True, obj=unneg(w[0]), prim=w[1], dual=w[2], gap=unneg(w[3]), err=w[4], time=w[-1]); continue
        for k, h in FOOT:
            if s.startswith(h):
                v = s[len(h):].strip()
                if k == "status": o["foot"] = True
                if k == "iters": v = int(v) if re.fullmatch(r"-?\d+", v) else -1
                if k == "run": v = v[:-1] if v.endswith("s") else v
                o[k] = unneg(v) if isinstance(v, str) else v
    return o
def unneg(t):
    """minus zero prints as zero"""
    return t[1:] if re.match(r"^-0(\.0*)?(e[+-]00)?$", t) else t

# ------------------------------------------------------------------------------------------------ cases
def prob_rec(p):
    mod = p["mod"]
    ent = lambda pp, ii, xx: [[ii[k] + 1, j + 1, dbl(xx[k])] for j in range(len(pp) - 1) for k in range(pp[j], pp[j + 1])]
    return dict(sn=mod.get("n", p["n"]), sm=mod.get("m", p["m"]), Pm=mod.get("Pm", p["n"]), Pn=mod.get("Pn", p["n"]), Am=mod.get("Am", p["m"]), An=mod.get("An", p["n"]),
                nullP=bool(mod.get("nullP")), nullA=bool(mod.get("nullA")), nullq=bool(mod.get("nullq")), nulll=bool(mod.get("nulll")), nullu=bool(mod.get("nullu")),
                P=ent(p["Pp"], p["Pi"], p["Px"]), A=ent(p["Ap"], p["Ai"], p["Ax"]), q=vec(p["q"]), l=vec(p["l"]), u=vec(p["u"]))
NOTW = dict(has=False, near=False, tol=dbl(0), ret=0, hassol=False, sol={}, hasinfo=False, info={}, ignore=[])
def op_rec(op):
    t = op["op"]; o = dict(op=t, s=op.get("s", 0), tw=NOTW)
    if t == "clock": o.update({k: SECS(op[k]) for k in ("sym", "fac", "iter")})
    elif t == "iterlist": o["v"] = [SECS(x) for x in op["v"]]
    elif t in ("setup", "update_settings"):
        st = op.get("set", {}); o.update(set=setrec(st), nullset="NULL" in st)
        if t == "setup": o["p"] = op.get("p", 0)
    elif t == "update_vec":
        for k in "qlu": o["h" + k] = op.get(k) is not None; o[k] = vec(op.get(k) or [])
    elif t == "update_mat":
        for M in "PA":
            o[M + "n"] = op.get(M + "n", 0)
            for k in "xi": o["h" + M + k] = op.get(M + k) is not None
            o[M + "x"] = vec(op.get(M + "x") or []); o[M + "i"] = list(op.get(M + "i") or [])
    elif t == "warm":
        for k in "xy": o["h" + k] = op.get(k) is not None; o[k] = vec(op.get(k) or [])
    elif t == "update_rho": o["rho"] = dbl(op["rho"])
    elif t == "get_solution": o["null"] = op.get("null", 0)
    elif t == "csc":
        k = op["kind"]; o.update(kind=k, m=op["m"], n=op["n"] if k != "identity" else op["m"], pp=op.get("p", []), ri=op.get("ri", []),
                                 v=dbl(op["v"]) if k == "scalar" else vec(op.get("v", []) if k != "identity" and k != "zeros" else []))
    elif t in ("advance", "failat", "failfrom", "sigat", "scribble", "errmsg"): o["v"] = op.get("v", 0)
    return o
BLANK = dict(crash=0, ret=0, intact=1, nsolpre=0, dt=dbl(0), dtpre=dbl(0), dtpol=dbl(0), failed=0, live=0, handles=0, badfree=0, overrun=0, hok=1,
             appsigs=0, have=0, hasst=False, st={}, hasinfo=False, info={}, hassol=False, sol={}, out=parse_out(""), aux={}, cg=[], rl=[])
CGCAP = 230      # solves with more linear solves are not followed

def ev_rec(e, a):
    r = dict(BLANK)
    for k in ("ret", "intact", "nsolpre", "failed", "live", "handles", "badfree", "overrun", "hok", "appsigs", "have"): r[k] = e[k]
    for k in ("dt", "dtpre", "dtpol"): r[k] = SECS(e[k])
    if e.get("settings"): r.update(hasst=True, st=st_of(e["settings"]))
    if e.get("info"): r.update(hasinfo=True, info=info_of(e["info"]))
    if e.get("sol"): r.update(hassol=True, sol=sol_of(e["sol"]))
    r["out"] = parse_out(e["out"])
    if len(e.get("cg", [])) == e["nsol"] and e["nsol"] <= CGCAP:
        r["cg"] = [dict({k: g[k] for k in ("it", "rci", "mv", "pc")}, hasp=bool(g["hasp"]), xm=hx(g["xm"]), rmin=dbl(1e300) if g["rmin"] == "inf" else hx(g["rmin"]), **{k: hv(g[k]) for k in ("x", "pre", "post")}) for g in e.get("cg", [])]
    r["rl"] = [dict(k=k, v=hx(v)) for k, v in e.get("rl", [])]
    if a:
        k = a["aux"]
        if k == "got": r["aux"] = sol_of(a["got"])
        elif k == "dims": r["aux"] = dict(m=a["m"], n=a["n"])
        elif k == "uns": r["aux"] = dict(rets=a["rets"])
        elif k == "errmsg": r["aux"] = dict(null=a["null"], msg=a["msg"])
        elif k == "intro": r["aux"] = dict(cap=a["cap"], ver=a["ver"], st=st_of(a["settings"]), st2=st_of(a["settings2"]), same=a["same"], cg=a["cg"])
        elif k == "csc":
            r["aux"] = dict(null=a["null"], m=a.get("m", 0), n=a.get("n", 0), nzmax=a.get("nzmax", 0), nz=a.get("nz", 0), p=a.get("p", []), ri=a.get("ri", []), x=hv(a.get("x", [])))
    return r

def observe(case, res):
    """the ndjson record of an executed case (aspects not filled in)"""
    ops, evs = [], list(res["ev"])
    aux = {a["i"]: a for a in res["aux"]}
    j = 0; dead = False
    for op in case["ops"]:
        o = op_rec(op)
        if op["op"] not in D.SILENT:
            if dead: break
            if j < len(evs): o["rec"] = ev_rec(evs[j], aux.get(evs[j]["i"])); j += 1
            else: o["rec"] = dict(BLANK, crash=res["sig"] or 1); dead = True
        ops.append(o)
    return dict(id=case["id"], asp=case.get("asp", []), probs=[prob_rec(p) for p in case["probs"]], ops=ops)

def twin(obs, ref, pairs, ignore=(), near=None):
    """ops of obs must agree with ops of ref (exactly, or up to `near` where set): pairs of indices into the ops lists"""
    for a, b in pairs:
        if a >= len(obs["ops"]) or b >= len(ref["ops"]): continue
        r = ref["ops"][b].get("rec")
        if r is None or "rec" not in obs["ops"][a]: continue
        obs["ops"][a]["tw"] = dict(has=True, near=near is not None, tol=dbl(near or 0), ret=r["ret"], hassol=r["hassol"], sol=r["sol"], hasinfo=r["hasinfo"], info=r["info"], ignore=list(ignore))

# ------------------------------------------------------------------------------------------------ TLC
def compile_java():
    os.makedirs(CLASSES, exist_ok=True)
    src = [os.path.join(SPEC, f) for f in ("Num.java", "Vec.java")]
    stamp = os.path.join(CLASSES, "stamp")
    import hashlib
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h: return
    D._run(["javac", "-cp", JARS.split(":")[0], "-d", CLASSES] + src)
    open(stamp, "w").write(h)

MSG = re.compile(r'^<<"(MISMATCH|ACCEPT)", "([^"]*)"(?:, (.*))?>>$')
def _tlc(obs, timeout, cfg, module, keep=None):
    d = tempfile.mkdtemp(prefix="osqptlc-")
    try:
        f = os.path.join(d, "cases.ndjson")
        with open(f, "w") as fh:
            for o in obs: fh.write(json.dumps(o) + "\n")
        for x in os.listdir(SPEC):
            if x.endswith((".tla", ".cfg")): shutil.copy(os.path.join(SPEC, x), d)
        p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", "-cp", CLASSES + ":" + JARS, "tlc2.TLC", "-workers", "1", "-metadir", d + "/m",
                            "-noGenerateSpecTE", "-config", cfg, module], cwd=d, env=dict(os.environ, CASES=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        txt = p.stdout
        if keep: open(keep, "w").write(txt)
        if "Model checking completed. No error has been found." not in txt:
            raise D.ToolError("TLC failed:\n" + txt[-3500:])
        m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
        return txt, (int(m[1]), int(m[2])) if m else (0, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def joined(txt):
    """TLC wraps long tuples over several lines"""
    out, cur = [], None
    for ln in txt.split("\n"):
        if cur is None:
            if ln.startswith('<<"') or ln.startswith('<< "'):
                cur = ln
            else: continue
        else: cur += " " + ln.strip()
        if cur.count("<<") == cur.count(">>") or len(cur) > 20000:
            out.append(cur); cur = None
    return out

def judge(obs, jobs=8, timeout=1500, cfg="OsqpTrace.cfg", module="OsqpTrace.tla", keep=None):
    """-> ({case id: None (accepted) | [mismatch texts]}, (states, distinct, solves whose iterates were not predicted))"""
    obs = list(obs)
    if not obs: return {}, (0, 0, 0)
    jobs = max(1, min(jobs, len(obs)))
    # balance by the amount of work
    w = sorted(obs, key=lambda o: -sum(10 + (o2["rec"]["nsolpre"] if "rec" in o2 else 0) for o2 in o["ops"]))
    sh = [w[k::jobs] for k in range(jobs)]
    res = {o["id"]: [] for o in obs}; acc = set(); fuzzy = set(); st = [0, 0]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for txt, s in ex.map(lambda a: _tlc(a[1], timeout, cfg, module, keep and "%s.%d" % (keep, a[0])), list(enumerate(sh))):
            st[0] += s[0]; st[1] += s[1]
            for ln in joined(txt):
                m = re.match(r'^<<\s*"(MISMATCH|ACCEPT|FUZZY)",\s*"([^"]*)"(.*)>>$', ln)
                if not m: continue
                if m[1] == "ACCEPT": acc.add(m[2])
                elif m[1] == "FUZZY": fuzzy.add((m[2], m[3]))
                else: res[m[2]].append(m[3].lstrip(", "))
    return {k: None if k in acc else (v or ["no behaviour of the specification reaches the end of the history"]) for k, v in res.items()}, tuple(st) + (len(fuzzy),)
