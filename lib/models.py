"""Exhaustive TLC runs of the abstract specifications (OsqpControl, OsqpHist, OsqpScen): model checking, and the export of
behaviours that lib/fam.py replays on the library."""
import hashlib, os, re, shutil, subprocess, tempfile, time
import osqpdrv as D, trace as T

def tset(v): return "{%s}" % ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in v)
def tlc(module, consts, invs=(), props=(), workers=8, timeout=850, files={}):
    cfg = "SPECIFICATION Spec\n" + ("CONSTANTS\n" if consts else "") + "".join("  %s %s\n" % (k, v if v.startswith("<-") else "= " + v) for k, v in consts.items())
    if invs: cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props: cfg += "PROPERTIES " + " ".join(props) + "\n"
    cfg += "CHECK_DEADLOCK FALSE\n"
    d = tempfile.mkdtemp(prefix="osqptlc-")
    try:
        for x in os.listdir(T.SPEC):
            if x.endswith(".tla"): shutil.copy(os.path.join(T.SPEC, x), d)
        for k, v in files.items(): open(os.path.join(d, k), "w").write(v)
        open(d + "/m.cfg", "w").write(cfg); t0 = time.time()
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", T.CLASSES + ":" + T.JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/m", "-noGenerateSpecTE",
                            "-config", "m.cfg", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if "Model checking completed. No error has been found." not in p.stdout:
            raise D.ToolError("the specification %s violates its own invariants:\n%s" % (module, p.stdout[-3500:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
        return p.stdout, dict(module=module, states=int(m[2]), transitions=int(m[1]), invariants=list(invs) + list(props), constants=consts, wall_s=round(time.time() - t0, 1))
    finally: shutil.rmtree(d, ignore_errors=True)

def control(*invs):
    """OsqpControl: every outcome of every test, clock and signal in one solve"""
    def run(tier):
        c = dict(PrintEvery="<- Three", SetupTime="0")
        if tier == "quick": c.update(MaxIters="{1, 2, 3}", Cts="{0, 1, 2}", Modes="{0, 1, 2, 3}", Intervals="{0, 1, 2}", Limits="{2, 99}")
        else: c.update(MaxIters="{1, 2, 3, 4, 5}", Cts="{0, 1, 2, 3}", Modes="{0, 1, 2, 3}", Intervals="{0, 1, 2, 3}", Limits="{2, 4, 99}")
        return tlc("OsqpControl", c, ["TypeOK"] + [i for i in invs if i != "C05_Ends"], [i for i in invs if i == "C05_Ends"])[1]
    return run
ALL = ["setup", "setup_bad", "vec_opt", "vec_pinf", "vec_dinf", "mat", "vec_bad", "mat_bad", "rho", "rho_bad", "set_pol", "set_nopol", "set_warm", "set_cold", "set_bad", "warm", "cold", "solve", "solve_max", "solve_time", "solve_sig", "get", "cleanup"]
CORE = ["setup", "setup_bad", "vec_opt", "vec_bad", "rho", "rho_bad", "set_pol", "set_nopol", "warm", "cold", "solve", "solve_sig", "get", "cleanup", "set_bad"]
def hist(*names):
    """OsqpHist: every short history of calls with every outcome of its solves"""
    def run(tier):
        props = [x for x in names if x in ("C08_Rejected", "C10_Get")]
        c = dict(Drive="FALSE", Times="{0, 1}")
        if tier == "quick": c.update(Depth="5", Ops=tset(ALL))
        else: c.update(Depth="7", Ops=tset(ALL))
        return tlc("OsqpHist", c, [x for x in names if x not in props], props)[1]
    return run

def exported(module, consts, pattern, invs=()):
    """lines printed by an export run, cached by the text of the specification"""
    T.compile_java()
    h = hashlib.sha256(repr((module, sorted(consts.items()))).encode() + b"".join(open(os.path.join(T.SPEC, f), "rb").read() for f in sorted(os.listdir(T.SPEC)) if f in (module + ".tla", "OsqpLoop.tla", "OsqpApi.tla"))).hexdigest()[:16]
    f = os.path.join(D.CACHE, "export-%s-%s.txt" % (module, h))
    if not os.path.exists(f):
        txt, _ = tlc(module, consts, invs, workers=1 if invs else 4)
        with open(f + ".tmp%d" % os.getpid(), "w") as o:
            for ln in T.joined(txt):
                if ln.startswith('<<"' + pattern): o.write(re.sub(r"\s+", " ", ln) + "\n")
        os.replace(f + ".tmp%d" % os.getpid(), f)
    return open(f).read().splitlines()
def scenarios():
    out = []
    for ln in exported("OsqpScen", dict(MaxIters="{1, 2, 3, 4, 5}", Cts="{0, 1, 2, 3}", Ks="{1, 2, 3, 4, 5, 7, 12}"), "SCEN"):
        m = re.match(r'<<"SCEN", (\d+), (\d+), (\d+), (\d+), (\d+), (\d+), (\d+), (TRUE|FALSE), (TRUE|FALSE), "(\w+)", (TRUE|FALSE), (\d+), "(.*)">>', ln)
        v = [int(m[k]) for k in range(1, 8)]
        out.append(dict(zip(["mi", "ct", "k", "mode", "iv", "sig", "late"], v), verb=m[8] == "TRUE", pol=m[9] == "TRUE", status=m[10], inac=m[11] == "TRUE", iters=int(m[12]), sg=m[13]))
    return sorted(out, key=lambda x: (x["sg"], sorted(x.items(), key=str).__repr__()))
def histories(depth=4):
    out = []
    for ln in exported("OsqpHist", dict(Drive="TRUE", Times="{0}", Depth=str(depth), Ops=tset(ALL)), "HIST", ["Export"]):
        m = re.match(r'<<"HIST", <<(.*?)>>, (\d+), "(\w+)", (-?\d+)>>', ln)
        out.append((tuple(x.strip().strip('"') for x in m[1].split(",")), int(m[2]), m[3]))
    return sorted(set(out))

def vectest():
    """VecTest: the accelerated operators against their definitions, the numbers against Python's (IEEE, C printf) results"""
    def run(tier):
        import math, random
        rr = random.Random(5); rows = []
        V = [0.0, 1.0, -1.0, .1, -2.5, 1e30, -1e30, 1e-300, 3.0, 1 / 3, 123456.789, 4e15 + 1, -7e-8, 9.995, .5, 1.5, 2.5, 1e-17] + [rr.gauss(0, 1) * 10.0 ** rr.randint(-12, 12) for _ in range(14 if tier == "quick" else 60)]
        L = lambda v: 'FLit("%s")' % float(v).hex()
        for a in V:
            for b in V if tier != "quick" else rr.sample(V, 8):
                rows += ["FEq(FAdd(%s, %s), %s)" % (L(a), L(b), L(a + b)), "FEq(FSub(%s, %s), %s)" % (L(a), L(b), L(a - b)), "FEq(FMul(%s, %s), %s)" % (L(a), L(b), L(a * b)),
                         "FEq(FMax(%s, %s), %s)" % (L(a), L(b), L(max(a, b))), "FEq(FMin(%s, %s), %s)" % (L(a), L(b), L(min(a, b))), "FLt(%s, %s) = %s" % (L(a), L(b), str(a < b).upper()), "FLe(%s, %s) = %s" % (L(a), L(b), str(a <= b).upper())]
                if b: rows.append("FEq(FDiv(%s, %s), %s)" % (L(a), L(b), L(a / b)))
            rows += ["FEq(FNeg(%s), %s)" % (L(a), L(-a)), "FEq(FAbs(%s), %s)" % (L(a), L(abs(a))), "FEq(FSqrt(%s), %s)" % (L(abs(a)), L(math.sqrt(abs(a))))]
            rows += ['FFmt("%s", %s) = "%s"' % (f, L(a), f % a) for f in ("%.4f", "%.2e", "%.1e", "%.3e", "%.6f") if not (f.endswith("f") and abs(a) > 1e20) and not (a < 0 and float(f % a) == 0)]   # FFmt drops the sign of a printed zero, the records do too
            if abs(a) < 2e9: rows.append("FFloor(%s) = %d" % (L(a), math.floor(a)))
        rows = [x for x in rows if "0x" in x and "inf" not in x.replace("FInf", "")]
        parts = [rows[i:i + 60] for i in range(0, len(rows), 60)]
        mod = "---- MODULE NumCases ----\nEXTENDS Num\n" + "".join("N%d ==\n%s\n" % (i, "\n".join("  /\\ " + x for x in p)) for i, p in enumerate(parts)) + "NumCasesHold == " + " /\\ ".join("N%d" % i for i in range(len(parts))) + "\n====\n"
        v = open(os.path.join(T.SPEC, "Vec.tla")).read().replace("MODULE Vec ", "MODULE VecDef ")
        i = v.index("LinSolve(K, b) =="); j = v.index("\n", i)
        v = v[:i] + "V == INSTANCE Vec\nLinSolve(K, b) == V!LinSolve(K, b)" + v[j:]
        o, d = tlc("VecTest", {}, ["VecOps", "MatOps", "Systems", "Numbers"], files={"VecDef.tla": v, "NumCases.tla": mod})
        d["numbers"] = len(rows); return d
    return run
