"""Scenario families: for each property, the cases executed on the library and judged by the specification.
Every family is a function (r, scale) -> list of cases; a case may carry links to twin cases:
  case["links"] = [(reference case id, [(op index, reference op index)..], fields of info not compared, tolerance or None)]"""
import itertools
import osqpdrv as D
import gen as G
import models as M
from gen import num, INF, SEC

def nn(scale, k): return max(1, int(k * scale))
CL = dict(op="cleanup")
SOLVE = dict(op="solve")
def case(cid, probs, *ops): return dict(id=cid, probs=[G.copyp(p) for p in probs], ops=list(ops))
def mix(w, **kw): return {**{k: 0 for k in G.W}, **w, **kw}

# ------------------------------------------------------------------------------------------------ C01
GRID = dict(linsys_solver=[-1, 0, 1, 2, 3], allocate_solution=[-1, 0, 1, 2], verbose=[-1, 0, 1, 2], profiler_level=[-1, 0, 1, 2, 3], warm_starting=[-1, 0, 1, 2],
            scaling=[-1, 0, 1, 10], polishing=[-1, 0, 1, 2], rho=[-1.0, -1e-9, 0.0, 1e-9, .1, 1e9], rho_is_vec=[-1, 0, 1, 2], sigma=[-1.0, -1e-12, 0.0, 1e-9, 1.0],
            alpha=[-1.0, -1e-9, 0.0, 1e-6, 1.0, 1.999999, 2.0, 2.000001, 3.0], cg_max_iter=[-1, 0, 1, 20], cg_tol_reduction=[-1, 0, 1, 10],
            cg_tol_fraction=[-.1, 0.0, 1e-6, .999, 1.0, 1.5], cg_precond=[0, 1], adaptive_rho=[-1, 0, 1, 2, 3, 4, 5], adaptive_rho_interval=[-1, 0, 1, 50],
            adaptive_rho_fraction=[-1.0, 0.0, 1e-9, .4, 3.0], adaptive_rho_tolerance=[-5.0, 0.0, .5, .999999, 1.0, 1.000001, 5.0], max_iter=[-1, 0, 1, 20],
            eps_abs=[-1.0, -1e-12, 0.0, 1e-12, 1e-3], eps_rel=[-1.0, -1e-12, 0.0, 1e-12, 1e-3], eps_prim_inf=[-1.0, -1e-12, 0.0, 1e-12, 1e-4], eps_dual_inf=[-1.0, -1e-12, 0.0, 1e-12, 1e-4],
            scaled_termination=[-1, 0, 1, 2], check_termination=[-1, 0, 1, 25], check_dualgap=[-1, 0, 1, 2], time_limit=[-1.0, 0.0, 1e-9, 1e10, float("inf")], delta=[-1.0, -1e-12, 0.0, 1e-12, 1e-6],
            polish_refine_iter=[-1, 0, 1, 3])
def base_probs(r):
    return [G.bounded_qp(r, 2, 2, keep=False), G.bounded_qp(r, 1, 0, keep=False), G.bounded_qp(r, 3, 1, keep=False)]
def setup_ranges(r, scale):
    C = []; P = base_probs(r)
    b = dict(verbose=0, max_iter=20)
    for f in sorted(GRID):
        for v in GRID[f]:
            p = r.choice(P)
            C.append(case("rng-%s-%s" % (f, v), [p], dict(op="setup", set={**b, f: v}), SOLVE, CL))
    for ea, er in itertools.product([0.0, 1e-9, 1e-3], [0.0, 1e-9, 1e-3]):
        C.append(case("rng-eps-%g-%g" % (ea, er), [r.choice(P)], dict(op="setup", set=dict(b, eps_abs=ea, eps_rel=er)), SOLVE, CL))
    C.append(case("rng-null", [P[0]], dict(op="setup", set={"NULL": 1}), SOLVE, CL, dict(op="setup", set=b), SOLVE, CL))
    for k in range(nn(scale, 120)):
        s = {f: r.choice(GRID[f]) for f in r.sample(sorted(GRID), r.choice([2, 3, 4, 8]))}
        if r.random() < .6:
            for f in list(s):
                if bad1(f, s[f]): s[f] = r.choice([v for v in GRID[f] if not bad1(f, v)])
            if s.get("eps_abs") == 0.0 and s.get("eps_rel") == 0.0: s["eps_rel"] = 1e-3
        s = dict({"verbose": 0, "max_iter": r.choice([1, 20, 40])}, **s)
        C.append(case("cmb-%d" % k, [r.choice(P)], dict(op="setup", set=s), dict(SOLVE), dict(op="get_solution"), CL))
    return C
LO = dict(rho=0, sigma=0, alpha=0, cg_tol_fraction=0, adaptive_rho_fraction=0, eps_prim_inf=0, eps_dual_inf=0, time_limit=0, delta=0)
def bad1(f, v):
    """a value the generator regards as out of range (only used to steer towards accepted combinations)"""
    if f in LO: return v <= 0 or (f == "alpha" and v >= 2) or (f == "cg_tol_fraction" and v >= 1)
    if f == "adaptive_rho_tolerance": return v < 1
    if f in ("eps_abs", "eps_rel"): return v < 0
    if f in ("max_iter", "cg_max_iter", "cg_tol_reduction"): return v < 1
    if f == "linsys_solver": return v not in (1, 2)
    if f == "adaptive_rho": return v not in range(4)
    if f == "profiler_level": return v not in range(3)
    if f in ("scaling", "adaptive_rho_interval", "check_termination", "polish_refine_iter"): return v < 0
    return v not in (0, 1)
def setup_problems(r, scale):
    C = []; b = dict(verbose=0, max_iter=15)
    def go(tag, p, **mod):
        q = G.copyp(p); q["mod"] = mod
        C.append(case("prb-" + tag, [q, p], dict(op="setup", set=b), SOLVE, CL, dict(op="setup", set=b, p=1), SOLVE, CL))
    for k, p in enumerate(base_probs(r)):
        for f in ("nullP", "nullA", "nullq", "nulll", "nullu"): go("%s-%d" % (f, k), p, **{f: 1})
        go("nulllu-%d" % k, p, nulll=1, nullu=1)
        for f, v0 in (("n", p["n"]), ("m", p["m"]), ("Pm", p["n"]), ("Pn", p["n"]), ("Am", p["m"]), ("An", p["n"])):
            for d in (-1, 0) + ((1,) if f not in ("n", "m") else ()): go("%s%+d-%d" % (f, d, k), p, **{f: v0 + d})
        go("n0-%d" % k, p, n=0); go("nneg-%d" % k, p, n=-1); go("mneg-%d" % k, p, m=-1)
    for k in range(nn(scale, 40)):        # crossed bounds at any place, by any amount
        p = G.qp(r, r.choice([1, 2, 4]), r.choice([1, 2, 3, 5]), keep=False)
        i = r.randrange(p["m"]); w = r.choice(["tiny", "half", "inf", "eq", "ok"])
        a = num(r)
        p["l"][i], p["u"][i] = {"tiny": (a + abs(a) * 1e-12 + 1e-300, a), "half": (a + .5, a), "inf": (INF, -INF), "eq": (a, a), "ok": (a - .1, a)}[w]
        go("bnd-%s-%d" % (w, k), p)
    for k in range(nn(scale, 20)):        # an entry below the diagonal of P
        p = G.bounded_qp(r, r.choice([2, 3, 4]), r.choice([0, 1, 2]), keep=False); n = p["n"]
        Dn = G.dense(p, "P"); j = r.randrange(n - 1); i = r.randrange(j + 1, n)
        Pp, Pi, Px = [0], [], []
        for c in range(n):
            col = [rr for rr in range(n) if rr == c or (rr, c) == (i, j) or (rr < c and r.random() < .5)]
            if c == j and k % 2: r.shuffle(col)          # the offending entry need not be the last of its column
            for rr in col: Pi.append(rr); Px.append(Dn[rr][c] or 0.01)
            Pp.append(len(Pi))
        q = dict(G.copyp(p), Pp=Pp, Pi=Pi, Px=Px)
        go("low-%d" % k, q)
    for k in range(nn(scale, 40)):        # well-formed ones of every shape
        p = G.qp(r, r.choice([1, 2, 3, 5, 8]), r.choice([0, 0, 1, 3, 9]), keep=True, dens=r.choice([0.0001, .3, 1.0]), rank=r.choice([0, 1, 3]))
        go("ok-%d" % k, p)
    return C

# ------------------------------------------------------------------------------------------------ histories
def hist(tag, N, w=G.W, opt=None, prob=None, set_=None, length=None, clock=None, post=(), pick=.5):
    """random histories; opt overrides the pools of setting values, set_ fixes settings"""
    def f(r, scale):
        o = dict(G.OPT, **(opt or {})); C = []
        for k in range(nn(scale, N)):
            p = prob(r) if prob else None
            s = {key: r.choice(v) for key, v in o.items() if r.random() < pick}
            s.setdefault("max_iter", r.choice(o["max_iter"])); s.setdefault("verbose", r.choice(o["verbose"])); s.update(set_(r) if set_ else {})
            if s.get("eps_abs") == 0.0 and s.get("eps_rel") == 0.0: s["eps_rel"] = 1e-3
            C.append(G.history(r, "%s%d" % (tag, k), p=p, length=length(r) if length else None, w=w, set_=s, opt=o, clock=clock(r) if clock else None, post=post(r) if callable(post) else post))
        return C
    return f

# solves of one problem after another through vector updates, tolerances of all kinds
tight = dict(eps_abs=[1e-3, 1e-2, 1e-5, 1e-6, 1e-1, 0.0], eps_rel=[1e-3, 1e-2, 1e-6, 0.0, 1e-1], max_iter=[50, 100, 150, 25, 33])
verdicts = hist("v", 420, mix(dict(solve=6, update_vec=3, update_mat=1, warm=.5, update_settings=2, get=1, bad_vec=.5)), tight)
def mid_solve(r): return G.bounded_qp(r, r.choice([1, 2, 3]), r.choice([1, 2, 3]))
inaccurate = hist("ia", 130, mix(dict(solve=6, update_vec=2, update_settings=2, get=1)), dict(tight, max_iter=[4, 6, 8, 11, 14, 17, 20], check_termination=[0, 7, 3, 50, 25], eps_abs=[1e-2, 1e-1, 1e-3], eps_rel=[1e-2, 1e-1, 1e-3]), prob=mid_solve)
infeas = hist("inf", 330, mix(dict(solve=6, update_vec=1, update_mat=.6, warm=1, update_settings=1, get=2, cold=.5)), dict(max_iter=[60, 100, 150, 25, 12], scaled_termination=[0, 0, 1], adaptive_rho=[0, 0, 1]),
              prob=lambda r: G.any_prob(r, (1, 0, 5, 5)))
infeas_short = hist("ifs", 120, mix(dict(solve=6, update_vec=1, warm=1, update_settings=1, get=2)), dict(max_iter=[3, 5, 8, 12], check_termination=[0, 25, 4], eps_prim_inf=[1e-3, 1e-2, 1e-1], eps_dual_inf=[1e-3, 1e-2, 1e-1]),
              prob=lambda r: G.any_prob(r, (0, 0, 5, 5)))
feas_limits = hist("fl", 100, mix(dict(solve=6, update_vec=3, update_mat=1)), dict(eps_prim_inf=[1e-4, 1e-3, 1e-2], eps_dual_inf=[1e-4, 1e-3, 1e-2]), prob=lambda r: G.bounded_qp(r, kinds=["eq", "box", "lo", "up"]))
infos = hist("in", 380, mix(dict(solve=6, update_vec=2, update_mat=1, warm=1, update_settings=2, get=2)), dict(polishing=[0, 1], max_iter=[1, 2, 5, 9, 24, 25, 26, 50, 75]))

def schedule(r, scale):
    """every (check_termination, max_iter) pair around each other, repeated solves"""
    C = []
    for k, (ct, mi) in enumerate(itertools.product([0, 1, 2, 3, 5, 7, 10, 25], [1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 24, 25, 26, 50])):
        for j in range(nn(scale, 1)):
            p = G.any_prob(r, (5, 1, 1, 1))
            s = G.settings(r, .25, check_termination=ct, max_iter=mi, verbose=r.choice([0, 0, 1]), eps_abs=r.choice([1e-3, 1e-2, 1e-1, 1e-6]), eps_rel=r.choice([1e-3, 1e-2, 1e-1]))
            mid = [G.u_vec(r, p2 := G.copyp(p))] if r.random() < .5 else [dict(op="update_settings", set=dict(check_termination=r.choice([0, 1, 3, 5]), max_iter=r.choice([mi, mi + 1, 12])))] if r.random() < .6 else []
            C.append(case("sch-%d-%d" % (k, j), [p], dict(op="setup", set=s), SOLVE, *mid, SOLVE, SOLVE, CL))
    return C
def schedule_time(r, scale):
    """the schedule must not depend on the clock, on adaptation or on printing"""
    C = []
    for k in range(nn(scale, 60)):
        p = G.any_prob(r, (5, 1, 1, 1)); ct, mi = r.choice([0, 1, 3, 7, 25]), r.choice([1, 8, 20, 40])
        s = G.settings(r, .3, check_termination=ct, max_iter=mi, adaptive_rho=r.choice([0, 1, 2, 3]), adaptive_rho_interval=r.choice([0, 1, 4, 6]), time_limit=r.choice([1e10, 9.0, 17.0, 30.0]), verbose=r.choice([0, 1]))
        C.append(case("scht%d" % k, [p], dict(op="clock", sym=SEC, fac=SEC * r.choice([0, 1]), iter=SEC), dict(op="setup", set=s), SOLVE, SOLVE, G.u_vec(r, G.copyp(p)), SOLVE, CL))
    return C

def recursion(r, scale):
    """points after k iterations from given starts, all step-size parameters, no early stop"""
    C = []
    for k in range(nn(scale, 420)):
        p = G.any_prob(r, (6, 2, 1, 1)); p0 = G.copyp(p)
        K = r.choice([1, 1, 2, 3, 5, 10, 17, 40])
        s = G.settings(r, .7, check_termination=0, max_iter=K, adaptive_rho=r.choice([0, 0, 0, 1, 3]), eps_abs=1e-9, eps_rel=0.0, polishing=0, rho=r.choice([.1, .1, 1.0, 3.0, .01, 1e-7, 1e-6, 1e7, 1e6, 10.0, .5]), allocate_solution=1)
        s["eps_prim_inf"] = s["eps_dual_inf"] = 1e-12
        ops = [dict(op="setup", set=s)]
        for _ in range(r.choice([1, 2, 3, 4])):
            w = r.choice("wwcnrvsm")
            if w == "w": ops.append(G.warm(r, p))
            elif w == "c": ops.append(dict(op="cold"))
            elif w == "r": ops.append(dict(op="update_rho", rho=r.choice([.1, 1.0, 7.0, 1e-8, 1e8, .02])))
            elif w == "v": ops.append(G.u_vec(r, p))
            elif w == "m": ops.append(G.u_mat(r, p))
            elif w == "s": ops.append(dict(op="update_settings", set=dict(alpha=r.choice([.3, 1.0, 1.6, 1.95]), max_iter=r.choice([1, 2, 3, 8, 20]))))
            ops.append(dict(SOLVE))
        C.append(dict(id="rec%d" % k, probs=[p0], ops=ops + [CL]))
    return C

# ------------------------------------------------------------------------------------------------ C07
adapt = hist("ad", 330, mix(dict(solve=6, update_vec=2, update_mat=1, update_rho=2, bad_rho=.5, warm=.5, update_settings=1, cold=.5)),
             dict(adaptive_rho=[1, 1, 1, 3, 3, 0], adaptive_rho_interval=[0, 1, 2, 5, 7, 10, 25, 30, 50], adaptive_rho_tolerance=[1.0, 1.1, 1.5, 2.0, 5.0, 20.0], adaptive_rho_fraction=[.1, .4, 1.0, 2.0, 10.0],
                  rho=[.1, .01, 1.0, 10.0, 1e-3, 100.0, 1e-7, 1e7], max_iter=[20, 50, 75, 110, 31], eps_abs=[1e-5, 1e-6, 1e-3], eps_rel=[1e-5, 1e-6, 1e-3], check_termination=[25, 10, 7, 0, 1, 40], verbose=[0, 0, 1]), pick=.7)
def adapt_time(r, scale):
    """time-based adaptation under controlled clocks"""
    C = []
    for k in range(nn(scale, 130)):
        p = G.any_prob(r, (6, 1, 1, 1)); p0 = G.copyp(p)
        ct = r.choice([25, 10, 1, 7, 0, 4])
        s = G.settings(r, .5, adaptive_rho=2, adaptive_rho_interval=r.choice([0, 0, 0, 0, 6]), adaptive_rho_fraction=r.choice([.4, .5, 1.0, 2.0, 3.5]), check_termination=ct, max_iter=r.choice([20, 45, 60, 90]), eps_abs=1e-6, eps_rel=r.choice([1e-6, 1e-3]),
                       adaptive_rho_tolerance=r.choice([1.0, 1.5, 5.0]), rho=r.choice([.1, 1.0, .01, 10.0]), verbose=r.choice([0, 1]))
        sym, fac, it = r.choice([4, 8, 16, 30]), r.choice([0, 1, 2]), r.choice([1, 1, 2, 3, 0])
        ops = [dict(op="clock", sym=sym * SEC, fac=fac * SEC, iter=it * SEC), dict(op="setup", set=s)]
        for _ in range(r.choice([1, 2, 3])):
            ops.append(dict(SOLVE))
            if r.random() < .4: ops.append(G.u_vec(r, p))
            elif r.random() < .3: ops.append(dict(op="update_rho", rho=r.choice([.1, 2.0])))
        C.append(dict(id="adt%d" % k, probs=[p0], ops=ops + [CL]))
    return C
def rho_fresh(r, scale):
    """update_rho(r) on a solver = a solver set up with rho = r (started at the same point)"""
    C = []
    for k in range(nn(scale, 60)):
        p = G.any_prob(r, (6, 1, 1, 1)); rho = r.choice([.1, .02, 1.5, 30.0, 1e-9, 1e9])
        s = G.settings(r, .5, rho=r.choice([.1, 1.0, 5.0]), allocate_solution=1, max_iter=r.choice([5, 20, 60])); s2 = dict(s, rho=rho)
        w = dict(op="warm", x=[num(r) for _ in range(p["n"])], y=[num(r) for _ in range(p["m"])])
        pre = [dict(SOLVE)] if r.random() < .5 and s.get("adaptive_rho", 1) != 2 else []
        a = case("rf%d" % k, [p], dict(op="setup", set=s), *pre, dict(op="update_rho", rho=rho), w, dict(SOLVE), CL)
        b = case("rf%d_t" % k, [p], dict(op="setup", set=s2), w, dict(SOLVE), CL)
        if s.get("adaptive_rho", 1) == 3: a["ops"] = [o for o in a["ops"] if o is not (pre[0] if pre else None)]
        a["links"] = [(b["id"], [(len(a["ops"]) - 2, 2)], ["setup_time", "update_time", "run_time", "solve_time"], None)]
        C += [b, a]
    return C

# ------------------------------------------------------------------------------------------------ C08, C09
def fresh_twin(tag, N, upd, setw=None):
    """after updates the solver behaves as a freshly set up one with the new data (same start): judged by the specification,
    and, without scaling, also against the real fresh solver"""
    def f(r, scale):
        C = []
        for k in range(nn(scale, N)):
            p = G.any_prob(r, (6, 1, 1, 1)); p0 = G.copyp(p)
            s = G.settings(r, .5, scaling=0, allocate_solution=1, adaptive_rho=r.choice([0, 1]), max_iter=r.choice([3, 10, 40, 60]), **(setw(r) if setw else {}))
            w = dict(op="warm", x=[num(r) for _ in range(p["n"])], y=[num(r) for _ in range(p["m"])])
            ops = [dict(op="setup", set=s)]
            if r.random() < .5: ops.append(dict(SOLVE)); ops.append(dict(op="update_rho", rho=s.get("rho", .1)))
            for _ in range(r.choice([1, 1, 2, 3])): ops.append(upd(r, p))
            ops += [w, dict(SOLVE), CL]
            a = dict(id="%s%d" % (tag, k), probs=[p0], ops=ops)
            b = dict(id="%s%d_t" % (tag, k), probs=[G.copyp(p)], ops=[dict(op="setup", set=s), w, dict(SOLVE), CL])
            a["links"] = [(b["id"], [(len(ops) - 2, 2)], ["setup_time", "update_time", "run_time", "solve_time"], 1e-6)]
            C += [b, a]
        return C
    return f
vec_hist = hist("uv", 360, mix(dict(solve=5, update_vec=7, bad_vec=3, update_mat=.5, warm=.7, update_rho=.5, update_settings=.5, get=1.5, cold=.4)), dict(max_iter=[5, 20, 50, 75]), length=lambda r: r.randint(4, 12))
vec_inf = hist("uvi", 90, mix(dict(solve=5, update_vec=4, bad_vec=3, get=3, warm=.3)), dict(max_iter=[50, 75, 100]), prob=lambda r: G.any_prob(r, (1, 0, 4, 4)))
mat_hist = hist("um", 360, mix(dict(solve=5, update_mat=6, bad_mat=2, update_vec=1, warm=.7, update_rho=.5, update_settings=.5, get=1)), dict(max_iter=[3, 10, 30, 60], sigma=[1e-6, 1e-2, 1.0, .3]), prob=lambda r: G.qp(r), length=lambda r: r.randint(4, 12), pick=.6)
# larger sparse problems: more rows than columns and the other way round, stored zeros, missing diagonal entries
def big_prob(r):
    n, m = r.choice([(8, 15), (13, 5), (12, 12), (7, 22), (15, 0), (10, 9)])
    return G.qp(r, n, m, dens=r.choice([.15, .3, .6]), rank=r.choice([1, 3, n]), keep=True)
big_hist = hist("big", 24, mix(dict(solve=5, update_mat=4, bad_mat=.3, update_vec=2, warm=.7, update_rho=1, update_settings=.5, get=.5)), dict(max_iter=[3, 10, 26, 50], sigma=[1e-6, 1e-2, .3], linsys_solver=[1]), prob=big_prob, length=lambda r: r.randint(4, 8), pick=.6)
def mat_patterns(r, scale):
    """every kind of call (full, counted, indexed) on P with any missing diagonal entries, at a large sigma"""
    C = []
    for k in range(nn(scale, 110)):
        n = r.choice([1, 2, 3, 4]); p = G.qp(r, n, r.choice([0, 1, 2, 4]), keep=True, rank=r.choice([1, 2]), psup=[j for j in range(n) if r.random() < .6]); p0 = G.copyp(p)
        ops = [dict(op="setup", set=G.settings(r, .3, sigma=r.choice([.5, 1.0, 2.0]), check_termination=0, max_iter=r.choice([1, 2, 4]), allocate_solution=1))]
        for _ in range(r.choice([2, 3, 5])): ops += [G.u_mat(r, p)] + ([dict(SOLVE)] if r.random() < .7 else [])
        C.append(dict(id="mp%d" % k, probs=[p0], ops=ops + [dict(SOLVE), CL]))
    return C

# ------------------------------------------------------------------------------------------------ C10, C11
def set_updates(r, scale):
    C = []; P = [G.qp(r, 2, 2), G.qp(r, 3, 3), G.primal_infeasible(r), G.qp(r, 2, 0)]
    RUNF = ["verbose", "profiler_level", "warm_starting", "polishing", "alpha", "cg_max_iter", "cg_tol_reduction", "cg_tol_fraction", "cg_precond", "max_iter", "eps_abs", "eps_rel", "eps_prim_inf", "eps_dual_inf",
            "scaled_termination", "check_termination", "check_dualgap", "time_limit", "delta", "polish_refine_iter"]
    for f in sorted(GRID):                # every boundary, before and after a solve
        for v in GRID[f]:
            if f == "linsys_solver" and v not in (1, 2): continue
            C.append(case("us-%s-%s" % (f, v), [r.choice(P)], dict(op="setup", set=dict(verbose=0, max_iter=15)), *([dict(SOLVE)] if r.random() < .5 else []), dict(op="update_settings", set={f: v}), dict(SOLVE), CL))
    for k in range(nn(scale, 100)):       # a bad value among good ones changes nothing
        s = {f: r.choice([v for v in GRID[f] if not bad1(f, v)]) for f in r.sample(RUNF, r.choice([2, 4, 8]))}
        s["verbose"] = 0
        if r.random() < .6:
            f = r.choice([f for f in RUNF if any(bad1(f, v) for v in GRID[f]) and f != "cg_precond"]); s[f] = r.choice([v for v in GRID[f] if bad1(f, v)])
        C.append(case("usc%d" % k, [r.choice(P)], dict(op="setup", set=G.settings(r, .4, max_iter=20)), *([dict(SOLVE)] if r.random() < .6 else []), dict(op="update_settings", set=s), dict(SOLVE), dict(op="get_solution"), CL))
    return C
def set_twin(r, scale):
    """run-time settings given by update_settings act exactly as if they had been given to setup: both linear solvers, one or
    several calls (a rejected one among them), before the first solve or between solves started at the same point"""
    C = []
    for k in range(nn(scale, 120)):
        p = G.any_prob(r, (6, 1, 1, 1)); ind = r.random() < .5
        s0 = dict({f: r.choice([v for v in GRID[f] if not bad1(f, v)]) for f in r.sample(sorted(G.RUN), 4)}, **G.settings(r, .3, adaptive_rho=r.choice([0, 1]), allocate_solution=1, linsys_solver=2 if ind else 1))
        pool = dict(G.OPT, **CG) if ind else G.OPT
        s1 = {f: r.choice(pool[f]) for f in r.sample(sorted(G.RUN & set(pool)), r.choice([2, 4, 8]))}; s1["max_iter"] = r.choice([3, 10, 40, 60])
        for f in ("linsys_solver", "adaptive_rho"): s1.pop(f, None)
        s1.update(eps_abs=1e-4, eps_rel=1e-4, verbose=0)
        if ind and r.random() < .7: s1["cg_precond"] = r.choice([0, 1]); s0["cg_precond"] = 1 - s1["cg_precond"]
        if ind and r.random() < .7: s1["cg_max_iter"] = r.choice([1, 2, 5, 30]); s0["cg_max_iter"] = r.choice([1, 3, 20])
        if ind and r.random() < .7: s1["cg_tol_fraction"] = r.choice([.5, .01, .9]); s0["cg_tol_fraction"] = r.choice([.15, .99])
        if ind and r.random() < .5: s1["cg_tol_reduction"] = r.choice([1, 2, 5]); s0["cg_tol_reduction"] = r.choice([10, 1])
        s0["time_limit"] = 1e10; s1.pop("time_limit", None); s0["verbose"] = 0; s0["profiler_level"] = 0; s1.pop("profiler_level", None)
        if s0["adaptive_rho"] and not s0.get("adaptive_rho_interval"): s0["adaptive_rho_interval"] = r.choice([3, 7, 10])   # 0: chosen by setup from check_termination
        s1.pop("adaptive_rho_interval", None)
        full = {f: v for f, v in s0.items()}; full.update(s1)
        w = dict(op="warm", x=[num(r) for _ in range(p["n"])], y=[num(r) for _ in range(p["m"])])
        ops = [dict(op="setup", set=s0)]
        if not ind and s0["adaptive_rho"] == 0 and r.random() < .4: ops.append(dict(SOLVE))
        keys = sorted(s1); r.shuffle(keys); cut = r.choice([0, 0, len(keys) // 2])
        for part in ([keys] if not cut else [keys[:cut], keys[cut:]]):
            ops.append(dict(op="update_settings", set={f: s1[f] for f in part}))
            if r.random() < .3: ops.append(dict(op="update_settings", set=dict({f: r.choice(pool[f]) for f in r.sample(sorted(G.RUN & set(pool)), 2)}, **r.choice(G.BADRUN))))
        w2 = [dict(op="update_settings", set=dict(warm_starting=full.get("warm_starting", 1)))]   # a warm start switches it on
        ops += [w, *w2, dict(SOLVE), dict(SOLVE), CL]
        a = dict(id="st%d" % k, probs=[p], ops=ops)
        b = dict(id="st%d_t" % k, probs=[G.copyp(p)], ops=[dict(op="setup", set=full), w, *w2, dict(SOLVE), dict(SOLVE), CL])
        n = len(ops)
        a["links"] = [(b["id"], [(n - 3, 3), (n - 2, 4)], ["setup_time", "update_time", "run_time", "solve_time", "primdual_int"], None)]
        C += [b, a]
    return C
set_hist = hist("ush", 200, mix(dict(solve=6, update_settings=6, bad_settings=2, null_settings=.3, update_vec=1, warm=.5, get=.5)), dict(max_iter=[5, 20, 50]), length=lambda r: r.randint(4, 11))
warm_hist = hist("ws", 420, mix(dict(solve=6, warm=6, cold=2, update_vec=1, update_mat=1, update_settings=2, update_rho=.5, get=1)), dict(max_iter=[1, 2, 3, 5, 12, 30], warm_starting=[0, 1], check_termination=[0, 1, 5, 25]), length=lambda r: r.randint(4, 12))
warm_inf = hist("wsi", 120, mix(dict(solve=6, warm=3, cold=1, update_vec=3, get=1)), dict(max_iter=[20, 50, 75], check_termination=[1, 5, 10, 25]), prob=lambda r: G.any_prob(r, (1, 0, 4, 4)))

# ------------------------------------------------------------------------------------------------ C12
def bad_scaled(r):
    p = G.qp(r, bad=True); 
    if r.random() < .3:   # zero rows / columns
        A = G.dense(p, "A")
        if p["m"]: A[r.randrange(p["m"])] = [0.0] * p["n"]
        p = D.prob(G.dense(p, "P"), p["q"], A, [min(v, 0.0) for v in p["l"]], [max(v, 0.0) for v in p["u"]])
    return p
scal_hist = hist("sc", 340, mix(dict(solve=6, update_vec=2, update_mat=3, warm=2, get=1, update_settings=.7)), dict(scaling=[0, 1, 2, 3, 5, 10, 20, 30], max_iter=[1, 5, 20, 50], rho_is_vec=[1, 1, 0]), prob=bad_scaled, pick=.6, length=lambda r: r.randint(4, 11))
scal_inf = hist("sci", 60, mix(dict(solve=6, update_vec=1, get=2)), dict(scaling=[1, 2, 10, 10], scaled_termination=[0, 1]), prob=lambda r: G.any_prob(r, (0, 0, 4, 4)), pick=.7)
def scal_drift(r, scale):
    """many matrix updates in a row"""
    C = []
    for k in range(nn(scale, 25)):
        p = bad_scaled(r); p0 = G.copyp(p)
        ops = [dict(op="setup", set=G.settings(r, .3, scaling=r.choice([1, 10]), max_iter=r.choice([3, 10]), check_termination=0, allocate_solution=1))]
        for j in range(r.choice([12, 25, 40])): ops += [G.u_mat(r, p)] + ([dict(SOLVE)] if j % 8 == 7 else [])
        C.append(dict(id="drift%d" % k, probs=[p0], ops=ops + [dict(SOLVE), CL]))
    return C

# ------------------------------------------------------------------------------------------------ C13
def pol_prob(r):
    return G.bounded_qp(r, r.choice([1, 2, 3, 4]), r.choice([0, 1, 2, 3, 5]), kinds=r.choice([["box"], ["eq"], ["lo", "up"], ["box", "eq", "lo", "up"], ["free"], G.KINDS])) if r.random() < .8 else G.qp(r)
pol_hist = hist("po", 420, mix(dict(solve=6, update_vec=3, update_mat=1, update_settings=2, warm=1, get=1.5, cold=.5)), dict(polishing=[1, 1, 1, 0], max_iter=[50, 100, 150, 60], eps_abs=[1e-3, 1e-2, 1e-1, 1e-5], eps_rel=[1e-3, 1e-2, 1e-1, 1e-5],
                delta=[1e-6, 1e-4, 1e-8, 1e-2, 1e-9], polish_refine_iter=[0, 1, 3, 5, 10], check_termination=[25, 10, 1, 5], verbose=[0, 0, 1]), prob=pol_prob, set_=lambda r: dict(polishing=r.choice([1, 1, 1, 0])))
# coarse regularisation and little refinement: polished points that are worse in one of the residuals
pol_coarse = hist("pc", 150, mix(dict(solve=7, update_vec=3, update_settings=2, warm=1)), dict(polishing=[1], max_iter=[100, 200, 400], eps_abs=[1e-2, 1e-3, 1e-4, 1e-5], eps_rel=[1e-3, 1e-4, 1e-5, 0.0],
                delta=[1e-3, 1e-2, .1, 1.0, 10.0], polish_refine_iter=[0, 0, 1, 2], check_termination=[25, 10, 5], verbose=[0], rho=[.1, 1.0, .01, 10.0]),
                prob=lambda r: G.bounded_qp(r, r.choice([1, 2, 3]), r.choice([1, 2, 3]), kinds=r.choice([["box"], ["eq"], ["lo", "up"], ["box", "eq", "lo", "up"]])), set_=lambda r: dict(polishing=1), length=lambda r: r.randint(3, 7), pick=.8)

# ------------------------------------------------------------------------------------------------ C14, C16
# an ADMM point with a residual of nearly zero, met by a polished point with a large one
def exact_prob(r):
    n = r.choice([1, 1, 2]); p = G.bounded_qp(r, n, r.choice([1, 2]), kinds=["box", "lo", "up", "free"], keep=False)
    A = G.dense(p, "A") + [[0.0] * n if r.random() < .7 else [G.num(r) for _ in range(n)]]; b = 0.0
    return D.prob(G.dense(p, "P"), [v * r.choice([1, .01]) for v in p["q"]], A, [-1.0 - abs(v) if v > -1e20 else v for v in p["l"]] + [b], [1.0 + abs(v) if v < 1e20 else v for v in p["u"]] + [b])
pol_exact = hist("px", 60, mix(dict(solve=7, update_vec=2, warm=.5)), dict(polishing=[1], max_iter=[200, 400], eps_abs=[1e-3, 1e-4, 1e-6], eps_rel=[1e-3, 0.0], delta=[1e-2, 1.0, 10.0, 10.0], polish_refine_iter=[0, 0, 1, 2], check_termination=[25, 10, 5],
                verbose=[0], rho=[.1, .01, 1.0], alpha=[1.0, 1.0, 1.6], scaling=[0, 1, 10]), prob=exact_prob, set_=lambda r: dict(polishing=1), length=lambda r: r.randint(2, 5), pick=.9)

def time_limits(r, scale):
    C = []
    for k in range(nn(scale, 230)):
        p = G.any_prob(r, (6, 1, 1, 1)); p0 = G.copyp(p)
        sym, fac, it = r.choice([0, 1, 2]), r.choice([0, 0, 1]), r.choice([1, 1, 2, 0])
        s = G.settings(r, .35, time_limit=float(r.choice([1, 2, 3, 5, 8, 13, 20, 21, 40])), max_iter=r.choice([10, 25, 40, 60]), check_termination=r.choice([0, 1, 5, 25, 7]), eps_abs=r.choice([1e-3, 1e-6, 1e-1]), eps_rel=r.choice([1e-3, 1e-6, 1e-1]),
                       adaptive_rho=r.choice([0, 0, 1, 3]), verbose=r.choice([0, 0, 1]))
        ops = [dict(op="clock", sym=sym * SEC, fac=fac * SEC, iter=it * SEC), dict(op="setup", set=s)]
        for _ in range(r.choice([1, 2, 3, 4])):
            if r.random() < .4: ops.append(dict(op="iterlist", v=[SEC * r.choice([0, 0, 1, 1, 2, 5]) for _ in range(r.choice([3, 10, 30]))]))
            ops.append(dict(SOLVE))
            w = r.choice("vmrtn")
            if w == "v": ops.append(G.u_vec(r, p))
            elif w == "m": ops.append(G.u_mat(r, p))
            elif w == "r": ops.append(dict(op="update_rho", rho=r.choice([.1, .5])))
            elif w == "t": ops.append(dict(op="update_settings", set=dict(time_limit=float(r.choice([1, 4, 6, 11, 30])))))
        C.append(dict(id="tl%d" % k, probs=[p0], ops=ops + [dict(SOLVE), dict(op="get_solution"), CL]))
    return C
def time_exact(r, scale):
    """the limit one unit below, at and above every iteration boundary"""
    C = []
    for k, K in enumerate([1, 2, 3, 5, 9, 10, 11, 19, 20]):
        for d in (-1, 0, 1):
            for j in range(nn(scale, 2)):
                p = G.qp(r, r.choice([2, 3]), r.choice([1, 2, 3]), keep=False)
                s = G.settings(r, .2, time_limit=(2 * (K + 3) + d) / 2.0, check_termination=r.choice([0, 5, 10]), max_iter=30, eps_abs=1e-7, eps_rel=1e-7, adaptive_rho=0, verbose=r.choice([0, 1]))
                C.append(case("tx%d%+d-%d" % (K, d, j), [p], dict(op="clock", sym=2 * SEC, fac=SEC, iter=SEC), dict(op="setup", set=s), SOLVE, SOLVE, dict(op="update_rho", rho=.2), SOLVE, CL))
    return C
def time_unreached(r, scale):
    """a limit that is not reached has no influence"""
    C = []
    for k in range(nn(scale, 50)):
        p = G.any_prob(r, (6, 1, 1, 1)); s = G.settings(r, .5, max_iter=r.choice([10, 30, 50]), allocate_solution=1)
        if s.get("adaptive_rho") == 2: s["adaptive_rho"] = 1
        mid = [G.u_vec(r, G.copyp(p)), dict(SOLVE)]
        mk = lambda tl, cid: case(cid, [p], dict(op="clock", sym=SEC, fac=SEC, iter=SEC), dict(op="setup", set=dict(s, time_limit=tl)), dict(SOLVE), *mid, CL)
        a, b = mk(float(r.choice([200, 1000, 10 ** 6])), "tu%d" % k), mk(1e10, "tu%d_t" % k)
        a["links"] = [(b["id"], [(2, 2), (4, 4)], [], None)]
        C += [b, a]
    return C
timing = hist("tm", 330, mix(dict(solve=6, update_vec=3, bad_vec=.7, update_mat=2, bad_mat=.5, update_rho=2, bad_rho=.3, update_settings=1, warm=.5, cold=.3, get=.7)), dict(polishing=[0, 1, 1], max_iter=[5, 20, 50], time_limit=[1e10, 1e10, 10.0, 25.0], adaptive_rho=[0, 1, 1, 2, 3], verbose=[0, 0, 1]),
              clock=lambda r: dict(sym=SEC * r.choice([0, 1, 3, 7]), fac=SEC * r.choice([0, 1, 2, 5]), iter=SEC * r.choice([0, 1, 1, 4])), length=lambda r: r.randint(4, 12))
timing_ns = hist("tn", 60, mix(dict(solve=6, update_vec=3, update_mat=2, update_rho=1)), dict(polishing=[0, 1], max_iter=[5, 20], adaptive_rho=[0, 1]), clock=lambda r: dict(sym=r.randint(1, 10 ** 9), fac=r.randint(1, 10 ** 8), iter=r.randint(1, 10 ** 7)))
def timing_int(r, scale):
    """interrupted and limited solves between updates"""
    C = []
    for k in range(nn(scale, 90)):
        p = G.any_prob(r, (6, 1, 1, 1)); p0 = G.copyp(p)
        ops = [dict(op="clock", sym=2 * SEC, fac=SEC * r.choice([1, 3]), iter=SEC), dict(op="setup", set=G.settings(r, .4, max_iter=r.choice([10, 25, 40]), polishing=r.choice([0, 1]), adaptive_rho=r.choice([0, 1, 1]), time_limit=r.choice([1e10, 1e10, 12.0])))]
        for _ in range(r.randint(3, 7)):
            w = r.choice("svmrni")
            if w == "v": ops.append(G.u_vec(r, p))
            elif w == "m": ops.append(G.u_mat(r, p))
            elif w == "r": ops.append(dict(op="update_rho", rho=r.choice([.1, .5])))
            elif w == "i": ops += [dict(op="sigat", v=r.choice([1, 2, 6, 11])), dict(SOLVE)]
            else: ops.append(dict(SOLVE))
        C.append(dict(id="ti%d" % k, probs=[p0], ops=ops + [dict(SOLVE), CL]))
    return C

# ------------------------------------------------------------------------------------------------ C15
def interrupts(r, scale):
    C = []
    for K in list(range(1, 13)) + [24, 25, 26, 40]:      # every iteration of a short solve
        for j in range(nn(scale, 3)):
            p = G.any_prob(r, (6, 1, 1, 1))
            s = G.settings(r, .4, max_iter=r.choice([10, 12, 26, 50]), check_termination=r.choice([0, 1, 5, 25]), verbose=r.choice([0, 0, 1]), polishing=r.choice([0, 1]))
            C.append(case("sg%d-%d" % (K, j), [p], dict(op="setup", set=s), *([dict(SOLVE)] if r.random() < .3 else []), dict(op="sigat", v=K), dict(SOLVE), dict(op="get_solution"), dict(SOLVE), dict(op="sigint"), dict(SOLVE), CL))
    for k in range(nn(scale, 130)):                      # interrupted solves inside histories
        p = G.any_prob(r, (5, 1, 1, 1)); p0 = G.copyp(p)
        ops = [dict(op="setup", set=G.settings(r, .5, max_iter=r.choice([10, 30, 50]), verbose=r.choice([0, 0, 1]), polishing=r.choice([0, 0, 1]), warm_starting=r.choice([0, 1, 1])))]
        for _ in range(r.randint(3, 8)):
            w = r.random()
            if w < .4: ops.append(dict(op="sigat", v=r.choice([1, 1, 2, 3, 5, 10, 30]))); ops.append(dict(SOLVE))
            elif w < .5: ops.append(dict(op="sigint"))
            elif w < .6: ops += [dict(op="sigpol"), dict(SOLVE)]
            else: ops.append(G.step(r, p))
        C.append(dict(id="sh%d" % k, probs=[p0], ops=ops + [dict(SOLVE), dict(op="get_solution"), CL]))
    for k in range(nn(scale, 40)):                       # a signal during polishing must not leak into the next solve
        p = pol_prob(r)
        s = G.settings(r, .2, polishing=1, max_iter=100, eps_abs=1e-2, eps_rel=1e-2)
        C.append(case("sp%d" % k, [p], dict(op="setup", set=s), dict(op="sigpol"), dict(SOLVE), dict(SOLVE), dict(op="update_settings", set=dict(polishing=0)), dict(SOLVE), CL))
    return C

# ------------------------------------------------------------------------------------------------ C17
def isolation(r, scale):
    """two or three solvers interleaved; each must do what it does alone.  Caller memory is overwritten after setup."""
    C = []
    for k in range(nn(scale, 110)):
        ns = r.choice([2, 2, 3]); hs = []
        share = r.random() < .3
        p0 = G.any_prob(r, (5, 1, 1, 1))
        for s in range(ns):
            w = mix(dict(solve=5, update_vec=2, bad_vec=.5, update_mat=1.5, warm=1, cold=.5, update_rho=.7, update_settings=1.5, get=1))
            h = G.history(r, "x", p=p0 if share else G.any_prob(r, (5, 1, 1, 1)), length=r.randint(2, 6), w=w, opt=dict(G.OPT, max_iter=[3, 10, 30], polishing=[0, 1], verbose=[0, 0, 0, 1]))
            hs.append(h)
        probs = [h["probs"][0] for h in hs]
        for s, h in enumerate(hs):
            C.append(dict(id="is%d_%d" % (k, s), probs=[G.copyp(h["probs"][0])], ops=[dict(o, s=0) for o in h["ops"]]))
        ops, at, links = [], [0] * ns, {s: [] for s in range(ns)}
        while any(at[s] < len(hs[s]["ops"]) for s in range(ns)):
            s = r.choice([s for s in range(ns) if at[s] < len(hs[s]["ops"])])
            o = dict(hs[s]["ops"][at[s]], s=s)
            if o["op"] == "setup": o["p"] = s
            links[s].append((len(ops), at[s])); ops.append(o); at[s] += 1
            if o["op"] == "setup" and r.random() < .7: ops.append(dict(op="scribble", v=s))
        C.append(dict(id="is%d" % k, probs=[G.copyp(p) for p in probs], ops=ops, links=[("is%d_%d" % (k, s), links[s], [], None) for s in range(ns)]))
    return C
def determinism(r, scale):
    C = []
    for k in range(nn(scale, 70)):
        h = G.history(r, "dt%d_t" % k, opt=dict(G.OPT, polishing=[0, 1]))
        g = dict(h, id="dt%d" % k)
        # the second run: memory of the first one reused in the same process, other solvers have lived before
        q = G.qp(r); pre = [dict(op="setup", set=G.settings(r), s=1, p=1), dict(op="solve", s=1)] + ([dict(op="cleanup", s=1)] if r.random() < .6 else [])
        g["probs"] = [h["probs"][0], q]; g["ops"] = pre + [h["ops"][0], dict(op="scribble", v=0)] + h["ops"][1:] + ([dict(op="cleanup", s=1)] if len(pre) == 2 else [])
        n = len(pre)
        g["links"] = [(h["id"], [(n, 0)] + [(n + 1 + j, j) for j in range(1, len(h["ops"]))], [], None)]
        C += [h, g]
    return C

# ------------------------------------------------------------------------------------------------ C18
leaks = hist("lk", 260, mix(dict(solve=4, update_vec=2, bad_vec=1.5, update_mat=2, bad_mat=1.5, warm=1, cold=.5, update_rho=1, bad_rho=.5, update_settings=2, bad_settings=1, get=1, uns=.5)), dict(polishing=[0, 1], max_iter=[5, 20, 50], linsys_solver=[1, 1, 2], allocate_solution=[0, 1]), length=lambda r: r.randint(1, 9), pick=.6)
def leak_setups(r, scale):
    C = []
    for k in range(nn(scale, 40)):
        ops = []; probs = []
        for j in range(r.choice([2, 3])):
            w = r.choice("ngbxs"); p = G.indefinite(r) if w == "n" else G.any_prob(r); probs.append(p); s = G.settings(r, .4, max_iter=10, polishing=r.choice([0, 1]), linsys_solver=r.choice([1, 1, 2]) if w != "n" else 1)
            if w == "b": s.update(r.choice([dict(alpha=3.0), dict(max_iter=0), dict(sigma=0.0), dict(rho=-1.0)]))
            if w == "x" and p["m"]: p["l"][0], p["u"][0] = 1.0, 0.0
            ops.append(dict(op="setup", set=s, p=j))
            if w == "g" or w == "s": ops += [dict(SOLVE), G.u_vec(r, G.copyp(p)), dict(SOLVE)]
            ops.append(dict(CL))
        C.append(dict(id="ls%d" % k, probs=probs, ops=ops))
    return C
FAULT_BASE = [  # (settings, operations with a dense enough problem)
    (dict(), ["solve", "vec", "mat", "solve"]),
    (dict(polishing=1), ["solve", "solve"]),
    (dict(linsys_solver=2, polishing=1), ["solve", "mat", "rho", "solve"]),
    (dict(scaling=0, rho_is_vec=0, allocate_solution=0), ["solve", "rho", "set", "solve"]),
    (dict(linsys_solver=2, scaling=0, rho_is_vec=0), ["solve", "vec", "solve"]),
]
def fault_bases(r):
    out = []
    for k, (s, seq) in enumerate(FAULT_BASE):
        p = D.prob([[2, .5], [.5, 1]], [1, 1], [[1, 1], [1, 0], [0, 1]], [1, 0, 0], [1, .7, .7])
        ops = [dict(op="setup", set=dict(verbose=0, max_iter=50, **s))]
        for t in seq:
            ops.append(dict(SOLVE) if t == "solve" else dict(op="update_vec", q=[1.0, 2.0], l=[1.0, 0.0, 0.0], u=[1.5, .7, .7]) if t == "vec" else dict(op="update_mat", Px=[3.0, .5, 1.5], Pn=3, Ax=[1.0, 1.0, 2.0, 1.0], An=4) if t == "mat"
                       else dict(op="update_rho", rho=.3) if t == "rho" else dict(op="update_settings", set=dict(alpha=1.2)))
        out.append(dict(id="fb%d" % k, probs=[p], ops=ops + [dict(CL)]))
    p = D.prob([[1.0]], [1.0], [], [], []); out.append(dict(id="fb_m0", probs=[p], ops=[dict(op="setup", set=dict(verbose=0, max_iter=20, polishing=1)), dict(SOLVE), dict(CL)]))
    for k, c in enumerate([dict(op="csc", kind="scalar", m=2, n=3, v=4.0), dict(op="csc", kind="vec", m=2, n=2, v=[1.0, 2.0]), dict(op="csc", kind="identity", m=3, n=3), dict(op="csc", kind="zeros", m=2, n=3),
                           dict(op="csc", kind="new", m=2, n=2, p=[0, 1, 2], ri=[0, 1], v=[1.0, 2.0])]):
        out.append(dict(id="fb_csc%d" % k, probs=[], ops=[c]))
    return out
def alloc_faults(base, run):
    """the cases with failing allocations: for each call of each base history, every allocation index it performs (that one
    alone, or that one and all later ones), followed by the clean-up and a fresh use of the library; where the call
    succeeded nevertheless, also followed by the rest of the history"""
    res = run(base); C, again = [], []
    for b in base:
        evs = res[b["id"]]["ev"]; j = 0
        for k, o in enumerate(b["ops"]):
            if o["op"] in D.SILENT: continue
            n = evs[j]["allocs"]; e = j; j += 1
            slots = sorted({x.get("s", 0) for x in b["ops"][:k + 1] if x["op"] == "setup"})
            st = [x for x in b["ops"] if x["op"] == "setup"][:1]
            for a in range(1, n + 1):
                for mode in ("failat", "failfrom"):
                    hd = b["ops"][:k] + [dict(op=mode, v=a), o]
                    c = dict(id="%s-%d-%s%d" % (b["id"], k, mode[4:], a), probs=b["probs"], ops=hd + [dict(op="cleanup", s=s) for s in slots] + [y for x in st for y in (dict(x, s=5), dict(op="solve", s=5), dict(op="cleanup", s=5))])
                    C.append(c); again.append((c, hd + b["ops"][k + 1:], e))
    got = run(C)
    return C + [dict(c, id=c["id"] + "c", ops=ops) for c, ops, e in again if len(got[c["id"]]["ev"]) > e and got[c["id"]]["ev"][e]["ret"] == 0]

# ------------------------------------------------------------------------------------------------ C19
def missing(r, scale):
    C = []; p = G.bounded_qp(r, 2, 2)
    calls = [dict(SOLVE), dict(op="update_vec", q=[1.0, 2.0]), dict(op="update_vec"), dict(op="update_mat", Px=[1.0], Pi=[0], Pn=1), dict(op="update_mat"), dict(op="warm", x=[1.0, 2.0], y=[1.0, 1.0]), dict(op="warm"), dict(op="cold"), dict(op="update_rho", rho=.1), dict(op="update_rho", rho=-1.0),
             dict(op="update_settings", set={}), dict(op="update_settings", set={"NULL": 1}), dict(op="get_solution"), dict(op="get_solution", null=1), dict(op="dims"), dict(op="unsupported"), dict(CL)]
    for k, c in enumerate(calls):
        C.append(case("ns%d" % k, [p], dict(c, s=2), dict(op="setup", set=dict(verbose=0), s=1), dict(c, s=2), dict(op="solve", s=1), dict(c, s=1), dict(op="cleanup", s=1), dict(c, s=1), dict(op="cleanup", s=1)))
        if c["op"] != "cleanup": C.append(case("nx%d" % k, [dict(p, mod=dict(nullP=1))], dict(op="setup", set=dict(verbose=0)), dict(c), dict(CL)))
    C.append(case("em", [], *[dict(op="errmsg", v=v) for v in list(range(-3, 16)) + [100, -100, 2 ** 31 - 1, -2 ** 31, 1000000]]))
    C.append(case("intro", [], dict(op="intro"), dict(op="intro")))
    C.append(case("defset", [p], dict(op="setup", set={}), dict(SOLVE), dict(CL)))
    for k in range(nn(scale, 40)):
        q = G.qp(r, r.choice([1, 2, 3, 4, 5, 7]), r.choice([0, 1, 2, 3, 6])); q0 = G.copyp(q)
        C.append(dict(id="dm%d" % k, probs=[q0], ops=[dict(op="dims"), dict(op="setup", set=G.settings(r, .3, max_iter=10)), dict(op="dims"), dict(op="unsupported"), dict(SOLVE), dict(op="dims"), G.u_vec(r, q), dict(op="unsupported"), dict(op="dims"), dict(SOLVE), dict(CL), dict(op="dims")]))
    return C
def rejections(r, scale):
    return hist("rj", 120, mix(dict(solve=3, bad_vec=3, bad_mat=3, bad_rho=2, bad_settings=3, null_settings=1, get=1, uns=1, dims=1)), dict(max_iter=[5, 20]))(r, scale)

# ------------------------------------------------------------------------------------------------ C20
store_hist = hist("st", 300, mix(dict(solve=5, get=5, update_vec=2.5, bad_vec=.7, update_mat=.7, warm=.7, cold=.5, update_settings=1)), dict(allocate_solution=[1, 1, 0], max_iter=[30, 50, 75, 3], polishing=[0, 0, 1]), prob=lambda r: G.any_prob(r, (3, 0, 3, 3)), length=lambda r: r.randint(4, 11))
def diverging(r):
    """indefinite problems whose KKT matrix still passes the inertia check: the iterates may blow up"""
    n = r.choice([1, 2]); A, l, u = [], [], []
    for j in range(n):
        A.append([1.0 if i == j else 0.0 for i in range(n)]); k = r.choice(["lo", "up", "lo"])
        l.append(-1.0 if k == "lo" else -INF); u.append(1.0 if k == "up" else INF)
    P = [[0.0] * n for _ in range(n)]
    P[0][0] = -r.choice([.5, 1.0, 2.0])
    if n == 2: P[1][1] = r.choice([1.0, -.5])
    return D.prob(P, [num(r) for _ in range(n)], A, l, u)
def nonconvex_run(r, scale):
    C = []
    for k in range(nn(scale, 70)):
        if r.random() < .55:
            p = diverging(r); s = dict(verbose=r.choice([0, 0, 1]), rho=r.choice([2.5, 5.0, 10.0]), adaptive_rho=0, scaling=0, max_iter=r.choice([300, 400]), check_termination=r.choice([5, 25, 0]), eps_dual_inf=r.choice([1e-4, 1e-12]), alpha=r.choice([1.6, 1.0]))
        else:
            p = G.bounded_qp(r, r.choice([1, 2]), r.choice([0, 1, 2])); p["q"][0] = r.choice([-1, 1]) * r.choice([1e31, 3e32, 1e35]); s = G.settings(r, .3, scaling=0, adaptive_rho=0, max_iter=r.choice([1, 5, 20]), check_termination=r.choice([1, 0, 5]))
        ops = [dict(op="setup", set=s), dict(SOLVE), dict(op="get_solution"), dict(op="get_solution"), dict(op="update_vec", q=[num(r) for _ in range(p["n"])]), dict(op="update_settings", set=dict(max_iter=r.choice([3, 20]))), dict(SOLVE), dict(op="get_solution"), dict(CL)]
        C.append(case("nc%d" % k, [p], *ops))
    return C

# ------------------------------------------------------------------------------------------------ C21
CG = dict(linsys_solver=[2], rho_is_vec=[1, 0], cg_max_iter=[20, 50, 5], cg_tol_reduction=[10, 1, 100], cg_tol_fraction=[.15, .01, .5], cg_precond=[0, 1], polishing=[0, 1], scaling=[0, 1, 10], max_iter=[50, 100, 200], adaptive_rho=[0, 1, 3], rho=[.1, .1, 1.0, .5], sigma=[1e-6, 1e-3])
cg_hist = hist("cg", 260, mix(dict(solve=6, update_vec=3, bad_vec=.3, update_mat=2, bad_mat=.3, warm=1, cold=.5, update_rho=1.5, update_settings=1.5, get=1)), CG, set_=lambda r: dict(linsys_solver=2), pick=.6)
cg_inf = hist("cgi", 80, mix(dict(solve=6, update_vec=1, get=1)), dict(CG, polishing=[0]), set_=lambda r: dict(linsys_solver=2), prob=lambda r: G.any_prob(r, (0, 0, 1, 1)))
cg_big = hist("cgb", 8, mix(dict(solve=5, update_mat=3, update_vec=2, warm=.7, update_rho=1, update_settings=1)), dict(CG, max_iter=[5, 12, 30]), set_=lambda r: dict(linsys_solver=2), prob=big_prob, length=lambda r: r.randint(3, 6), pick=.6)
def nice(r):
    n = r.choice([1, 2, 3, 4]); m = r.choice([0, 1, 2, 3])
    P = G.psd(r, n, 1); 
    for j in range(n): P[j][j] += r.choice([1.0, 2.0])
    A = [[float(r.choice([-1, 0, 1, 1])) for _ in range(n)] for _ in range(m)]
    for i in range(m):
        if not any(A[i]): A[i][r.randrange(n)] = 1.0
    x0 = [float(r.choice([-1, 0, 1])) for _ in range(n)]
    lu = [G.bounds(r, v, ["box", "lo", "up", "eq"] if m < n else ["box", "lo", "up"]) for v in G.mulv(A, x0)]
    return D.prob(P, [num(r) for _ in range(n)], A, [a for a, _ in lu], [b for _, b in lu])
def cg_twin(r, scale):
    """well-conditioned problems: the indirect and the direct solver agree on verdict and solution, also after updates"""
    C = []
    for k in range(nn(scale, 90)):
        p = nice(r); p0 = G.copyp(p)
        e = r.choice([1e-3, 1e-4, 1e-4]); s = dict(verbose=0, eps_abs=e, eps_rel=e, eps_prim_inf=1e-10, eps_dual_inf=1e-10, max_iter=4000, rho_is_vec=r.choice([0, 1]), scaling=r.choice([0, 10]), cg_precond=r.choice([0, 1]), polishing=r.choice([0, 1]), adaptive_rho=r.choice([0, 1, 1]), cg_max_iter=r.choice([20, 30]), rho=r.choice([.1, 1.0]))
        ops = [dict(SOLVE)]
        for _ in range(r.choice([0, 1, 2])):
            w = r.choice("vvrA")
            if w == "v": ops.append(dict(op="update_vec", q=[num(r) for _ in range(p["n"])]))
            elif w == "r": ops.append(dict(op="update_rho", rho=r.choice([.05, .3, 1.0])))
            else:
                f = r.choice([2.0, .5]); ops.append(dict(op="update_mat", Px=[v * f for v in p["Px"]], Pn=0))
            ops.append(dict(SOLVE))
        a = dict(id="ct%d" % k, probs=[p0], ops=[dict(op="setup", set=dict(s, linsys_solver=2))] + ops + [dict(CL)])
        b = dict(id="ct%d_t" % k, probs=[p0], ops=[dict(op="setup", set=dict(s, linsys_solver=1))] + ops + [dict(CL)])
        a["links"] = [(b["id"], [(j, j) for j, o in enumerate(a["ops"]) if o["op"] == "solve"], [], 20 * e)]
        b["nojudge"] = True
        C += [b, a]
    return C

# ------------------------------------------------------------------------------------------------ C22
out_hist = hist("ou", 230, mix(dict(solve=6, update_vec=2, bad_vec=.5, update_mat=1, warm=.5, cold=.3, update_rho=.7, update_settings=2, get=.5, dims=.2)), dict(verbose=[0, 1, 1, 1], polishing=[0, 1], adaptive_rho=[0, 1, 1, 3], adaptive_rho_interval=[0, 1, 3, 7, 10, 25], adaptive_rho_tolerance=[1.0, 1.5, 5.0],
                max_iter=[1, 2, 10, 25, 30, 50, 60], check_termination=[0, 1, 5, 7, 25], time_limit=[1e10, 1e10, 1e10, 4.0, 9.0, 21.0, 28.0]), clock=lambda r: dict(sym=SEC, fac=SEC, iter=SEC), pick=.65)
def out_long(r, scale):
    """solves that pass multiples of 200"""
    C = []
    for k in range(nn(scale, 10)):
        p = G.qp(r, 2, 2, keep=False)
        s = dict(verbose=1, max_iter=r.choice([199, 200, 201, 399, 400, 401]), check_termination=r.choice([0, 25, 30, 200, 7]), eps_abs=1e-13, eps_rel=0.0, adaptive_rho=r.choice([0, 1]), adaptive_rho_interval=r.choice([50, 100, 200]), adaptive_rho_tolerance=r.choice([1.0, 2.0]), rho=r.choice([.1, 1.0]), polishing=0)
        C.append(case("ol%d" % k, [p], dict(op="setup", set=s), dict(SOLVE), CL))
    return C
def out_twin(r, scale):
    C = []
    for k in range(nn(scale, 90)):
        h = G.history(r, "x", w=mix(dict(solve=6, update_vec=2, update_mat=1, warm=1, update_rho=.5, get=.5)), set_=G.settings(r, .6, verbose=1, polishing=r.choice([0, 1]), adaptive_rho=r.choice([0, 1, 2, 3]), adaptive_rho_interval=r.choice([0, 2, 5, 25])), length=r.randint(2, 6), clock=dict(sym=SEC, fac=SEC, iter=SEC))
        a = dict(h, id="ot%d" % k); b = dict(h, id="ot%d_t" % k, ops=[dict(o, set=dict(o["set"], verbose=0)) if o["op"] == "setup" else o for o in h["ops"]])
        a["links"] = [(b["id"], [(j, j) for j, o in enumerate(h["ops"]) if o["op"] not in ("setup", "clock")], [], None)]
        C += [b, a]
    return C

# ------------------------------------------------------------------------------------------------ C23
def convexity(r, scale):
    C = []; b = dict(verbose=0, max_iter=10)
    for k, (a, d, e) in enumerate(itertools.product([-2.0, -.5, 0.0, .5, 2.0], [-1.0, 0.0, 1.0, 2.0], [-2.0, -1e-3, 0.0, 1.0, 2.0])):
        if scale < 1 and k % 2: continue
        A = r.choice([[], [[1.0, 0.0]], [[1.0, 1.0]], [[1.0, 0.0], [0.0, 1.0]]]); m = len(A)
        lu = [G.bounds(r, 0.0, ["box", "free", "eq", "lo"]) for _ in range(m)]
        p = D.prob([[a, d], [d, e]], [num(r), num(r)], A, [x for x, _ in lu], [y for _, y in lu], {(0, 0)} if r.random() < .3 else None)
        C.append(case("cv%d" % k, [p], dict(op="setup", set=dict(b, sigma=r.choice([1e-6, 1e-2, 1.0]), scaling=r.choice([0, 10]), rho_is_vec=r.choice([0, 1]), rho=r.choice([.1, 1.0, 10.0]))), CL))
    for k in range(nn(scale, 120)):
        p = G.indefinite(r)
        C.append(case("cx%d" % k, [p], dict(op="setup", set=G.settings(r, .4, max_iter=10)), CL))
    for k in range(nn(scale, 100)):       # semidefinite ones must pass, and solve
        n = r.choice([1, 2, 3, 4, 5]); p = G.qp(r, n, r.choice([0, 1, 2, 3]), rank=r.choice([0, 1, 2]), psup=[j for j in range(n) if r.random() < .7], bad=r.random() < .2)
        C.append(case("cs%d" % k, [p], dict(op="setup", set=G.settings(r, .4, max_iter=20)), dict(SOLVE), CL))
    return C

# ------------------------------------------------------------------------------------------------ C24
def csc(r, scale):
    C = []
    for m, n in itertools.product(range(0, 6), range(0, 6)):
        mn = min(m, n)
        ops = [dict(op="csc", kind="zeros", m=m, n=n), dict(op="csc", kind="scalar", m=m, n=n, v=num(r)), dict(op="csc", kind="scalar", m=m, n=n, v=0.0), dict(op="csc", kind="vec", m=m, n=n, v=[num(r) for _ in range(mn)])]
        if m == n: ops.append(dict(op="csc", kind="identity", m=m, n=m))
        for kind in ("new", "set"):
            A = [[num(r) if r.random() < .6 else 0.0 for _ in range(n)] for _ in range(m)]
            pp, ii, xx = D.csc_dense(A, m, n)
            ops.append(dict(op="csc", kind=kind, m=m, n=n, p=pp, ri=ii, v=xx))
        C.append(case("c%dx%d" % (m, n), [], *ops))
    for k in range(nn(scale, 20)):
        m, n = r.randint(0, 40), r.randint(0, 40); mn = min(m, n)
        C.append(case("cr%d" % k, [], dict(op="csc", kind="zeros", m=m, n=n), dict(op="csc", kind="scalar", m=m, n=n, v=num(r)), dict(op="csc", kind="vec", m=m, n=n, v=[num(r) for _ in range(mn)]), dict(op="csc", kind="identity", m=m, n=m)))
    return C
def csc_used(r, scale):
    """problems whose matrices come from the constructors"""
    C = []
    for k in range(nn(scale, 60)):
        n = r.choice([1, 2, 3, 4]); hP = r.choice([1, 2, 3, 4, 5])
        d = [abs(num(r)) for _ in range(n)]
        dg = [d[0]] * n if hP == 1 else d if hP == 2 else [1.0] * n if hP == 3 else [0.0] * n
        P = [[dg[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
        if hP == 5: P = G.psd(r, n, 2)
        hA = r.choice([1, 2, 3, 4, 5]); m = n if hA == 3 else r.choice([0, 1, 2, 3, 5]) if hA in (4, 5) else r.choice([1, 2, 3, 5])
        mn = min(m, n); e = [num(r) for _ in range(mn)]
        ag = [e[0]] * mn if hA == 1 else e if hA == 2 else [1.0] * mn
        A = [[(ag[i] if i == j and i < mn else 0.0) if hA < 4 else 0.0 for j in range(n)] for i in range(m)]
        if hA == 5: A = [[num(r) if r.random() < .6 else 0.0 for _ in range(n)] for _ in range(m)]
        x0 = [num(r) for _ in range(n)]; lu = [G.bounds(r, v, ["box", "lo", "up"]) for v in G.mulv(A, x0)]
        p = D.prob(P, [num(r) for _ in range(n)], A, [a for a, _ in lu], [b for _, b in lu]); p["mod"] = dict(hP=hP, hA=hA)
        if hP == 1 and not p["Px"]: p["mod"]["hP"] = 4
        C.append(case("cu%d" % k, [p], dict(op="setup", set=G.settings(r, .4, max_iter=r.choice([5, 30, 60]))), dict(SOLVE), G.u_mat(r, G.copyp(p)), dict(SOLVE), CL))
    return C

# ------------------------------------------------------------------------------------------------ behaviours exported from the specification
def loop_scen(N, keep=lambda x: True):
    """the ways through the solve loop that OsqpScen enumerates: at least one run of each signature (N of them, 0: all)"""
    def f(r, scale):
        by = {}
        for x in M.scenarios():
            if keep(x): by.setdefault(x["sg"], []).append(x)
        sel = [r.choice(by[k]) for k in sorted(by)]
        if N and len(sel) > N * scale: sel = r.sample(sel, nn(scale, N))
        C = []
        for k, x in enumerate(sel):
            q = r.choice([1.0, -1.0]) * r.choice([1.0, 3.0, 0.7, 20.0])
            p = D.prob([[1.0]], [q], [], [], [])
            s = dict(verbose=int(x["verb"]), max_iter=x["mi"], check_termination=x["ct"], adaptive_rho=x["mode"], adaptive_rho_interval=x["iv"], polishing=int(x["pol"]), sigma=1.0, alpha=1.0, scaling=0, rho=.1,
                     eps_abs=1.5 * abs(q) * 2.0 ** -x["k"], eps_rel=0.0, check_dualgap=0, adaptive_rho_fraction=1.5, eps_dual_inf=1e-12, **(dict(time_limit=1.0 + x["late"]) if x["late"] else {}))
            ops = [dict(op="clock", sym=SEC, fac=0, iter=SEC), dict(op="setup", set=s)]
            if x["sig"]: ops.append(dict(op="sigat", v=x["sig"]))
            ops += [dict(SOLVE), dict(op="get_solution")]
            if r.random() < .5: ops += [dict(op="cold"), *([dict(op="update_rho", rho=.1)] if r.random() < .5 else []), dict(SOLVE)]
            C.append(dict(id="sc%d" % k, probs=[p], ops=ops + [CL]))
        return C
    return f
def concrete(r, seq):
    """the calls of an exported history on a problem of two variables (the second one has no cost) and two constraints"""
    P = [[1.0, 0.0], [0.0, 0.0]]; A = [[1.0, 0.0], [1.0, 0.0]]
    a = lambda: r.choice([.5, -1.0, 2.0, .25]); b = r.choice([1.0, 2.0, 4.0])
    keep = {(0, 0), (0, 1), (1, 1)}
    p0 = D.prob(P, [a(), 0.0], A, [-b, -b], [b, 1e30], keep)
    st = dict(verbose=0, max_iter=60, check_termination=5, scaling=r.choice([0, 0, 10]), adaptive_rho=0, rho=1.0, eps_abs=1e-3, eps_rel=1e-3, allocate_solution=1)
    ops = [dict(op="clock", sym=2 * SEC, fac=SEC, iter=SEC)]
    for w in seq:
        if w == "setup": ops.append(dict(op="setup", set=st))
        elif w == "setup_bad": ops.append(dict(op="setup", set=dict(st, **r.choice([dict(alpha=2.0), dict(max_iter=0), dict(rho=0.0), dict(eps_abs=0.0, eps_rel=0.0)]))))
        elif w == "vec_opt": ops.append(dict(op="update_vec", q=[a(), 0.0], l=[-b, -b], u=[b, 1e30]))
        elif w == "vec_pinf": ops.append(dict(op="update_vec", **(dict(q=[a(), 0.0]) if r.random() < .5 else {}), l=[b, -1e30], u=[1e30, 0.0]))
        elif w == "vec_dinf": ops.append(dict(op="update_vec", q=[a(), r.choice([1.0, -1.0])], l=[-b, -b], u=[b, 1e30]))
        elif w == "mat":
            ops.append(dict(op="update_mat", **r.choice([dict(Px=[2.0, 0.0, 0.0], Pn=0), dict(Px=[1.5], Pi=[0], Pn=1), dict(Ax=[1.5, .5], An=0), dict(Px=[1.0, 0.0, 0.0], Pn=3, Ax=[1.0], Ai=[1], An=1)])))
        elif w == "vec_bad": ops.append(dict(op="update_vec", **r.choice([dict(l=[3 * b, -b], u=[b, b]), dict(q=[9.0, 0.0], u=[-9 * b, 1e30]), dict(l=[-b, 50.0], u=[b, 49.0])])))
        elif w == "mat_bad": ops.append(dict(op="update_mat", **r.choice([dict(Px=[2.0, 0.0, 0.0, 0.0], Pn=4), dict(Ax=[9.0], An=1), dict(Px=[7.0], Pi=[0], Pn=1, Ax=[1.0, 1.0, 1.0], An=3)])))
        elif w == "rho": ops.append(dict(op="update_rho", rho=r.choice([.5, 2.0, 1.0])))
        elif w == "rho_bad": ops.append(dict(op="update_rho", rho=r.choice([0.0, -1.0])))
        elif w in ("set_pol", "set_nopol"): ops.append(dict(op="update_settings", set=dict(polishing=int(w == "set_pol"))))
        elif w in ("set_warm", "set_cold"): ops.append(dict(op="update_settings", set=dict(warm_starting=int(w == "set_warm"))))
        elif w == "set_bad": ops.append(dict(op="update_settings", set=dict(polishing=1, warm_starting=0, **r.choice([dict(alpha=0.0), dict(time_limit=0.0), dict(check_termination=-1)]))))
        elif w == "warm": ops.append(dict(op="warm", **r.choice([dict(x=[.5, 1.0], y=[.25, -.5]), dict(x=[-1.0, 0.0]), dict(y=[1.0, 1.0])])))
        elif w == "solve_max": ops += [dict(op="update_settings", set=dict(max_iter=2)), dict(SOLVE), dict(op="update_settings", set=dict(max_iter=60))]
        elif w == "solve_time": ops += [dict(op="update_settings", set=dict(time_limit=r.choice([1.0, 6.0]))), dict(SOLVE), dict(op="update_settings", set=dict(time_limit=1e10))]
        elif w == "solve_sig": ops += [dict(op="sigat", v=r.choice([1, 2, 4])), dict(SOLVE)]
        elif w == "get": ops.append(dict(op="get_solution"))
        else: ops.append(dict(op=w))
    return dict(id="", probs=[p0], ops=ops + [dict(SOLVE), dict(op="get_solution"), dict(CL)])
def api_hist(N, must, depth=4):
    """call sequences enumerated by OsqpHist (all of length depth that contain one of the calls in must; N of them, 0: all)"""
    def f(r, scale):
        H = [h for h, _, _ in M.histories(depth) if not must or any(w in must for w in h[1:])]
        if N and len(H) > N * scale: H = r.sample(H, nn(scale, N))
        C = []
        for k, h in enumerate(H):
            c = concrete(r, h); c["id"] = "ah%d" % k; C.append(c)
        return C
    return f
