"""Random problems, settings and histories of API calls for the conformance checks."""
import random
import osqpdrv as D
INF = 1e30
SEC = 10 ** 9

def num(r, s=1.0):
    k = r.random()
    if k < .25: return float(r.choice([-3, -2, -1, 1, 2, 3])) * s
    if k < .35: return r.choice([-1, 1]) * 10.0 ** r.randint(-3, 2) * s
    return round(r.gauss(0, 1.5), 3) * s or .5
def psd(r, n, rank, sup=None):
    """integer-valued Gram matrix plus a diagonal: exactly positive semidefinite"""
    P = [[0.0] * n for _ in range(n)]
    sup = list(range(n)) if sup is None else sup
    for _ in range(rank):
        b = [0] * n
        for j in sup: b[j] = r.choice([-2, -1, 0, 0, 1, 1, 2])
        for i in range(n):
            for j in range(n): P[i][j] += b[i] * b[j]
    return P
def mulv(M, x): return [sum(a * b for a, b in zip(row, x)) for row in M]

def bounds(r, a, kinds):
    k = r.choice(kinds)
    g = lambda: r.choice([0.0, 0.0, .1, 1.0, round(abs(r.gauss(0, 1)), 3), 10.0])
    big = lambda: r.choice([INF, INF, 1e35])
    if k == "eq": return a, a
    if k == "box":
        lo, up = a - g(), a + g()
        return (lo, up) if up - lo > 1e-2 else (lo - .5, up + .5)
    if k == "lo": return a - g(), big()
    if k == "up": return -big(), a + g()
    if k == "free": return -big(), big()
    if k == "near": return a - 2e-5, a + 3e-5
    raise ValueError(k)
KINDS = ["eq", "box", "box", "box", "lo", "up", "free", "near"]

def qp(r, n=None, m=None, kinds=KINDS, bad=False, dens=None, rank=None, keep=True, psup=None):
    """a feasible convex problem (strictly bounded only by chance)"""
    n = n or r.choice([1, 2, 2, 3, 3, 4, 5]); m = r.choice([0, 1, 2, 3, 4, 5]) if m is None else m
    dens = dens or r.choice([.4, .7, 1.0])
    sup = psup if psup is not None else ([j for j in range(n) if r.random() < .8] if r.random() < .5 else list(range(n)))
    P = psd(r, n, rank if rank is not None else r.choice([0, 1, 1, 2, n, n]), sup)
    dg = r.choice([0, 0, .1, 1.0, 2.5])
    for j in sup: P[j][j] += dg
    A = [[num(r) if r.random() < dens else 0.0 for _ in range(n)] for _ in range(m)]
    q = [num(r) if r.random() < .85 else 0.0 for _ in range(n)] if r.random() < .93 else [0.0] * n
    if bad:
        cs = [10.0 ** r.randint(-3, 3) for _ in range(n)]; rs = [10.0 ** r.randint(-3, 3) for _ in range(m)]
        P = [[P[i][j] * cs[i] * cs[j] for j in range(n)] for i in range(n)]
        A = [[A[i][j] * cs[j] * rs[i] for j in range(n)] for i in range(m)]
        q = [q[j] * cs[j] for j in range(n)]
    x0 = [num(r) for _ in range(n)]
    ax = mulv(A, x0)
    lu = [bounds(r, a, kinds) for a in ax]
    kP = {(i, j) for i in range(n) for j in range(i, n) if r.random() < .15} if keep and r.random() < .3 else None
    kA = {(i, j) for i in range(m) for j in range(n) if r.random() < .1} if keep and r.random() < .3 else None
    return D.prob(P, q, A, [a for a, _ in lu], [b for _, b in lu], kP, kA)
def bounded_qp(r, n=None, m=None, **kw):
    """strictly convex or boxed"""
    p = qp(r, n, m, rank=None, psup=None, **kw)
    P = dense(p, "P")
    for j in range(p["n"]): P[j][j] += r.choice([.5, 1.0, 2.0])
    return D.prob(P, p["q"], dense(p, "A"), p["l"], p["u"])
def dense(p, M):
    n, m = p["n"], p["n"] if M == "P" else p["m"]
    R = [[0.0] * n for _ in range(m)]
    for j in range(n):
        for k in range(p[M + "p"][j], p[M + "p"][j + 1]):
            R[p[M + "i"][k]][j] = p[M + "x"][k]
            if M == "P": R[j][p[M + "i"][k]] = p[M + "x"][k]
    return R

def primal_infeasible(r):
    n = r.choice([1, 2, 3, 4]); p = qp(r, n, r.choice([0, 1, 2]), keep=False)
    A, l, u = dense(p, "A"), list(p["l"]), list(p["u"])
    k = r.randint(1, 3)
    if k == 1:
        a = [num(r) for _ in range(n)]; b = num(r); d = r.choice([.5, 1.0, 3.0])
        A += [a, [r.choice([1, 2, -1]) * v for v in a]]
        f = A[-1][0] / A[-2][0]
        if f > 0: l += [b + d, -INF]; u += [r.choice([INF, b + d + 2]), b * f]
        else: l += [b + d, b * f]; u += [INF, r.choice([INF, b * f + 4])]
    elif k == 2:
        a, b = [num(r) for _ in range(n)], [num(r) for _ in range(n)]
        A += [a, b, [x + y for x, y in zip(a, b)]]
        l += [-INF, r.choice([-INF, -9.0]), 1.5]; u += [0.5, 0.25, r.choice([INF, 1.5, 8.0])]
    else:
        a = [num(r) for _ in range(n)]
        A += [a, list(a)]; l += [1.0, 2.0]; u += [1.0, r.choice([2.0, 2.5])]
    return D.prob(dense(p, "P"), p["q"], A, l, u)
def dual_infeasible(r):
    n = r.choice([1, 2, 3, 4]); m = r.choice([0, 1, 2, 3])
    S = [j for j in range(n) if r.random() < .6] or [0]
    d = [0.0] * n
    for j in S: d[j] = float(r.choice([-2, -1, 1, 1, 2]))
    P = psd(r, n, 2, [j for j in range(n) if j not in S])
    if len(S) > 1 and r.random() < .6:   # a P row orthogonal to d inside S
        i, j = S[0], S[1]; v = [0.0] * n; v[i], v[j] = d[j], -d[i]
        for a in range(n):
            for b in range(n): P[a][b] += v[a] * v[b]
    q = [num(r) for _ in range(n)]
    if mulv([q], d)[0] >= -.3:
        j = S[0]; q[j] -= (mulv([q], d)[0] + r.choice([.5, 1.0, 2.0])) / d[j]
    A, l, u = [], [], []
    for _ in range(m):
        a = [num(r) if r.random() < .7 else 0.0 for _ in range(n)]
        k = r.choice(["orth", "lo", "up", "free"])
        s = mulv([a], d)[0]
        if k == "orth" or abs(s) < .2:
            j = S[0]; a[j] -= s / d[j]
            if abs(a[j]) < 1e-9: a[j] = 0.0
            lo, up = bounds(r, num(r), ["eq", "box", "box"])
        elif k == "free": lo, up = -INF, INF
        elif s > 0: lo, up = num(r), INF
        else: lo, up = -INF, num(r)
        A.append(a); l.append(lo); u.append(up)
    return D.prob(P, q, A, l, u)
def any_prob(r, w=(6, 1, 1, 1)):
    k = r.choices(["qp", "bad", "pinf", "dinf"], w)[0]
    return qp(r) if k == "qp" else qp(r, bad=True) if k == "bad" else primal_infeasible(r) if k == "pinf" else dual_infeasible(r)
def indefinite(r):
    n = r.choice([1, 2, 3, 4]); m = r.choice([0, 0, 1, 2, 3])
    p = qp(r, n, m, keep=r.random() < .5)
    P = dense(p, "P")
    for _ in range(r.choice([1, 1, 2])):
        i, j = r.randrange(n), r.randrange(n)
        v = r.choice([-1.0, -.1, -3.0, -1e-3, -20.0, 2.0]) * r.choice([1, 1, 2])
        P[i][j] += v
        if i != j: P[j][i] += v
    return D.prob(P, p["q"], dense(p, "A"), p["l"], p["u"])

# ------------------------------------------------------------------------------------------------ settings
OPT = dict(scaling=[0, 0, 1, 2, 10, 10, 15], polishing=[0, 0, 0, 1], rho=[.1, .1, .1, .01, .01, 1.0, 1.0, 10.0, 3.0, .5, 1e-7, 1e7], rho_is_vec=[1, 1, 1, 0],
           sigma=[1e-6, 1e-6, 1e-2, 1.0, 1e-4], alpha=[1.6, 1.6, 1.0, .5, 1.9], adaptive_rho=[0, 0, 1, 1, 3],
           adaptive_rho_interval=[0, 0, 1, 5, 7, 25, 50], adaptive_rho_tolerance=[5.0, 1.0, 1.5, 2.0, 20.0], adaptive_rho_fraction=[.4, .1, 1.0, 2.0],
           eps_abs=[1e-3, 1e-3, 1e-2, 1e-5, 0.0], eps_rel=[1e-3, 1e-3, 1e-5, 1e-2], eps_prim_inf=[1e-4, 1e-3, 1e-6], eps_dual_inf=[1e-4, 1e-3, 1e-6],
           scaled_termination=[0, 0, 1], check_termination=[25, 25, 10, 1, 3, 7, 0], check_dualgap=[1, 1, 0], warm_starting=[1, 1, 1, 0],
           delta=[1e-6, 1e-6, 1e-4, 1e-8], polish_refine_iter=[3, 3, 0, 1, 5], max_iter=[50, 100, 60, 25, 7, 1, 2, 33], allocate_solution=[1, 1, 1, 1, 0], verbose=[0])
RUN = {"verbose", "warm_starting", "polishing", "alpha", "max_iter", "eps_abs", "eps_rel", "eps_prim_inf", "eps_dual_inf", "scaled_termination",
       "check_termination", "check_dualgap", "time_limit", "delta", "polish_refine_iter", "cg_max_iter", "cg_tol_reduction", "cg_tol_fraction", "cg_precond"}
def settings(r, pick=.5, **fix):
    s = {k: r.choice(v) for k, v in OPT.items() if r.random() < pick}
    s.setdefault("max_iter", r.choice([50, 60, 75, 100])); s.setdefault("verbose", 0)
    s.update(fix)
    if s.get("eps_abs") == 0.0 and s.get("eps_rel") == 0.0: s["eps_rel"] = 1e-3
    return s
def run_settings(r, k=3, opt=OPT):
    s = {f: r.choice(opt[f]) for f in r.sample(sorted(RUN & set(opt)), k)}
    if s.get("eps_abs") == 0.0 or s.get("eps_rel") == 0.0: s["eps_rel"] = 1e-3
    return s

# ------------------------------------------------------------------------------------------------ single calls
def u_vec(r, p, bad=False, pick=.6):
    """an update of q, l, u; p is modified in place to the new data when it is valid"""
    o = dict(op="update_vec"); n, m = p["n"], p["m"]
    if r.random() < pick: o["q"] = [num(r) for _ in range(n)]
    nl, nu = None, None
    if m and r.random() < pick:
        w = r.choice(["both", "both", "l", "u"])
        lu = [bounds(r, num(r), KINDS) for _ in range(m)]
        if r.random() < .3: lu = [(a, b) if r.random() < .5 else (p["l"][i], p["u"][i]) for i, (a, b) in enumerate(lu)]
        if w == "both": nl, nu = [a for a, _ in lu], [b for _, b in lu]
        elif w == "l": nl = [min(a, p["u"][i]) for i, (a, _) in enumerate(lu)]
        else: nu = [max(b, p["l"][i]) for i, (_, b) in enumerate(lu)]
    if bad and m:
        k = r.randrange(m)
        if r.random() < .4:  # only one side given: crosses the stored other side
            if r.random() < .5 and p["u"][k] < 1e20: nl = list(p["l"]); nl[k] = p["u"][k] + r.choice([1.0, 1e-3]); nu = None
            elif p["l"][k] > -1e20: nu = list(p["u"]); nu[k] = p["l"][k] - r.choice([1.0, 1e-3]); nl = None
            else: nl = list(p["l"]); nu = list(p["u"]); nl[k], nu[k] = 2.0, 1.0
        else:
            nl = list(nl or p["l"]); nu = list(nu or p["u"]); v = num(r); nl[k], nu[k] = v + .5, v
    if nl is not None: o["l"] = nl
    if nu is not None: o["u"] = nu
    l1, u1 = nl or p["l"], nu or p["u"]
    if all(a <= b for a, b in zip(l1, u1)):
        p["l"], p["u"] = list(l1), list(u1)
        if "q" in o: p["q"] = list(o["q"])
    return o
def is_psd(P, eps=1e-9):
    M = [row[:] for row in P]; n = len(M)
    for k in range(n):
        if M[k][k] < -eps: return False
        if M[k][k] <= eps:
            if any(abs(M[k][j]) > eps for j in range(k + 1, n)): return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            for j in range(k, n): M[i][j] -= f * M[k][j]
    return True
def u_mat(r, p, bad=False):
    """matrix update keeping P positive semidefinite (p modified in place)"""
    o = dict(op="update_mat"); nP, nA = len(p["Px"]), len(p["Ax"])
    which = r.choice(["P", "A", "PA"])
    if "P" in which and nP:
        for _ in range(20):
            if r.random() < .5:
                idx = list(range(nP)); vals = [v * r.choice([1, 2, .5]) for v in p["Px"]]; f = r.choice([1.0, 2.0, .25, 3.0]); vals = [v * f for v in p["Px"]] if r.random() < .6 else vals
                form = r.choice(["full", "fulln", "idx"])
            else:
                idx = sorted(r.sample(range(nP), r.randint(1, nP)))
                if r.random() < .4: r.shuffle(idx)
                vals = [p["Px"][k] + r.choice([.5, 1.0, 2.0, 0.0, -.25]) for k in idx]; form = "idx"
            new = list(p["Px"])
            for k, v in zip(idx, vals): new[k] = v
            p2 = dict(p, Px=new)
            if is_psd(dense(p2, "P")): break
        else: idx = None
        if idx is not None:
            p["Px"] = new
            if form == "idx": o.update(Px=vals, Pi=idx, Pn=len(idx))
            else: o.update(Px=vals, Pn=nP if form == "fulln" else 0)
    if "A" in which and nA:
        if r.random() < .5: vals = [num(r) for _ in range(nA)]; p["Ax"] = vals; o.update(Ax=vals, An=r.choice([0, nA]))
        else:
            idx = r.sample(range(nA), r.randint(1, nA)); vals = [num(r) for _ in idx]
            p["Ax"] = list(p["Ax"])
            for k, v in zip(idx, vals): p["Ax"][k] = v
            o.update(Ax=vals, Ai=idx, An=len(idx))
    if bad: return bad_mat(r, p)
    return o
def bad_mat(r, p):
    o = dict(op="update_mat"); nP, nA = len(p["Px"]), len(p["Ax"])
    M, nn = r.choice([("P", nP), ("A", nA)])
    k = r.choice(["more", "partial", "both"])
    if k == "partial" and nn > 1: c = r.randint(1, nn - 1); o.update({M + "x": [num(r) for _ in range(c)], M + "n": c})
    else: c = nn + r.choice([1, 2]); o.update({M + "x": [num(r) for _ in range(c)], M + "i": list(range(c)), M + "n": c})
    if k == "both":
        X, xn = ("A", nA) if M == "P" else ("P", nP)
        if xn: o.update({X + "x": [9.0] * xn, X + "n": xn})
    return o
def warm(r, p):
    o = dict(op="warm"); k = r.choice(["xy", "xy", "x", "y"])
    if "x" in k: o["x"] = [num(r) for _ in range(p["n"])]
    if "y" in k: o["y"] = [num(r) for _ in range(p["m"])]
    return o
def copyp(p): return {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}

# ------------------------------------------------------------------------------------------------ histories
W = dict(solve=6, update_vec=3, bad_vec=1, update_mat=2, bad_mat=1, warm=1, cold=1, update_rho=1, bad_rho=.3, update_settings=2, bad_settings=.5, get=1.5, dims=.2, uns=.1, null_settings=.1)
BADRUN = [dict(alpha=0.0), dict(alpha=2.0), dict(max_iter=0), dict(eps_abs=-1.0), dict(eps_rel=-1e-3), dict(eps_prim_inf=0.0), dict(eps_dual_inf=-1.0), dict(eps_abs=0.0, eps_rel=0.0),
          dict(scaled_termination=2), dict(check_termination=-1), dict(check_dualgap=2), dict(time_limit=0.0), dict(delta=0.0), dict(polish_refine_iter=-1), dict(polishing=2), dict(verbose=2),
          dict(warm_starting=-1), dict(profiler_level=3), dict(cg_max_iter=0), dict(cg_tol_reduction=0), dict(cg_tol_fraction=1.0), dict(cg_tol_fraction=0.0), dict(adaptive_rho=4), dict(profiler_level=-1)]
def step(r, p, w=W, opt=OPT, s=0):
    k = r.choices(list(w), list(w.values()))[0]
    if k == "solve": o = dict(op="solve")
    elif k == "update_vec": o = u_vec(r, p)
    elif k == "bad_vec": o = u_vec(r, p, bad=True)
    elif k == "update_mat": o = u_mat(r, p)
    elif k == "bad_mat": o = bad_mat(r, p)
    elif k == "warm": o = warm(r, p)
    elif k == "cold": o = dict(op="cold")
    elif k == "update_rho": o = dict(op="update_rho", rho=r.choice([.1, .01, 1.0, 5.0, 1e-8, 1e8, .3]))
    elif k == "bad_rho": o = dict(op="update_rho", rho=r.choice([0.0, -1.0]))
    elif k == "update_settings": o = dict(op="update_settings", set=run_settings(r, r.choice([1, 2, 3, 4]), opt))
    elif k == "bad_settings": o = dict(op="update_settings", set=dict(run_settings(r, 2, opt), **r.choice(BADRUN)))
    elif k == "null_settings": o = dict(op="update_settings", set={"NULL": 1})
    elif k == "get": o = dict(op="get_solution", null=int(r.random() < .05))
    elif k == "dims": o = dict(op="dims")
    elif k == "uns": o = dict(op="unsupported")
    o["s"] = s
    return o
def history(r, cid, p=None, length=None, w=W, set_=None, opt=OPT, pre=(), post=(), clock=None):
    p = copyp(p or any_prob(r)); p0 = copyp(p)
    ops = list(pre)
    if clock: ops.append(dict(op="clock", **clock))
    ops.append(dict(op="setup", set=set_ if set_ is not None else settings(r)))
    for _ in range(length if length is not None else r.randint(3, 9)): ops.append(step(r, p, w, opt))
    ops += list(post)
    ops.append(dict(op="cleanup"))
    return dict(id=cid, probs=[p0], ops=ops)
