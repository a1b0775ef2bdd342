#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide a property for /repo's working tree
   check.py --replay FILE                    judge one recorded case again (prints where it leaves the specification)"""
import hashlib, json, os, random, re, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import osqpdrv as D, trace as T, fam as F
import props

KNOWN = os.path.join(ROOT, "known_findings.txt")
def fingerprint(case): return hashlib.sha256(D.script(dict(case, id="x")).encode()).hexdigest()[:16]
def known(pid):
    """fingerprints of the cases recorded as findings of this property"""
    out = {}
    for ln in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", ln)
        if m and m[1] == pid: out[m[2]] = m[3].strip()
    return out

def prepare(cases, prefix):
    for c in cases:
        c["id"] = prefix + c["id"]
        c["links"] = [(prefix + a, b, i, t) for a, b, i, t in c.get("links", [])]
    return cases
def run_judge(drv, cases, asp, jobs=8):
    res = D.run(drv, cases, jobs)
    obs = {}
    for c in cases:
        o = T.observe(c, res[c["id"]]); o["asp"] = asp; obs[c["id"]] = o
    for c in cases:
        for ref, pairs, ign, tol in c.get("links", []):
            if ref in obs: T.twin(obs[c["id"]], obs[ref], pairs, ign, tol)
    v, st = T.judge([obs[c["id"]] for c in cases if not c.get("nojudge")], jobs=jobs)
    return v, st, obs, res
def closure(cases, cid):
    by = {c["id"]: c for c in cases}
    return [by[l[0]] for l in by[cid].get("links", []) if l[0] in by] + [by[cid]]

def statuses(obs):
    n = {}
    for o in obs.values():
        for x in o["ops"]:
            if x["op"] == "solve" and "rec" in x and x["rec"]["hasinfo"]:
                k = x["rec"]["info"]["status"]; n[k] = n.get(k, 0) + 1
    return n

def check(pid, tier, seed):
    t0 = time.time()
    spec = props.CHECKS[pid]
    budget = float(os.environ.get("VERIF_BUDGET", "600"))
    scale = spec.get("scale", 1.0) if tier == "quick" else 1.0
    T.compile_java(); drv = D.build()
    find = known(pid); seen = set(); bad = []; hit = set()
    tot = dict(cases=0, states=0, distinct=0, fuzzy=0, calls=0, models=[]); stat = {}; sample = []
    for m in spec.get("models", []):
        tot["models"].append(m(tier))
    rnd = 0
    while True:
        rs = seed if rnd == 0 else "%s+%d" % (seed, rnd)
        cases = []
        for k, f in enumerate(spec["fams"]):
            cases += prepare(f(random.Random("%s/%s/%d" % (rs, pid, k)), scale), "%s.%d." % (pid, k) if rnd == 0 else "%s.%d.%d." % (pid, rnd, k))
        if spec.get("faults"):
            base = spec["faults"](random.Random(1)) if rnd == 0 else []
            if base: cases += prepare(F.alloc_faults(base, lambda cs: D.run(drv, cs)), pid + ".f.")
        v, st, obs, res = run_judge(drv, cases, spec["asp"])
        tot["cases"] += len(v); tot["states"] += st[0]; tot["distinct"] += st[1]; tot["fuzzy"] += st[2]
        tot["calls"] += sum("rec" in x for o in obs.values() for x in o["ops"])
        for k, n in statuses(obs).items(): stat[k] = stat.get(k, 0) + n
        seen |= {fingerprint(c) for c in cases}
        if not sample: sample = [dict(id=c["id"], ops=[o["op"] for o in c["ops"]]) for c in random.Random(0).sample(cases, min(3, len(cases)))]
        rej = [k for k in v if v[k] is not None]
        for cid in rej[:12]:
            grp = closure(cases, cid)
            v2, _, _, _ = run_judge(drv, grp, spec["asp"], jobs=1)
            if v2.get(cid) is None: continue               # not repeatable: not reported
            fp = fingerprint(grp[-1])
            if fp in find: hit.add(fp); continue
            path = os.path.join(D.CACHE, "replay", "%s-%s.json" % (pid, fp)); os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump(dict(property=pid, asp=spec["asp"], cases=grp, id=cid, rejected=v2[cid]), open(path, "w"))
            bad.append((cid, path, v2[cid]))
        rnd += 1
        if bad or tier == "quick" or (time.time() - t0) * (rnd + 1) / rnd > budget: break
    for fp in find:
        if fp in hit: print("KNOWN-FINDING: property=%s %s" % (pid, find[fp]))
    for cid, path, why in bad:
        print("%s: %s" % (cid, " | ".join(why[:3])[:1500]))
    for cid, path, why in bad[:1]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"] + sum(m["states"] for m in tot["models"]), transitions=tot["states"] + sum(m["transitions"] for m in tot["models"]),
                            traces_validated_against_impl=tot["cases"], distinct_histories=len(seen), api_calls_judged=tot["calls"], solves_by_status=stat,
                            solves_checked_without_predicted_iterates=tot["fuzzy"], aspects=spec["asp"], models=tot["models"], rounds=rnd, samples=sample),
              assumptions=["problems with at most 9 variables and constraints", "library built with the MKL algebra, double precision, OSQPInt = long long"], wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d histories (%d calls) executed and judged, %d states, %d solves not predicted, verdicts %s, %.1f s" % (pid, tier, tot["cases"], tot["calls"], tot["states"], tot["fuzzy"], stat, time.time() - t0))
    return 1 if bad else 0

def replay(path):
    T.compile_java(); d = json.load(open(path)); drv = D.build()
    v, st, obs, res = run_judge(drv, d["cases"], d["asp"], jobs=1)
    w = v[d["id"]]
    print("accepted" if w is None else "rejected:\n  " + "\n  ".join(w[:10]))
    if w is not None: print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 0 if w is None else 1

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except Exception as e:                       # an error of the check, not of the library
        traceback.print_exc(); print("TOOL-ERROR", e); sys.exit(2)
