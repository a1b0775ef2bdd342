------------------------------ MODULE OsqpTrace ------------------------------
(* The library as a state machine over API calls, and its conformance with recorded executions.

   A case is a history of API calls together with what each call was observed to do (return value, info, solution,
   settings, console output, time passed, memory and handles held, signal disposition).  The specification executes the
   history: slots hold solver states, a solve is a sequence of ADMM-iteration transitions that end as OsqpLoop says.
   Where the specification admits several behaviours (a test decided by rounding) all of them are explored.  A recorded
   call is compared with the behaviour's result aspect by aspect; a behaviour that disagrees ends there.  The case
   conforms iff some behaviour reaches the end of the history (an ACCEPT line).  *)
EXTENDS OsqpCheck, OsqpLoop, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, sl, env, fl
vars == <<c, i, sl, env, fl>>

NoSolver == [live |-> FALSE, taint |-> FALSE]
NoFl == [on |-> FALSE]
Env0 == [sym |-> Zero, fac |-> Zero, iter |-> Zero, list |-> <<>>, sigat |-> 0, sigpol |-> FALSE, app |-> 0, scribbled |-> {}]
Case == Cases[c]
Op   == Case.ops[i]
Asp  == {Case.asp[k] : k \in 1..Len(Case.asp)}

\* ------------------------------------------------------------------ comparison bookkeeping
\* a failed comparison of aspect a is printed (for the diagnosis) and makes the behaviour end; aspects outside of the
\* case's list are not judged
Chk(a, cond, detail) == IF a \notin Asp \/ cond THEN TRUE ELSE PrintT(<<"MISMATCH", Case.id, i, Op.op, a, detail>>) /\ FALSE
Fs(v) == FStr(v)
Vs(v) == [k \in 1..Len(v) |-> FStr(v[k])]

\* ------------------------------------------------------------------ solver states
SetOf(o) == Override(DefaultSettings, o.set)
Rescale(s) ==     \* the scaled problem of the user data of s, iterates kept in the user's units
  LET sc == Scaling(s.uP, s.uA, s.uq, s.st.scaling)
      ux == VMul(s.D, s.x)  uz == VMul(VRecip(s.E), s.z)  uy == VScale(FDiv(One, s.c), VMul(s.E, s.y))
  IN [s EXCEPT !.P = sc.P, !.A = sc.A, !.q = sc.q, !.D = sc.D, !.E = sc.E, !.c = sc.c, !.l = VMul(sc.E, s.ul), !.u = VMul(sc.E, s.uu),
               !.x = VMul(VRecip(sc.D), ux), !.z = VMul(sc.E, uz), !.y = VScale(sc.c, VMul(VRecip(sc.E), uy)),
               !.ex = VMul(VRecip(sc.D), VMul(s.D, s.ex)), !.ez = VMul(sc.E, VMul(VRecip(s.E), s.ez)),
               !.ey = VScale(FDiv(sc.c, s.c), VMul(VRecip(sc.E), VMul(s.E, s.ey))), !.resc = TRUE,
               !.fzs = sc.edge]
NewSolver(p, st0) ==
  LET n == p.sn m == p.sm
      st == [st0 EXCEPT !.rho = ClipRho(st0.rho),
                        !.adaptive_rho_interval = InitInterval(st0.adaptive_rho, st0.adaptive_rho_interval, st0.check_termination)]
      b == [live |-> TRUE, taint |-> FALSE, n |-> n, m |-> m, uP |-> Ents(n, n, p.P, TRUE), uA |-> Ents(m, n, p.A, FALSE),
            uq |-> p.q, ul |-> p.l, uu |-> p.u, pE |-> p.P, aE |-> p.A, P |-> <<>>, A |-> <<>>, q |-> <<>>, l |-> <<>>, u |-> <<>>,
            D |-> VFill(n, One), E |-> VFill(m, One), c |-> One, ctype |-> <<>>, x |-> VFill(n, Zero), y |-> VFill(m, Zero), z |-> VFill(m, Zero),
            dx |-> VFill(n, Zero), dy |-> VFill(m, Zero), nx |-> Zero, ny |-> Zero,
            ex |-> VFill(n, Zero), ez |-> VFill(m, Zero), ey |-> VFill(m, Zero), vst |-> st, resc |-> FALSE, rmax |-> ClipRho(st0.rho), st |-> st, fzs |-> FALSE, fzi |-> FALSE, fzk |-> FALSE,
            first |-> TRUE, clr |-> FALSE, upT |-> Zero, seT |-> Zero, kkt |-> INFTY, kke |-> Zero, status |-> StUnsolved, inacStop |-> FALSE,
            polished |-> FALSE, fresh |-> FALSE, ind |-> FALSE, sh |-> <<>>, cg |-> CgStart, info |-> <<>>, sol |-> <<>>, nnz |-> Len(p.P) + Len(p.A)]
      s == Rescale(b)
  IN [s EXCEPT !.ctype = ConstrType(s.l, s.u), !.resc = FALSE, !.ind = s.st.linsys_solver = 1 /\ Indefinite(s)]
Fz(s) == s.fzs \/ s.fzi
ColdS(s) == [Cold(s) EXCEPT !.fzi = FALSE]
LoopS(s) == [max_iter |-> s.st.max_iter, check_termination |-> s.st.check_termination, verbose |-> s.st.verbose = 1,
             adaptive_rho |-> s.st.adaptive_rho, polishing |-> s.st.polishing = 1]
UserX(s) == VMul(s.D, s.x)
UserY(s) == VScale(FDiv(One, s.c), VMul(s.E, s.y))

\* ------------------------------------------------------------------ what every call must leave as it was
IntFields == Fields \ {"rho", "sigma", "alpha", "cg_tol_fraction", "adaptive_rho_fraction", "adaptive_rho_tolerance", "eps_abs",
  "eps_rel", "eps_prim_inf", "eps_dual_inf", "time_limit", "delta"}
SettingsDiff(want, got) == {f \in Fields \ {"rho"} : want[f] # got[f]}
TimeEq(a, b) == Near(a, b, FAdd(C("1e-9"), FMul(C("1e-9"), FAbs(b))))
InfoFields == {"status", "status_val", "status_polish", "iter", "rho_updates", "obj_val", "dual_obj_val", "prim_res", "dual_res",
  "duality_gap", "rho_estimate", "setup_time", "solve_time", "update_time", "polish_time", "run_time", "rel_kkt_error"}
InfoDiff(a, b) == {f \in InfoFields : a[f] # b[f]}
SameSol(a, b) == a = b
Common(r) ==
  /\ Chk("intact", r.intact = 1, "caller memory modified")
  /\ Chk("mem", r.badfree = 0, "invalid free") /\ Chk("mem", r.overrun = 0, "write beyond a block")
  /\ Chk("sig", r.hok = 1, "SIGINT disposition changed") /\ Chk("sig", r.appsigs = env.app, <<"signals seen by the application", r.appsigs, env.app>>)
Silent(r) == Chk("out", r.out.silent, "output although nothing should be printed")
\* after a call that leaves a live solver s (model) behind
SlotOk(s, r) ==
  /\ Chk("have", r.have = 1 /\ r.hasst /\ r.hasinfo, "solver object missing")
  /\ r.have = 1 /\ r.hasst /\ r.hasinfo =>
     /\ LET d == SettingsDiff(s.st, r.st) IN Chk("settings", d = {}, <<"settings", d>>)
     /\ (~Fz(s) => Chk("rho", NearRel(s.st.rho, r.st.rho, "1e-5"), <<"rho", Fs(s.st.rho), Fs(r.st.rho)>>))
     /\ Chk("rho", FLe(RHO_MIN, r.st.rho) /\ FLe(r.st.rho, RHO_MAX), <<"rho out of its limits", Fs(r.st.rho)>>)
     /\ Chk("status", r.info.status = StatusText[r.info.status_val], <<"status text", r.info.status>>)
     /\ Chk("have", r.hassol = (s.st.allocate_solution = 1), "solution object")
Resync(s, r) == [s EXCEPT !.st.rho = r.st.rho, !.rmax = FMax(@, r.st.rho), !.info = r.info, !.sol = IF r.hassol THEN r.sol ELSE <<>>]

\* a call that must not change the results of the last solve
FrozenSol(s, r) == Chk("frozen", s.st.allocate_solution = 0 \/ SameSol(r.sol, s.sol), "solution vectors changed")
FrozenInfo(s, r, except) == LET d == InfoDiff(s.info, r.info) \ except IN Chk("frozen", d = {}, <<"info changed", d>>)

\* the record of the same call in a twin case
\* (near: two solvers that are only required to reach the same verdict and solution up to a tolerance)
TwinOk(o) == IF ~o.tw.has THEN TRUE ELSE IF o.tw.near THEN
  /\ Chk("tw", o.rec.ret = o.tw.ret, <<"return value differs from the twin", o.rec.ret, o.tw.ret>>)
  \* (an adaptive step size may cycle: then one of the two can run into its iteration limit)
  /\ Chk("tw", o.rec.hasinfo = o.tw.hasinfo /\ (o.rec.hasinfo => o.rec.info.status_val = o.tw.info.status_val \/
             (o.rec.st.adaptive_rho # 0 /\ StMaxIter \in {o.rec.info.status_val, o.tw.info.status_val})), "verdict differs from the twin")
  /\ (o.rec.hassol /\ o.tw.hassol /\ o.rec.info.status_val = o.tw.info.status_val /\ o.tw.info.status_val \in {StSolved, StSolvedInac} =>
       LET t(v) == FMul(o.tw.tol, FAdd(One, VNorm(v))) IN
       Chk("tw", VNear(o.rec.sol.x, o.tw.sol.x, t(o.tw.sol.x)), <<"solution differs from the twin", Vs(o.rec.sol.x), Vs(o.tw.sol.x)>>))   \* multipliers need not be unique
  ELSE
  /\ Chk("tw", o.rec.ret = o.tw.ret, <<"return value differs from the twin", o.rec.ret, o.tw.ret>>)
  /\ Chk("tw", o.rec.hassol = o.tw.hassol /\ (o.rec.hassol => o.rec.sol = o.tw.sol), "solution differs from the twin")
  /\ Chk("tw", o.rec.hasinfo = o.tw.hasinfo /\ (o.rec.hasinfo =>
        LET d == InfoDiff(o.rec.info, o.tw.info) \ {o.tw.ignore[k] : k \in 1..Len(o.tw.ignore)} IN d = {}), <<"info differs from the twin",
        IF o.rec.hasinfo /\ o.tw.hasinfo THEN InfoDiff(o.rec.info, o.tw.info) ELSE {}>>)

\* ------------------------------------------------------------------ steps
Advance(sl1, env1) == i' = i + 1 /\ sl' = sl1 /\ env' = [env1 EXCEPT !.sigat = 0, !.sigpol = FALSE] /\ fl' = NoFl /\ UNCHANGED c
Put(s) == [sl EXCEPT ![Op.s] = s]
Cur == sl[Op.s]

\* ---- directives of the harness
Directive ==
  /\ Op.op \in {"clock", "iterlist", "advance", "failat", "failfrom", "sigat", "sigpol", "sigint", "scribble"}
  /\ i' = i + 1 /\ UNCHANGED <<c, sl, fl>>
  /\ env' = CASE Op.op = "clock"    -> [env EXCEPT !.sym = Op.sym, !.fac = Op.fac, !.iter = Op.iter]
              [] Op.op = "iterlist" -> [env EXCEPT !.list = Op.v]
              [] Op.op = "sigat"    -> [env EXCEPT !.sigat = Op.v]
              [] Op.op = "sigpol"   -> [env EXCEPT !.sigpol = TRUE]
              [] Op.op = "sigint"   -> [env EXCEPT !.app = @ + 1]
              [] OTHER -> env

\* ---- an injected allocation failure hit this call and the call reported it
FailedAlloc(r) == r.failed > 0 /\ r.ret # 0
TaintStep ==
  /\ Common(Op.rec)
  /\ Advance(Put([live |-> FALSE, taint |-> TRUE]), env)

\* ---- calls without a solver (NULL)
NullStep ==
  LET r == Op.rec
      want == CASE Op.op = "cleanup" -> 0 [] Op.op \in {"cold", "dims", "unsupported"} -> 0 [] OTHER -> ErrNotInit
  IN /\ Common(r)
     /\ Chk("ret", r.ret = want, <<"return value", r.ret, want>>)
     /\ (Op.op = "dims" => Chk("ret", r.aux.m = -1 /\ r.aux.n = -1, "dimensions of a missing solver"))
     /\ (Op.op = "unsupported" => Chk("ret", \A k \in 1..4 : r.aux.rets[k] \in {ErrNotImpl, ErrNotInit}, "unsupported function"))
     /\ Chk("mem", r.live = 0 /\ r.handles = 0, "memory held for a missing solver")
     /\ Advance(sl, env)

\* ---- setup
\* the settings shown when output is on are those in use
OnOff(b) == IF b = 0 THEN "off" ELSE "on"
Header(s, h) ==
  LET t == s.st
      ok(nm, got, want) == Chk("out", got = want, <<"setup output", nm, got, want>>)
  IN t.verbose = 0 \/
     /\ ok("eps_abs", h.eps_abs, FFmt("%.1e", t.eps_abs)) /\ ok("eps_rel", h.eps_rel, FFmt("%.1e", t.eps_rel))
     /\ ok("eps_prim_inf", h.eps_prim_inf, FFmt("%.1e", t.eps_prim_inf)) /\ ok("eps_dual_inf", h.eps_dual_inf, FFmt("%.1e", t.eps_dual_inf))
     /\ ok("rho", h.rho, FFmt("%.2e", t.rho)) /\ ok("sigma", h.sigma, FFmt("%.2e", t.sigma)) /\ ok("alpha", h.alpha, FFmt("%.2f", t.alpha))
     /\ ok("adaptive rho", h.adapt, CASE t.adaptive_rho = AdOff -> "disabled" [] t.adaptive_rho = AdTime -> "time"
                                      [] t.adaptive_rho = AdKkt -> "kkt error, interval " \o ToString(t.adaptive_rho_interval) [] OTHER -> ToString(t.adaptive_rho_interval) \o " iterations")
     /\ ok("max_iter", h.max_iter, ToString(t.max_iter))
     /\ ok("check_termination", h.check, IF t.check_termination = 0 THEN "off" ELSE "on (interval " \o ToString(t.check_termination) \o ", duality gap: " \o OnOff(t.check_dualgap) \o ")")
     /\ ok("time_limit", h.time_limit, FFmt("%.2e", t.time_limit))
     /\ ok("scaling", h.scaling, IF t.scaling = 0 THEN "off" ELSE "on (" \o ToString(t.scaling) \o " iterations)")
     /\ ok("scaled_termination", h.scaled_termination, OnOff(t.scaled_termination)) /\ ok("warm starting", h.warm, OnOff(t.warm_starting)) /\ ok("polishing", h.polishing, OnOff(t.polishing))
     /\ ok("linear solver", h.solver, IF t.linsys_solver = 1 THEN "Pardiso" ELSE "MKL RCI Conjugate Gradient - " \o (IF t.cg_precond = 0 THEN "No" ELSE "Diagonal") \o " preconditioner")
SetupStep ==
  LET r == Op.rec
      p == Case.probs[Op.p + 1]
      st == SetOf(Op)
      dataOk == ValidProblem(p)
      setOk  == ~Op.nullset /\ ValidSetup(st)
      s0 == IF dataOk /\ setOk THEN NewSolver(p, st) ELSE NoSolver
      cvx == IF dataOk /\ setOk THEN IF st.linsys_solver = 1 THEN Convexity(s0) ELSE "edge" ELSE "none"
      want == IF ~dataOk THEN {ErrData} ELSE IF ~setOk THEN {ErrSettings}
              ELSE IF st.linsys_solver = 2 THEN {0} ELSE CASE cvx = "definite" -> {0} [] cvx = "indefinite" -> {ErrNonCvx} [] OTHER -> {0, ErrNonCvx}
  IN /\ Common(r)
     /\ Chk("ret", r.ret \in want, <<"return value of setup", r.ret, want>>)
     /\ IF r.ret = 0 /\ dataOk /\ setOk
        THEN LET s1 == [s0 EXCEPT !.seT = r.dt] IN
             /\ SlotOk(s1, r)
             /\ Chk("status", r.info.status_val = StUnsolved, "status after setup")
             /\ Chk("polish", r.info.status_polish = PolNone, "polish status after setup")
             /\ Chk("times", TimeEq(r.info.setup_time, r.dt), <<"setup time", Fs(r.info.setup_time), Fs(r.dt)>>)
             /\ Chk("times", r.info.update_time = Zero /\ r.info.solve_time = Zero /\ r.info.polish_time = Zero /\ r.info.run_time = Zero, "times after setup")
             /\ Chk("out", IF st.verbose = 0 THEN r.out.silent ELSE r.out.header /\ r.out.nvars = s1.n /\ r.out.ncons = s1.m /\ r.out.nnz = s1.nnz, "setup output")
             /\ Header(s1, r.out.hs)
             /\ Chk("rho", r.info.rho_updates = 0, "rho updates after setup")
             /\ Advance(Put(Resync(s1, r)), env)
        ELSE /\ Chk("mem", (r.ret \in {ErrData, ErrSettings}) => r.have = 0 /\ r.live = 0 /\ r.handles = 0, "a rejected setup left something behind")
             /\ ((r.ret = ErrNonCvx /\ r.have = 1 /\ r.hasinfo) => Chk("status", r.info.status_val = StNonCvx /\ r.info.status = StatusText[StNonCvx], "status of a non-convex problem"))
             /\ Advance(Put([live |-> FALSE, taint |-> r.have = 1]), env)

\* ---- cleanup
CleanupStep ==
  LET r == Op.rec IN
  /\ Common(r) /\ Chk("ret", r.ret = 0, <<"cleanup failed", r.ret>>)
  /\ Chk("mem", r.live = 0, <<"blocks not freed", r.live>>) /\ Chk("mem", r.handles = 0, <<"handles not released", r.handles>>)
  /\ Silent(r)
  /\ Advance(Put(NoSolver), env)

\* ---- update_data_vec
AcceptedInfo(s, r) ==
  /\ Chk("status", r.info.status_val = StUnsolved, <<"status after an update", r.info.status_val>>)
  /\ Chk("polish", r.info.status_polish = PolNone, "polish status after an update")
  /\ Chk("times", r.info.solve_time = Zero /\ r.info.polish_time = Zero /\ TimeEq(r.info.setup_time, s.seT), "times after an update")

UpdVecStep ==
  LET r  == Op.rec  s == Cur
      l1 == IF Op.hl THEN Op.l ELSE s.ul   u1 == IF Op.hu THEN Op.u ELSE s.uu
      \* comparison in the scaled units the library uses: equal bounds stay equal
      \* (the stored data of a solver whose matrices were updated is exact up to rounding only)
      cross == (Op.hl \/ Op.hu) /\ ~(\A k \in 1..s.m : FLe(l1[k], u1[k]))
      near == s.resc /\ (Op.hl # Op.hu) /\ \A k \in 1..s.m : FLe(l1[k], u1[k]) \/ NearRel(l1[k], u1[k], "1e-12")
      tie == near /\ \E k \in 1..s.m : NearRel(l1[k], u1[k], "1e-12")
      bad == IF tie THEN r.ret # 0 ELSE cross
      b  == ClearUp(s, Zero)
      ls == VMul(s.E, l1)  us == VMul(s.E, u1)
      good == [DataAccepted(b, FAdd(b.upT, r.dt)) EXCEPT !.ul = l1, !.uu = u1, !.l = ls, !.u = us,
                        !.ctype = IF Op.hl \/ Op.hu THEN ConstrType(ls, us) ELSE @,
                        !.uq = IF Op.hq THEN Op.q ELSE @, !.q = IF Op.hq THEN VScale(s.c, VMul(s.D, Op.q)) ELSE @]
      s1 == IF bad THEN b ELSE good
  IN /\ Common(r)
     /\ Chk("ret", (r.ret # 0) = bad /\ (bad => r.ret = ErrData), <<"return value", r.ret, bad>>)
     /\ (r.ret = 0 => Silent(r))
     /\ SlotOk(s1, r) /\ FrozenSol(s, r)
     /\ (bad => FrozenInfo(s, r, {"update_time"}))
     /\ (~bad => AcceptedInfo(s, r))
     /\ Chk("times", TimeEq(r.info.update_time, s1.upT), <<"update time", Fs(r.info.update_time), Fs(s1.upT)>>)
     /\ TwinOk(Op)
     /\ Advance(Put(Resync(s1, r)), env)
\* ---- update_data_mat
UpdMatStep ==
  LET r == Op.rec  s == Cur
      nP == Len(s.pE)  nA == Len(s.aE)
      badP == Op.Pn > nP \/ Op.Pn < 0 \/ (~Op.hPi /\ Op.Pn # 0 /\ Op.Pn # nP)
      badA == Op.An > nA \/ Op.An < 0 \/ (~Op.hAi /\ Op.An # 0 /\ Op.An # nA)
      cnt(k, full) == IF k = 0 THEN full ELSE k
      new(E, has, hasi, vals, idx, k) == IF ~has THEN E ELSE
        Tup([e \in 1..Len(E) |->
           IF ~hasi THEN IF e <= cnt(k, Len(E)) THEN <<E[e][1], E[e][2], vals[e]>> ELSE E[e]
           ELSE LET S == {j \in 1..cnt(k, Len(E)) : idx[j] = e - 1} IN IF S = {} THEN E[e] ELSE <<E[e][1], E[e][2], vals[CHOOSE j \in S : \A j2 \in S : j2 <= j]>>])
      b == ClearUp(s, Zero)
      pE == new(s.pE, Op.hPx, Op.hPi, Op.Px, Op.Pi, Op.Pn)
      aE == new(s.aE, Op.hAx, Op.hAi, Op.Ax, Op.Ai, Op.An)
      good == Rescale([DataAccepted(b, FAdd(b.upT, r.dt)) EXCEPT !.pE = pE, !.aE = aE, !.uP = Ents(s.n, s.n, pE, TRUE), !.uA = Ents(s.m, s.n, aE, FALSE)])
      s1 == IF badP \/ badA THEN b ELSE good
  IN /\ Common(r)
     /\ Chk("ret", r.ret = (IF badP THEN 1 ELSE IF badA THEN 2 ELSE 0), <<"return value", r.ret, badP, badA>>)
     /\ (r.ret = 0 => Silent(r))
     /\ SlotOk(s1, r) /\ FrozenSol(s, r)
     /\ (badP \/ badA => FrozenInfo(s, r, {"update_time"}))
     /\ (~(badP \/ badA) => AcceptedInfo(s, r))
     /\ Chk("times", TimeEq(r.info.update_time, s1.upT), <<"update time", Fs(r.info.update_time), Fs(s1.upT)>>)
     /\ TwinOk(Op)
     /\ Advance(Put(Resync(s1, r)), env)

\* ---- warm / cold start, rho, settings
WarmStep ==
  LET r == Op.rec  s == Cur
      x1 == IF Op.hx THEN VMul(VRecip(s.D), Op.x) ELSE s.x
      s1 == [Started(s) EXCEPT !.st.warm_starting = 1, !.x = x1, !.z = IF Op.hx THEN MMulV(s.A, x1) ELSE @, !.ex = IF Op.hx THEN VFill(s.n, Zero) ELSE @, !.ez = IF Op.hx THEN VFill(s.m, Zero) ELSE @, !.ey = IF Op.hy THEN VFill(s.m, Zero) ELSE @,
                      !.y = IF Op.hy THEN VScale(s.c, VMul(VRecip(s.E), Op.y)) ELSE @,
                      !.fzi = IF Op.hx /\ (Op.hy \/ s.m = 0) THEN FALSE ELSE @]
  IN /\ Common(r) /\ Chk("ret", r.ret = 0, <<"return value", r.ret>>) /\ Silent(r)
     /\ SlotOk(s1, r) /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {}) /\ TwinOk(Op)
     /\ Advance(Put(Resync(s1, r)), env)
ColdStep ==
  LET r == Op.rec  s == Cur  s1 == Started(ColdS(s)) IN
  /\ Common(r) /\ Silent(r) /\ SlotOk(s1, r) /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {}) /\ TwinOk(Op)
  /\ Advance(Put(Resync(s1, r)), env)
RhoStep ==
  LET r == Op.rec  s == Cur  ok == FLt(Zero, Op.rho)
      b == ClearUp(s, Zero)
      s1 == IF ok THEN [RhoAccepted(b, FAdd(b.upT, r.dt)) EXCEPT !.st.rho = ClipRho(Op.rho)] ELSE s
  IN /\ Common(r) /\ Chk("ret", (r.ret = 0) = ok, <<"return value", r.ret>>) /\ (ok => Silent(r))
     /\ SlotOk(s1, r) /\ Chk("rho", NearRel(r.st.rho, s1.st.rho, "1e-12"), <<"rho", Fs(r.st.rho), Fs(s1.st.rho)>>)
     /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {"update_time"})
     /\ Chk("times", TimeEq(r.info.update_time, s1.upT), <<"update time", Fs(r.info.update_time), Fs(s1.upT)>>) /\ TwinOk(Op)
     /\ Advance(Put(Resync(s1, r)), env)
SettingsStep ==
  LET r == Op.rec  s == Cur
      want == [f \in Fields |-> IF f \in DOMAIN Op.set THEN Op.set[f] ELSE s.st[f]]
      ok == ~Op.nullset /\ ValidUpdate(want)
      s1 == IF ok THEN [s EXCEPT !.st = [f \in Fields |-> IF f \in RunFields THEN want[f] ELSE s.st[f]]] ELSE s
  IN /\ Common(r) /\ Chk("ret", r.ret = (IF ok THEN 0 ELSE ErrSettings), <<"return value", r.ret, ok>>)
     /\ (ok /\ s.st.verbose = 0 /\ s1.st.verbose = 0 => Silent(r))
     /\ SlotOk(s1, r) /\ Chk("rho", r.st.rho = s.st.rho, "rho changed by a settings update")
     /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {}) /\ TwinOk(Op)
     /\ Advance(Put(Resync(s1, r)), env)

\* ---- queries
\* what the solver would hand out now: the stored solution when nothing happened since the solve, the current iterates otherwise
PTol(v, w, e) == FAdd(FAdd(FMul(C("1e-6"), FMax(VNorm(v), VNorm(w))), C("1e-9")), VNorm(e))
UserEx(s) == VMul(s.D, s.ex)
UserEy(s) == VScale(FDiv(One, s.c), VMul(s.E, s.ey))
PointOk(s, g) ==
  /\ Chk("xy", VNear(g.x, UserX(s), PTol(g.x, UserX(s), UserEx(s))), <<"x", Vs(g.x), Vs(UserX(s))>>)
  /\ Chk("xy", VNear(g.y, UserY(s), PTol(g.y, UserY(s), UserEy(s))), <<"y", Vs(g.y), Vs(UserY(s))>>)
Sound(s, g, info) ==
  /\ (s.status \in {StSolved, StSolvedInac} => Chk("soundS", SoundSolved(s, g, s.status = StSolvedInac, s.polished), <<"criteria not met", s.status>>))
  /\ (s.status \in {StPinf, StPinfInac} => Chk("soundI", SoundPinf(s, g.pc, s.status = StPinfInac), <<"primal certificate", Vs(g.pc)>>))
  /\ (s.status \in {StDinf, StDinfInac} => Chk("soundI", SoundDinf(s, g.dc, s.status = StDinfInac), <<"dual certificate", Vs(g.dc)>>))
  /\ (HasSol(s.status) => Chk("info", InfoOfPoint(s, g, info) = {}, <<"info of the returned point", InfoOfPoint(s, g, info), Fs(info.obj_val), Fs(info.dual_obj_val), Fs(info.prim_res), Fs(info.dual_res)>>))
GotOk(s, g) ==
  /\ Chk("store", Stored(s.status, g), <<"kind of vectors returned", s.status>>)
  /\ (s.fresh /\ s.st.allocate_solution = 1 => Chk("store", g.x = s.sol.x /\ g.y = s.sol.y /\ VNear(g.pc, s.sol.pc, C("1e-9")) /\ VNear(g.dc, s.sol.dc, C("1e-9")), "osqp_get_solution differs from the stored solution"))
  /\ (HasSol(s.status) /\ ~Fz(s) => PointOk(s, g))
  /\ (~HasSol(s.status) /\ s.st.allocate_solution = 1 /\ s.sol # <<>> =>
        Chk("store", VNear(g.pc, s.sol.pc, C("1e-9")) /\ VNear(g.dc, s.sol.dc, C("1e-9")), "certificate changed"))
  /\ (s.fresh => Sound([s EXCEPT !.st = s.vst], g, s.info))
GetStep ==
  LET r == Op.rec  s == Cur IN
  /\ Common(r) /\ (Op.null = 0 => Silent(r))
  /\ Chk("ret", (r.ret = 0) = (Op.null = 0), <<"return value", r.ret>>)
  /\ SlotOk(s, r) /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {})
  /\ (Op.null = 0 => GotOk(s, r.aux))
  /\ TwinOk(Op)
  /\ Advance(Put(Resync(s, r)), env)
DimsStep ==
  LET r == Op.rec  s == Cur IN
  /\ Common(r) /\ Silent(r) /\ Chk("ret", r.aux.m = s.m /\ r.aux.n = s.n, "dimensions")
  /\ SlotOk(s, r) /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {})
  /\ Advance(Put(Resync(s, r)), env)
UnsStep ==
  LET r == Op.rec  s == Cur IN
  /\ Common(r) /\ Chk("ret", \A k \in 1..4 : r.aux.rets[k] = ErrNotImpl, <<"unsupported functions", r.aux.rets>>)
  /\ SlotOk(s, r) /\ FrozenSol(s, r) /\ FrozenInfo(s, r, {})
  /\ Advance(Put(Resync(s, r)), env)

\* ---- calls without any object
ErrText == <<"Problem data validation.", "Solver settings validation.", "Linear system solver initialization.",
  "KKT matrix factorization.\nThe problem seems to be non-convex.", "Memory allocation.", "Solver workspace not initialized.",
  "Algebra libraries not loaded.", "Unable to open file for writing.", "Invalid defines for codegen", "Vector/matrix not initialized.",
  "Function not implemented.", "Unknown error code.">>
ErrStep ==
  LET r == Op.rec IN
  /\ Common(r)
  /\ Chk("ret", r.aux.null = 0 /\ r.aux.msg = ErrText[IF Op.v \in 1..11 THEN Op.v ELSE 12], <<"error message", Op.v, r.aux.msg>>)
  /\ Advance(sl, env)
IntroStep ==
  LET r == Op.rec IN
  /\ Common(r)
  /\ Chk("ret", r.aux.cap = 1 + 2 + 8, <<"capabilities", r.aux.cap>>)     \* direct, indirect, matrix updates
  /\ Chk("ret", r.aux.ver = "1.0.0", <<"version", r.aux.ver>>)
  /\ Chk("settings", r.aux.st = DefaultSettings /\ r.aux.st2 = DefaultSettings, <<"defaults", {f \in Fields : r.aux.st[f] # DefaultSettings[f]}>>)
  /\ Chk("settings", r.aux.same = 1 /\ r.aux.cg[1] \in {1, 2} /\ \A k \in 2..6 : r.aux.cg[k] \in {0, 1}, "default codegen defines")
  /\ Chk("mem", r.live = 0, "memory not released")
  /\ Advance(sl, env)
CscStep ==
  LET r == Op.rec  a == r.aux  mn == IF Op.m < Op.n THEN Op.m ELSE Op.n
      dg == Op.kind \in {"scalar", "vec", "identity"}
      wp == IF dg THEN Tup([j \in 1..(Op.n + 1) |-> IF j - 1 < mn THEN j - 1 ELSE mn])
            ELSE IF Op.kind = "zeros" THEN Tup([j \in 1..(Op.n + 1) |-> 0]) ELSE Op.pp
      wi == IF dg THEN Tup([k \in 1..mn |-> k - 1]) ELSE IF Op.kind = "zeros" THEN <<>> ELSE Op.ri
      wx == CASE Op.kind = "scalar" -> VFill(mn, Op.v) [] Op.kind = "vec" -> Op.v [] Op.kind = "identity" -> VFill(mn, One)
              [] Op.kind = "zeros" -> <<>> [] OTHER -> Op.v
  IN /\ Common(r) /\ Silent(r)
     /\ IF a.null = 1 THEN Chk("ret", r.failed > 0, "no matrix returned")
        ELSE /\ Chk("ret", a.m = Op.m /\ a.n = Op.n /\ a.nz = -1, <<"dimensions", a.m, a.n, a.nz>>)
             /\ Chk("ret", a.p = wp, <<"column pointers", a.p, wp>>)
             /\ Chk("ret", a.ri = wi, <<"row indices", a.ri, wi>>)
             /\ Chk("ret", a.x = wx, <<"values", Vs(a.x)>>)
             /\ Chk("ret", a.nzmax = Len(wx), <<"nzmax", a.nzmax, Len(wx)>>)
     /\ Chk("mem", r.live = 0, "memory not released")
     /\ Advance(sl, env)

\* ------------------------------------------------------------------ solve
Cg(s) == s.st.linsys_solver = 2
Cost(k)  == IF k <= Len(env.list) THEN env.list[k] ELSE env.iter
StartSolve ==
  LET s  == Cur
      s1 == IF s.st.warm_starting = 0 THEN ColdS(s) ELSE s
      s2 == [SolveBegins(s1, Zero) EXCEPT !.sh = IF s.ind THEN Displaced(s1) ELSE <<>>]
  IN /\ Op.op = "solve" /\ s.live /\ ~fl.on
     /\ fl' = [on |-> TRUE, ph |-> IF Fz(s2) \/ (s2.fzk /\ s2.st.adaptive_rho = AdKkt) \/ (Cg(s2) /\ Op.rec.cg = <<>>) THEN "fuzzy" ELSE "iter", s |-> s2, cr |-> CrInit(s.st.adaptive_rho_interval), t |-> Zero,
               r |-> <<>>, lv |-> <<>>, rho0 |-> s.st.rho, amb |-> 0, npol |-> 0, pol |-> PolNoActive]
     /\ UNCHANGED <<c, i, sl, env>>
Reached(s, t) == FLe(s.st.time_limit, FAdd(TimeBase(s), t))
LineVal(k, s, r, t) == [k |-> k, obj |-> r.pobj, prim |-> r.prim, dual |-> r.dual, mag |-> r.mag, pn |-> r.pnorm, dn |-> r.dnorm, pe |-> r.pe, de |-> r.de, oe |-> r.oe, rho |-> s.st.rho, gap |-> r.gap, kkt |-> r.kkt, time |-> FAdd(TimeBase(s), t)]
\* right-hand side of the reduced system of the next iteration, its norm and the rounding in it
CgRhs ==
  LET s == fl.s  rho == Rho(s)  rh == AdmmRhs(s, VRecip(rho))
      e1 == VAdd(VScale(s.st.sigma, s.ex), VScale(C("1e-15"), VAdd(VAbs(s.q), VScale(s.st.sigma, VAbs(s.x)))))
      e2 == VAdd(VMul(rho, VAdd(s.ez, VScale(C("1e-15"), VAbs(s.z)))), VAdd(s.ey, VScale(C("1e-15"), VAbs(s.y))))
  IN [r1 |-> rh[1], r2 |-> rh[2], norm |-> RhsNorm(s, s.A, rho, rh[1], rh[2]), err |-> FMul(FInt(2), VNorm(VAdd(e1, MTMulV(s.n, MAbs(s.A), e2))))]
\* the step size the run goes on with after iteration k (recorded from the public settings at each linear solve)
ObsRho(k) ==
  LET L == Op.rec.rl  J == {j \in 1..Len(L) : L[j].k <= k + 1} IN
  IF k >= Op.rec.nsolpre \/ J = {} THEN Op.rec.st.rho ELSE L[CHOOSE j \in J : \A h \in J : h <= j].v
GoesOn(k) == IF Op.rec.info.status_val = StSigint THEN k < Op.rec.nsolpre ELSE k < Op.rec.info.iter
KktErr(r) == FMax(FMax(r.pe, r.de), FAdd(r.oe, FMul(C("1e-13"), r.mag)))
IterStep ==
  LET S   == LoopS(fl.s)
      k   == fl.cr.k + 1
      cg  == Cg(fl.s)
      G   == Op.rec.cg
      g   == G[k]
      cs  == CgTol(fl.s, fl.s.cg, k, CgRhs.norm, CgRhs.err, fl.r)
      s1  == IF cg THEN [CgStep(fl.s, g) EXCEPT !.cg = CgAfter(cs, g)] ELSE AdmmStepD(fl.s)
      t1  == FAdd(fl.t, Cost(k))
      sig == env.sigat = k
      late == Reached(s1, t1)
      frac == FLt(FMul(s1.st.adaptive_rho_fraction, s1.seT), t1)
      iv  == NextInterval(S, fl.cr.interval, k, frac)
      stop == sig \/ late
      up  == ~stop /\ Updates(S, iv, k)
      ck  == ~stop /\ Checks(S, k)
      ad  == ~stop /\ Adapts(S, iv, k)
      r   == IF up THEN ResidOf(s1) ELSE <<>>
      V0   == IF ck THEN Verdicts(s1, r, FALSE) ELSE {"none"}
      Vset == IF "none" \notin V0 \/ V0 = {"none"} THEN V0          \* where rounding decides, the run decides
              ELSE IF GoesOn(k) THEN {"none"} ELSE IF k < S.max_iter THEN V0 \ {"none"} ELSE V0
      K0   == IF ad /\ S.adaptive_rho = AdKkt
              THEN {~b : b \in LtSet(FMul(s1.st.adaptive_rho_fraction, s1.kkt), r.kkt, FAdd(C("1e-13"), FAdd(KktErr(r), FMul(s1.st.adaptive_rho_fraction, s1.kke))))} ELSE {TRUE}
      est == IF ad THEN RhoEstimate(s1, r) ELSE Zero
      got == ObsRho(k)                  \* the step size of the next iteration (or at the end)
      Obs == got # s1.st.rho
      H0(kk) == IF ad /\ kk THEN RhoChangeSet(s1, r, est) ELSE {FALSE}
      Hset(kk) == IF Obs \in H0(kk) THEN {Obs} ELSE H0(kk)
      Kset == IF Cardinality(K0) > 1 THEN {Obs} ELSE K0
      many == Cardinality(Vset) > 1
  IN /\ fl.on /\ fl.ph = "iter"
     /\ (cg => Chk("iter", k <= Len(G), <<"the solve ended after an iteration that does not end it", k - 1>>) /\ k <= Len(G))
     /\ (cg => LET f == CgFaults(fl.s, fl.s.A, fl.s.st.sigma, Rho(fl.s), CgRhs.r1, CgRhs.r2, CgRhs.err, g, cs.lo, cs.hi) IN Chk("lin", f = {}, <<k, f>>))
     /\ \E v \in Vset : \E kk \in Kset : \E ch \in Hset(kk) :
       IF many /\ fl.amb >= 5 THEN fl' = [fl EXCEPT !.ph = "fuzzy"]      \* too much hangs on rounding
       ELSE
          LET cr1 == LoopIter(S, fl.cr, [sig |-> sig, late |-> late, frac |-> frac, v |-> v, kkt |-> kk, rho |-> ch])
              chg == cr1.rhoUpdates > fl.cr.rhoUpdates
              new == IF Obs THEN got ELSE est
              s2  == IF chg THEN [s1 EXCEPT !.st.rho = new, !.rmax = FMax(@, new), !.kkt = r.kkt, !.kke = KktErr(r)] ELSE s1
          IN /\ (Chk("rho", chg = Obs, <<"rho changed", k, Obs, Fs(s1.st.rho), Fs(got)>>))
             /\ (chg /\ Obs => Chk("rho", IF RhoNoisy(s1, r) THEN LET g0 == RhoRange(s1, r) IN FLe(g0[1], got) /\ FLe(got, g0[2]) ELSE NearRel(got, est, "1e-5"),
                                      <<"new rho", k, Fs(got), Fs(est)>>))
             /\ fl' = [fl EXCEPT !.s = s2, !.cr = cr1, !.amb = IF many THEN @ + 1 ELSE @, !.t = IF chg /\ ~cg THEN FAdd(t1, env.fac) ELSE t1, !.r = IF up THEN r ELSE @,
                     !.lv = IF Len(cr1.lines) > Len(fl.cr.lines) THEN Append(@, LineVal(k, s2, r, t1)) ELSE @,
                     !.ph = IF cr1.phase = "abort" THEN "abort" ELSE cr1.phase]
     /\ UNCHANGED <<c, i, sl, env>>
\* after the loop
PostStep ==
  LET S == LoopS(fl.s)
      r == IF PostNeedsExact(fl.cr) THEN ResidOf(fl.s) ELSE fl.r
      line(cr0, cr1) == IF Len(cr1.lines) > Len(cr0.lines) THEN Append(fl.lv, LineVal(fl.cr.k, fl.s, r, fl.t)) ELSE fl.lv
  IN /\ fl.on /\ fl.ph = "post"
     /\ \/ /\ PostNeedsExact(fl.cr)
           /\ \E v \in Verdicts(fl.s, r, FALSE) :
                LET cr1 == PostExact(S, fl.cr, v) IN fl' = [fl EXCEPT !.cr = cr1, !.r = r, !.lv = line(fl.cr, cr1)]
        \/ /\ ~PostNeedsExact(fl.cr)
           /\ LET crp == PostPrint(S, fl.cr) IN
              \E v \in (IF PostNeedsApprox(crp) THEN Verdicts(fl.s, r, TRUE) ELSE {"skip"}) :
                LET cr1 == Finish(IF v = "skip" THEN crp ELSE PostApprox(crp, v)) IN
                fl' = [fl EXCEPT !.cr = cr1, !.lv = line(fl.cr, crp), !.ph = IF Polishes(S, cr1) THEN "polish" ELSE "compare"]
     /\ UNCHANGED <<c, i, sl, env>>
StatusOf(cr) == EndStatus(cr.status, cr.inac)
PolishStep ==
  LET G  == Op.rec.cg IN
  /\ fl.on /\ fl.ph = "polish"
  /\ IF PolishAmb(fl.s) THEN fl' = [fl EXCEPT !.ph = "fuzzy"]
     ELSE \E sd \in Sides(fl.s) :
       LET p  == IF Cg(fl.s) THEN CgPolishPoint(fl.s, sd, SubSeq(G, fl.cr.k + 1, Len(G))) ELSE PolishPoint(fl.s, sd)
           pr == ResidOf(p.s)
       IN IF p.out = "noactive" THEN fl' = [fl EXCEPT !.ph = "compare", !.s.polished = FALSE, !.cr = [@ EXCEPT !.phase = "done"]]
          ELSE /\ (Cg(fl.s) => Chk("lin", p.f = {}, <<"polishing", p.f>>))
               /\ \E ok \in PolishSet(fl.s, fl.r, pr) :
                  fl' = [fl EXCEPT !.pol = IF ok THEN PolOk ELSE PolFailed, !.npol = IF Cg(fl.s) THEN p.n ELSE 0, !.ph = "compare",
                                   !.s = IF ok THEN [p.s EXCEPT !.polished = TRUE] ELSE @, !.r = IF ok THEN pr ELSE @]
  /\ UNCHANGED <<c, i, sl, env>>
WantPolish(s, st) ==    \* the polish outcome of the behaviour
  IF ~(s.st.polishing = 1 /\ st = StSolved) THEN PolNone ELSE fl.pol

\* ---- the end of a solve: parts that hold whether or not the iterates are predicted
Footer(s, r, st) ==
  LET o == r.out f == r.info IN
  IF s.st.verbose = 0 THEN Chk("out", o.silent, "output of a silent solve") ELSE
  /\ Chk("out", o.foot /\ o.cols = 1, "footer or column header missing")
  /\ Chk("out", o.status = StatusText[st], <<"footer status", o.status>>)
  /\ Chk("out", o.iters = f.iter, <<"footer iterations", o.iters>>)
  /\ Chk("out", o.polish = (IF s.st.polishing = 1 /\ st = StSolved THEN CASE f.status_polish = PolOk -> "successful" [] f.status_polish < 0 -> "unsuccessful"
                               [] f.status_polish = PolNoActive -> "not needed" [] OTHER -> "" ELSE ""), <<"footer polish", o.polish>>)
  /\ (st \in {StSolved, StSolvedInac} =>
        /\ Chk("out", o.obj = FFmt("%.4f", f.obj_val) /\ o.dobj = FFmt("%.4f", f.dual_obj_val) /\ o.gap = FFmt("%.4e", f.duality_gap), <<"footer objective", o.obj>>))
  /\ Chk("out", o.run = FFmt("%.2e", f.run_time), <<"footer run time", o.run>>)
  /\ Chk("out", o.rhoest = FFmt("%.2e", f.rho_estimate), <<"footer rho estimate", o.rhoest>>)
  /\ Chk("out", Len(o.lines) > 0 /\ o.lines[1].k = 1, "no line for the first iteration")
  /\ Chk("out", \A a \in 1..(Len(o.lines) - 1) : o.lines[a].k < o.lines[a + 1].k, "iteration lines repeated or out of order")
  /\ Chk("out", Len(o.lines) > 0 /\ o.lines[Len(o.lines)].k = f.iter, "no line for the last iteration")
  /\ Chk("out", (o.plsh.has) = (f.status_polish \in {PolOk}) , "polish line")
  /\ (o.plsh.has => Chk("out", o.plsh.prim = FFmt("%.2e", f.prim_res) /\ o.plsh.dual = FFmt("%.2e", f.dual_res) /\ o.plsh.obj = FFmt("%.4e", f.obj_val)
                            /\ o.plsh.gap = FFmt("%.2e", f.duality_gap) /\ o.plsh.err = FFmt("%.2e", f.rel_kkt_error) /\ o.plsh.time = FFmt("%.2e", f.run_time), "values of the polish line"))
  /\ (f.status_polish # PolOk /\ Len(o.lines) > 0 => LET z == o.lines[Len(o.lines)] IN
        Chk("out", z.prim = FFmt("%.2e", f.prim_res) /\ z.dual = FFmt("%.2e", f.dual_res), <<"values of the last line", z.prim, z.dual>>)
        /\ (HasSol(st) => Chk("out", z.gap = FFmt("%.2e", f.duality_gap) /\ z.err = FFmt("%.2e", f.rel_kkt_error), <<"values of the last line", z.gap, z.err>>)))
  /\ Chk("out", f.rho_updates = Cardinality({a \in 1..Len(o.lines) : o.lines[a].mark}), "rho updates not marked")
SolveDone(s, r, st) ==   \* s: state before storing, st: recorded status
  /\ Chk("ret", r.ret = 0, <<"return value", r.ret>>)
  /\ Chk("store", r.hassol => Stored(st, r.sol), <<"stored vectors", st>>)
  /\ Chk("polish", IF s.st.polishing = 1 /\ st = StSolved THEN r.info.status_polish \in {PolOk, PolFailed, PolNoActive, PolLinsys} ELSE r.info.status_polish = PolNone,
         <<"polish status", r.info.status_polish>>)
  /\ (r.hassol => Sound([s EXCEPT !.status = st, !.rmax = FMax(@, r.st.rho), !.polished = r.info.status_polish = PolOk], r.sol, r.info))
  /\ (HasSol(st) => Chk("info", InfoConsistent(r.info), <<"gap / KKT error", Fs(r.info.rel_kkt_error), Fs(r.info.duality_gap)>>))
  /\ (st \in {StPinf, StPinfInac} => Chk("info", r.info.obj_val = INFTY, "objective of a primal infeasible problem"))
  /\ (st \in {StDinf, StDinfInac} => Chk("info", r.info.obj_val = FNeg(INFTY), "objective of a dual infeasible problem"))
  /\ Chk("times", s.st.linsys_solver = 2 \/ TimeEq(r.info.solve_time, r.dtpre), <<"solve time", Fs(r.info.solve_time), Fs(r.dtpre)>>)
  /\ Chk("times", s.st.linsys_solver = 2 \/ TimeEq(r.info.polish_time, r.dtpol), <<"polish time", Fs(r.info.polish_time), Fs(r.dtpol)>>)
  /\ Chk("times", s.st.linsys_solver = 1 \/ TimeEq(FAdd(r.info.solve_time, r.info.polish_time), r.dt), "solve and polish time")
  /\ Chk("times", TimeEq(r.info.setup_time, s.seT) /\ TimeEq(r.info.update_time, s.upT), <<"setup / update time", Fs(r.info.update_time), Fs(s.upT)>>)
  /\ Chk("times", TimeEq(r.info.run_time, FAdd(FAdd(r.info.solve_time, r.info.polish_time), IF s.first THEN r.info.setup_time ELSE r.info.update_time)),
         <<"run time", Fs(r.info.run_time)>>)
  /\ Chk("iter", r.info.iter = r.nsolpre \/ s.st.linsys_solver = 2, <<"iterations reported / performed", r.info.iter, r.nsolpre>>)
  /\ Chk("rho", r.info.rho_updates = 0 => NearRel(r.st.rho, fl.rho0, "1e-12"), "rho changed without being counted")
  /\ Chk("rho", FLe(RHO_MIN, r.info.rho_estimate) /\ FLe(r.info.rho_estimate, RHO_MAX), <<"rho estimate out of its limits", Fs(r.info.rho_estimate)>>)
  /\ Footer(s, r, st)
\* the footer repeats info
\* lines of the behaviour against the printed ones
LineOk(v, z) ==
  LET nr(txt, val, tol) == Near(FLit(txt), val, FAdd(FMul(C("6e-3"), FAbs(val)), tol)) IN
  /\ nr(z.obj, v.obj, FAdd(FAdd(FMul(C("1e-6"), v.mag), C("1e-9")), v.oe)) /\ nr(z.prim, v.prim, FAdd(FAdd(FMul(C("1e-7"), v.pn), C("1e-10")), v.pe))
  /\ nr(z.dual, v.dual, FAdd(FAdd(FMul(C("1e-7"), v.dn), C("1e-10")), v.de)) /\ nr(z.rho, v.rho, Zero)
  /\ nr(z.gap, v.gap, FAdd(FAdd(FMul(C("1e-6"), v.mag), C("1e-9")), v.oe))
  /\ nr(z.err, v.kkt, FAdd(FAdd(FAdd(FMul(C("1e-6"), FAdd(v.mag, FAdd(v.pn, v.dn))), C("1e-9")), v.oe), FAdd(v.pe, v.de)))
  /\ nr(z.time, v.time, C("1e-12"))
LinesOk(s, r) ==
  IF s.st.verbose = 0 THEN TRUE ELSE
  LET o == r.out.lines w == fl.cr.lines IN
  /\ Chk("out", Len(o) = Len(w) /\ \A a \in 1..Len(w) : o[a].k = w[a][1] /\ o[a].mark = w[a][2], <<"iteration lines", [a \in 1..Len(o) |-> <<o[a].k, o[a].mark>>], w>>)
  /\ Chk("out", Len(o) = Len(w) => \A a \in 1..(Len(w) - (IF HasSol(s.status) THEN 0 ELSE 1)) : LineOk(fl.lv[a], o[a]), "values of the iteration lines")

AfterSolve(s, r, st) ==
  LET lost == s.ind /\ \E p \in {<<s.x, s.ex>>, <<s.z, s.ez>>, <<s.y, s.ey>>} : FLt(FMul(C("1e-9"), FAdd(One, VNorm(p[1]))), VNorm(p[2]))
      \* (the iterates of a non-convex problem, once rounding has taken over, are no start to predict from)
      s1 == [SolveEnds(s, st, r.info.status_polish) EXCEPT !.fzi = @ \/ lost]
  IN Resync(IF HasSol(st) THEN s1 ELSE ColdS(s1), r)

\* ---- the solve was predicted exactly
Normed(v) == LET k == VNorm(v) IN IF k = Zero THEN v ELSE VScale(FDiv(One, k), v)
CertP(s) == Normed(VMul(s.E, Polar(s.dy, s.l, s.u)))
CertD(s) == Normed(VMul(s.D, s.dx))

CompareStep ==
  LET r == Op.rec
      st == StatusOf(fl.cr)
      s  == [fl.s EXCEPT !.status = st, !.st.adaptive_rho_interval = fl.cr.interval]
      q  == fl.r
      got == r.info
      ri(nm, a, b, tol) == Chk("info", Near(a, b, tol), <<nm, Fs(a), Fs(b)>>)
  IN /\ fl.on /\ fl.ph = "compare"
     /\ Common(r)
     /\ Chk("have", r.have = 1 /\ r.hasinfo, "solver object missing")
     /\ Chk("status", got.status_val = st, <<"status", got.status_val, st, "iterations", r.nsolpre, fl.cr.k>>)
     /\ Chk("iter", r.nsolpre = fl.cr.k + fl.npol, <<"iterations performed", r.nsolpre, fl.cr.k, fl.npol>>)
     /\ Chk("times", ~Cg(s) \/ TimeEq(got.solve_time, fl.t), <<"solve time", Fs(got.solve_time), Fs(fl.t)>>)
     /\ Chk("iter", got.iter = fl.cr.infoIter, <<"iterations reported", got.iter, fl.cr.infoIter>>)
     /\ Chk("rho", got.rho_updates = fl.cr.rhoUpdates, <<"rho updates", got.rho_updates, fl.cr.rhoUpdates>>)
     /\ Chk("polish", got.status_polish = WantPolish(s, st), <<"polish status", got.status_polish, WantPolish(s, st)>>)
     /\ (got.status_val = st => SolveDone(s, r, st))
     /\ (got.status_val = st /\ HasSol(st) =>
          /\ (r.hassol => PointOk(s, r.sol))
          /\ ri("prim_res", got.prim_res, q.prim, FAdd(FAdd(FMul(C("1e-7"), q.pnorm), C("1e-10")), q.pe))
          /\ ri("dual_res", got.dual_res, q.dual, FAdd(FAdd(FMul(C("1e-7"), q.dnorm), C("1e-10")), q.de))
          /\ ri("obj_val", got.obj_val, q.pobj, FAdd(FAdd(FMul(C("1e-6"), q.mag), C("1e-9")), q.oe))
          /\ ri("duality_gap", got.duality_gap, q.gap, FAdd(FAdd(FMul(C("1e-6"), q.mag), C("1e-9")), q.oe)))
     /\ (got.status_val = st /\ r.hassol =>
          /\ (st \in {StPinf, StPinfInac} => LET v == CertP(s) IN Chk("cert", VNear(r.sol.pc, v, FAdd(C("1e-4"), FDiv(VNorm(VMul(s.E, s.ey)), VNorm(VMul(s.E, Polar(s.dy, s.l, s.u)))))), <<"certificate", Vs(r.sol.pc), Vs(v)>>))
          /\ (st \in {StDinf, StDinfInac} => LET v == CertD(s) IN Chk("cert", VNear(r.sol.dc, v, FAdd(C("1e-4"), FDiv(FMul(FInt(2), VNorm(VMul(s.D, s.ex))), VNorm(VMul(s.D, s.dx))))), <<"certificate", Vs(r.sol.dc), Vs(v)>>)))
     /\ (~s.polished /\ st # StNonCvx /\ ~RhoNoisy(s, q) => Chk("rho", NearRel(got.rho_estimate, RhoEstimate(s, q), "1e-4"), <<"rho estimate", Fs(got.rho_estimate), Fs(RhoEstimate(s, q))>>))
     /\ SlotOk(s, r) /\ LinesOk(s, r) /\ TwinOk(Op)
     /\ Advance(Put(AfterSolve(s, r, st)), [env EXCEPT !.list = <<>>])
\* ---- interrupted
AbortStep ==
  LET r == Op.rec
      s == [SolveInterrupted(fl.s) EXCEPT !.st.adaptive_rho_interval = fl.cr.interval]
  IN /\ fl.on /\ fl.ph = "abort"
     /\ Common(r)
     /\ Chk("ret", r.ret # 0, "interrupted solve returned success")
     /\ Chk("status", r.info.status_val = StSigint, <<"status", r.info.status_val>>)
     /\ Chk("iter", r.nsolpre = fl.cr.k, <<"iterations performed", r.nsolpre, fl.cr.k>>)
     /\ Chk("polish", r.info.status_polish = PolNone, "polish status")
     /\ SlotOk(s, r) /\ FrozenSol(s, r) /\ TwinOk(Op)
     /\ Chk("times", r.info.polish_time = Zero /\ TimeEq(r.info.update_time, s.upT) /\ TimeEq(r.info.setup_time, s.seT), "times of an interrupted solve")
     /\ Advance(Put(Resync(s, r)), [env EXCEPT !.list = <<>>])

\* ---- the iterates are not predicted: only what must hold for any of them
RECURSIVE SumCost(_)
SumCost(k) == IF k = 0 THEN Zero ELSE FAdd(SumCost(k - 1), Cost(k))
FuzzyStep ==
  LET r   == Op.rec
      s   == fl.s
      st  == r.info.status_val
      S   == LoopS(s)
      K   == IF s.st.linsys_solver = 2 /\ st # StSigint THEN r.info.iter ELSE r.nsolpre
      noFac == env.fac = Zero \/ s.st.linsys_solver = 2
      lateAt(k) == Reached(s, SumCost(k))
      exact == st \in {StSolved, StPinf, StDinf, StNonCvx}
      s1  == [s EXCEPT !.fzi = TRUE, !.cg.zero = -1, !.fzk = @ \/ st = StSigint \/ r.info.rho_updates > 0,   \* the KKT error of the last change of rho is not known
                      !.st.adaptive_rho_interval = IF S.adaptive_rho = AdTime THEN r.st.adaptive_rho_interval ELSE @]
      \* the iterates of a solution with a polished or final point are known only through x and y
  IN /\ fl.on /\ fl.ph = "fuzzy"
     /\ PrintT(<<"FUZZY", Case.id, i>>)
     /\ Common(r)
     /\ Chk("have", r.have = 1 /\ r.hasinfo, "solver object missing")
     /\ Chk("status", st \in 1..10, <<"status", st>>)
     /\ Chk("iter", K \in 1..S.max_iter, <<"iterations performed", K>>)
     /\ (env.sigat > 0 => Chk("status", (K >= env.sigat) = (st = StSigint) /\ K <= env.sigat, <<"interrupted", st, K>>))
     /\ (env.sigat = 0 => Chk("status", st # StSigint, "interrupted without a signal"))
     /\ (exact => Chk("iter", (S.check_termination > 0 /\ K % S.check_termination = 0) \/ K = S.max_iter \/ ~noFac \/ lateAt(K), <<"verdict off schedule", K>>))
     /\ (st \in {StMaxIter, StSolvedInac, StPinfInac, StDinfInac} => Chk("iter", K = S.max_iter \/ (st # StMaxIter /\ (~noFac \/ lateAt(K))), <<"stopped early", st, K>>))
     /\ (st = StTime => Chk("status", ~noFac \/ lateAt(K), "time limit not reached"))
     /\ (noFac /\ S.max_iter < 3000 => Chk("iter", \A k \in 1..(K - 1) : ~lateAt(k), "ran beyond the time limit"))
     /\ (S.adaptive_rho = AdOff => Chk("rho", r.info.rho_updates = 0, "rho adapted although disabled"))
     /\ LET L == Tup([j \in 1..Len(r.rl) |-> r.rl[j].v])  R == IF L = <<>> \/ L[Len(L)] = r.st.rho THEN L ELSE Append(L, r.st.rho)  a == s.st.adaptive_rho_tolerance IN
        R = <<>> \/ /\ Chk("rho", R[1] = fl.rho0, <<"rho at the start of the solve", Fs(R[1]), Fs(fl.rho0)>>)
                    /\ Chk("rho", r.info.rho_updates = Len(R) - 1, <<"rho updates counted / made", r.info.rho_updates, Len(R) - 1>>)
                    /\ Chk("rho", \A j \in 1..(Len(R) - 1) : FLe(FMul(R[j], a), FMul(R[j + 1], C("1.0000001"))) \/ FLe(FMul(R[j + 1], a), FMul(R[j], C("1.0000001"))), <<"rho changed within the tolerance", R>>)
                    /\ Chk("rho", S.adaptive_rho \in {AdOff, AdTime} \/ s.st.adaptive_rho_interval = 0 \/ \A j \in 2..Len(r.rl) : (r.rl[j].k - 1) % s.st.adaptive_rho_interval = 0, "rho changed off schedule")
     /\ (S.adaptive_rho # AdOff /\ s1.st.adaptive_rho_interval > 0 => Chk("rho", r.info.rho_updates <= K \div s1.st.adaptive_rho_interval, <<"rho updated too often", r.info.rho_updates, K>>))
     /\ (st # StSigint => SolveDone(s, r, st))
     /\ (st = StSigint => Chk("ret", r.ret # 0, "interrupted solve returned success") /\ FrozenSol(s, r))
     /\ SlotOk(s1, r) /\ TwinOk(Op)
     /\ Advance(Put(IF st = StSigint THEN Resync(SolveInterrupted(s1), r) ELSE AfterSolve(s1, r, st)), [env EXCEPT !.list = <<>>])

\* ------------------------------------------------------------------ the machine
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ sl = [k \in 0..6 |-> NoSolver] /\ env = Env0 /\ fl = NoFl
Call ==
  /\ ~fl.on /\ i <= Len(Case.ops)
  /\ IF Op.op \in {"clock", "iterlist", "advance", "failat", "failfrom", "sigat", "sigpol", "sigint", "scribble"} THEN Directive
     ELSE IF Op.rec.crash # 0 THEN PrintT(<<"MISMATCH", Case.id, i, Op.op, "crash", Op.rec.crash>>) /\ FALSE
     ELSE IF Op.op = "errmsg" THEN ErrStep ELSE IF Op.op = "intro" THEN IntroStep ELSE IF Op.op = "csc" THEN CscStep
     ELSE IF Op.op = "setup" THEN IF FailedAlloc(Op.rec) THEN TaintStep ELSE SetupStep
     ELSE IF Cur.taint THEN Op.op = "cleanup" /\ CleanupStep
     ELSE IF ~Cur.live THEN NullStep
     ELSE IF Op.op = "cleanup" THEN CleanupStep
     ELSE IF FailedAlloc(Op.rec) THEN TaintStep
     ELSE CASE Op.op = "solve" -> StartSolve
            [] Op.op = "update_vec" -> UpdVecStep
            [] Op.op = "update_mat" -> UpdMatStep
            [] Op.op = "warm" -> WarmStep
            [] Op.op = "cold" -> ColdStep
            [] Op.op = "update_rho" -> RhoStep
            [] Op.op = "update_settings" -> SettingsStep
            [] Op.op = "get_solution" -> GetStep
            [] Op.op = "dims" -> DimsStep
            [] Op.op = "unsupported" -> UnsStep
Done == /\ ~fl.on /\ i = Len(Case.ops) + 1
        /\ PrintT(<<"ACCEPT", Case.id>>)
        /\ i' = i + 1 /\ UNCHANGED <<c, sl, env, fl>>
Next == Call \/ IterStep \/ PostStep \/ PolishStep \/ CompareStep \/ AbortStep \/ FuzzyStep \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
