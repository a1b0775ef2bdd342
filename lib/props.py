"""Which families decide which property, and which aspects of a recorded call its check judges."""
import fam as F
import models as M
SAFE = ["ret", "have", "intact", "mem", "sig"]
CORE = SAFE + ["status", "iter", "xy", "info", "store", "rho", "polish", "settings", "frozen"]
CHECKS = {
 "C01": dict(fams=[F.setup_ranges, F.setup_problems], asp=SAFE + ["settings", "status", "store", "rho"]),
 "C02": dict(models=[M.control("C02_Fresh"), M.hist("C02_NotStale")], fams=[F.verdicts, F.inaccurate, F.infeas_short, F.pol_exact], asp=["status", "iter", "soundS", "info", "xy", "store", "polish"]),
 "C03": dict(fams=[F.infeas, F.infeas_short, F.feas_limits], asp=["status", "soundI", "cert", "store", "info", "frozen"]),
 "C04": dict(models=[M.control("C04_Info")], fams=[F.infos, F.time_limits, F.inaccurate, F.loop_scen(200)], asp=["status", "iter", "info", "frozen", "polish", "store"]),
 "C05": dict(models=[M.control("C05_Schedule", "C05_Ends")], fams=[F.schedule, F.schedule_time, F.inaccurate, F.loop_scen(500)], asp=["status", "iter", "info", "rho"]),
 "C06": dict(models=[M.vectest()], fams=[F.recursion, F.big_hist], asp=["xy", "rho", "iter", "info", "settings"]),
 "C07": dict(models=[M.control("C07_Rho")], fams=[F.adapt, F.adapt_time, F.rho_fresh, F.loop_scen(200, lambda x: x["mode"])], asp=["rho", "iter", "status", "xy", "settings", "ret", "frozen", "tw"]),
 "C08": dict(models=[M.hist("C08_Rejected", "C02_NotStale")], fams=[F.vec_hist, F.vec_inf, F.fresh_twin("fv", 70, F.G.u_vec), F.api_hist(200, {"vec_opt", "vec_pinf", "vec_dinf", "vec_bad"})], asp=CORE + ["cert", "soundS", "soundI", "tw"]),
 "C09": dict(models=[M.hist("C08_Rejected", "C02_NotStale")], fams=[F.mat_hist, F.mat_patterns, F.big_hist, F.fresh_twin("fm", 70, F.G.u_mat), F.api_hist(200, {"mat", "mat_bad"})], asp=CORE + ["cert", "soundS", "soundI", "tw"]),
 "C10": dict(models=[M.hist("C08_Rejected", "C10_Get")], fams=[F.set_updates, F.set_hist, F.set_twin, F.api_hist(150, {"set_bad", "set_pol", "set_nopol", "set_warm", "set_cold"})], asp=CORE + ["times", "out", "lin", "tw"]),
 "C11": dict(models=[M.hist("C11_Start")], fams=[F.warm_hist, F.warm_inf, F.api_hist(200, {"warm", "cold", "set_cold"})], asp=["ret", "have", "xy", "status", "iter", "store", "settings", "frozen", "info"]),
 "C12": dict(fams=[F.scal_hist, F.scal_inf, F.scal_drift], asp=["ret", "status", "iter", "xy", "info", "rho", "soundS", "soundI", "cert", "frozen"]),
 "C13": dict(models=[M.control("C13_Polish"), M.hist("C13_Polish")], fams=[F.pol_hist, F.pol_coarse, F.pol_exact, F.loop_scen(80, lambda x: x["pol"]), F.api_hist(150, {"set_pol"})], asp=["ret", "status", "polish", "xy", "info", "soundS", "frozen", "store", "out"]),
 "C14": dict(models=[M.control("C14_TimeLimit")], fams=[F.time_limits, F.time_exact, F.time_unreached, F.loop_scen(200, lambda x: x["late"])], asp=["status", "iter", "times", "info", "xy", "rho", "out", "tw"]),
 "C15": dict(models=[M.control("C15_Interrupt"), M.hist("C15_Sig")], fams=[F.interrupts, F.loop_scen(150, lambda x: x["sig"]), F.api_hist(120, {"solve_sig"})], asp=SAFE + ["status", "iter", "xy", "frozen", "polish", "times", "settings", "store", "info", "rho"]),
 "C16": dict(models=[M.hist("C16_UpdateTime", "C16_RunTime", "C16_NoLeak")], fams=[F.timing, F.timing_ns, F.timing_int, F.api_hist(200, {"solve", "solve_max", "solve_time"})], asp=["times", "status", "frozen"]),
 "C17": dict(fams=[F.isolation, F.determinism], asp=CORE + ["cert", "tw", "out"]),
 "C18": dict(fams=[F.leaks, F.leak_setups], faults=F.fault_bases, asp=["mem", "have", "intact", "sig", "ret", "frozen"]),
 "C19": dict(models=[M.hist("C08_Rejected", "C10_Get")], fams=[F.missing, F.rejections, F.api_hist(100, {"vec_bad", "mat_bad", "rho_bad", "set_bad", "setup_bad"})], asp=SAFE + ["settings", "frozen"]),
 "C20": dict(models=[M.hist("C20_Stored")], fams=[F.store_hist, F.nonconvex_run, F.api_hist(200, {"solve", "solve_max", "solve_time"})], asp=["ret", "have", "store", "status", "frozen", "xy", "cert", "info", "intact"]),
 "C21": dict(fams=[F.cg_hist, F.cg_inf, F.cg_big, F.cg_twin], asp=CORE + ["lin", "soundS", "soundI", "tw", "times"]),
 "C22": dict(models=[M.control("C22_Lines")], fams=[F.out_hist, F.out_long, F.out_twin, F.loop_scen(300, lambda x: x["verb"])], asp=["out", "tw", "iter", "status", "rho"]),
 "C23": dict(fams=[F.convexity, F.nonconvex_run], asp=SAFE + ["status", "store"]),
 "C24": dict(fams=[F.csc, F.csc_used], asp=SAFE + ["xy", "status", "info", "out"]),
}
