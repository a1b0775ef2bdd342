"""Third batch of planted bugs; see seed.py."""
SEEDS = {}
BOX = r'''
static F P2[] = {2,.5,0,1}, A3[] = {1,1,1,0,0,1}, q2[] = {1,-1}, l3[] = {-1,-.5,-2}, u3[] = {2,.7,3};
static OSQPSolver* setup2(OSQPSettings* s, const F* P, const F* q, const F* A, const F* l, const F* u) {
  OSQPSolver* w = 0; I e = osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, s); if (e) { printf("setup failed: %d\n", (int)e); bad = 1; exit(1); } return w; }
static OSQPSettings few(int k) { OSQPSettings s = defaults(); s.max_iter = k; s.check_termination = 0; s.adaptive_rho = 0; s.eps_abs = 1e-12; s.eps_rel = 0; return s; }
'''
SEEDS["C06-scalar-y"] = dict(property="C06", needs="rho_is_vec = 0 and alpha other than 1",
  breaks="the dual step of the scalar step-size branch leaves out the over-relaxation",
  edits=[("src/auxil.c", "  else {\n    OSQPVectorf_mult_scalar(work->delta_y, settings->rho);\n  }", "  else {\n    OSQPVectorf_add_scaled(work->delta_y, settings->rho, work->ztilde_view, -settings->rho, work->z);\n  }")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = few(6); s.rho_is_vec = 0; s.alpha = 1.6; OSQPSettings t = s; t.rho_is_vec = 1; F l[] = {-1,-.5,-2}, u[] = {1,.2,.4};
  OSQPSolver *a = setup2(&s, P2, q2, A3, l, u), *b = setup2(&t, P2, q2, A3, l, u); osqp_solve(a); osqp_solve(b);
  for (int i = 0; i < 3; i++) CHECK(fabs(a->solution->y[i] - b->solution->y[i]) <= 1e-9);
  osqp_cleanup(a); osqp_cleanup(b); return bad; }
''')
SEEDS["C19-cold-start-null"] = dict(property="C19", needs="osqp_get_solution with a missing output structure",
  breaks="a missing output structure is written through",
  edits=[("src/osqp_api.c", "  if (!solution)\n    return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);\n\n  store_solution", "  store_solution")],
  demo=BOX + r'''
#include <unistd.h>
#include <sys/wait.h>
int main(void) { OSQPSettings s = few(3); OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3); osqp_solve(w);
  int p = fork(); if (!p) _exit(osqp_get_solution(w, 0) != 0 ? 0 : 3); int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); osqp_cleanup(w); return bad; }
''')
SEEDS["C05-first-iteration-check"] = dict(property="C05", needs="a problem that meets a criterion after its first iteration, with check_termination above 1",
  breaks="criteria are also examined at iteration 1, off schedule",
  edits=[("src/osqp_api.c", "    can_check_termination = settings->check_termination &&\n                            (iter % settings->check_termination == 0);", "    can_check_termination = settings->check_termination &&\n                            (iter % settings->check_termination == 0 || iter == 1);")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = defaults(); s.check_termination = 5; s.adaptive_rho = 0; F z[] = {0,0}; OSQPSolver* w = setup2(&s, P2, z, A3, l3, u3);
  CHECK(osqp_solve(w) == 0); CHECK(w->info->status_val == OSQP_SOLVED); CHECK(w->info->iter == 5); osqp_cleanup(w); return bad; }
''')
SEEDS["C13-upper-refined-as-lower"] = dict(property="C13", needs="polishing on a point where a constraint is active at both of its distinct, very close bounds, or at its upper bound only by the multiplier sign",
  breaks="the active set takes the upper side before the lower one",
  edits=[("src/polish.c", "    if ((z[j] - l[j] < -y[j]) || (l[j] == u[j]) ) { // lower-active or equality", "    if (z[j] - l[j] < -y[j]) { // lower-active or equality")],
  demo=r'''
int main(void) { /* an equality constraint with a zero multiplier at z = l = u stays active */
  OSQPSettings s = defaults(); s.polishing = 1; s.eps_abs = s.eps_rel = 1e-3; s.check_termination = 1; s.adaptive_rho = 0;
  F P[] = {1,0,0,1}, A[] = {1,-1}, q[] = {0,0}, l[] = {0}, u[] = {0}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(1,2,A,0), l, u, 1, 2, &s) == 0); CHECK(osqp_solve(w) == 0);
  CHECK(w->info->status_polish != OSQP_POLISH_NO_ACTIVE_SET_FOUND); osqp_cleanup(w); return bad; }
''')
SEEDS["C15-late-interrupt-sticks"] = dict(property="C15", needs="a SIGINT that arrives after the iterations, while the point is polished, and a later solve",
  breaks="the interrupt is remembered and stops the next solve",
  edits=[("src/interrupt_unix.c", "  struct sigaction act;\n\n  int_detected = 0;\n  act.sa_flags", "  struct sigaction act;\n\n  act.sa_flags"),
         ("src/interrupt_unix.c", "int osqp_is_interrupted(void) {\n  return int_detected;\n}", "int osqp_is_interrupted(void) {\n  int detected = int_detected;\n\n  int_detected = 0;\n  return detected;\n}")],
  wraps=["osqp_end_interrupt_listener"],
  demo=BOX + r'''
#include <signal.h>
void __real_osqp_end_interrupt_listener(void); static int now = 0;
void __wrap_osqp_end_interrupt_listener(void) { if (now) raise(SIGINT); __real_osqp_end_interrupt_listener(); }
int main(void) { OSQPSettings s = defaults(); OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  now = 1; CHECK(osqp_solve(w) == 0); now = 0; CHECK(osqp_solve(w) == 0); CHECK(w->info->status_val == OSQP_SOLVED); osqp_cleanup(w); return bad; }
''')
SEEDS["C07-kkt-always-stored"] = dict(property="C07", needs="adaptive_rho by KKT error and an examined iteration that does not change rho",
  breaks="the KKT error is compared with that of the last look instead of the last rho update",
  edits=[("src/osqp_api.c", "    if(work->rho_updated) {\n      work->last_rel_kkt = solver->info->rel_kkt_error;\n    }", "    work->last_rel_kkt = solver->info->rel_kkt_error;")],
  demo=BOX + r'''
int main(void) { /* every change of rho comes with a KKT error of at most fraction times that of the previous change */
  for (int k = 0; k < 20; k++) { F prev = 0; I n0 = 0;
    for (int it = 1; it < 40; it++) { OSQPSettings s = few(it); s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_interval = 1; s.adaptive_rho_tolerance = 1.2; s.adaptive_rho_fraction = .7; s.rho = 1e-3 * (1 + 10 * k); s.eps_abs = 1e-30;
      F q[] = {5. - k, 3. + k}; OSQPSolver* w = setup2(&s, P2, q, A3, l3, u3); osqp_solve(w);
      if (w->info->rho_updates > n0) { /* changed at iteration it */ n0 = w->info->rho_updates; if (prev > 0) CHECK(w->info->rel_kkt_error <= .7000001 * prev); prev = w->info->rel_kkt_error; }
      osqp_cleanup(w); } }
  return bad; }
''')
SEEDS["C21-precond-after-matrices"] = dict(property="C21", needs="the indirect solver with a diagonal preconditioner after osqp_update_data_mat",
  breaks="the preconditioner stays that of the old matrices",
  edits=[("algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "  // Update the preconditioner (matrix-only update)\n  cg_update_precond(s);\n", "")],
  wraps=["dcg"],
  demo=r'''
typedef long long L; static L last = 0; static int checked = 0; static double d0 = 0;
void __real_dcg(const L*, double*, const double*, L*, L*, double*, double*);
void __wrap_dcg(const L *n, double *x, const double *b, L *rci, L *ipar, double *dpar, double *tmp) {
  if (last == 3 && tmp[2 * *n] != 0) { double r = tmp[2 * *n] / tmp[3 * *n]; if (d0 > 0) { checked = 1; CHECK(fabs(r - d0) <= 1e-6 * d0); } }
  __real_dcg(n, x, b, rci, ipar, dpar, tmp); last = *rci; }
int main(void) { OSQPSettings s = defaults(); s.linsys_solver = OSQP_INDIRECT_SOLVER; s.cg_precond = OSQP_DIAGONAL_PRECONDITIONER; s.scaling = 0; s.adaptive_rho = 0; s.rho = .5; s.sigma = 1e-3; s.max_iter = 3; s.check_termination = 0; s.cg_tol_fraction = .01;
  F P[] = {2,.5,0,1}, A[] = {1,1}, q[] = {1,-1}, l[] = {-1}, u[] = {1}; OSQPSolver* w = 0; CHECK(osqp_setup(&w, M(2,2,P,1), q, M(1,2,A,0), l, u, 1, 2, &s) == 0);
  F Px[] = {50,.5,1}; CHECK(osqp_update_data_mat(w, Px, 0, 0, 0, 0, 0) == 0); d0 = 50 + 1e-3 + .5; osqp_solve(w); CHECK(checked); osqp_cleanup(w); return bad; }
''')
SEEDS["C13-stale-polish-status"] = dict(property="C13", needs="a polished solve followed by one that ends without a solution or with polishing switched off",
  breaks="the polish outcome of an earlier solve is reported again",
  edits=[("src/auxil.c", "  info->status_polish = OSQP_POLISH_NOT_PERFORMED;\n\n#if", "  if (info->status_polish < 0) info->status_polish = OSQP_POLISH_NOT_PERFORMED;\n\n#if")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = defaults(); s.polishing = 1; s.eps_abs = s.eps_rel = 1e-3; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  CHECK(osqp_solve(w) == 0); CHECK(w->info->status_polish == OSQP_POLISH_SUCCESS);
  s.polishing = 0; CHECK(osqp_update_settings(w, &s) == 0); CHECK(osqp_solve(w) == 0); CHECK(w->info->status_polish == OSQP_POLISH_NOT_PERFORMED); osqp_cleanup(w); return bad; }
''')
SEEDS["C16-polish-time-sticks"] = dict(property="C16", needs="a polished solve followed by one that is not polished",
  breaks="the polish time of an earlier solve is counted again",
  edits=[("src/auxil.c", "  info->polish_time = 0.0; // Polish time to zero", "  if (info->status_polish != OSQP_POLISH_SUCCESS) info->polish_time = 0.0; // Polish time to zero")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = defaults(); s.polishing = 1; s.eps_abs = s.eps_rel = 1e-3; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  CHECK(osqp_solve(w) == 0); CHECK(w->info->polish_time > 0);
  s.polishing = 0; CHECK(osqp_update_settings(w, &s) == 0); CHECK(osqp_solve(w) == 0); CHECK(w->info->polish_time == 0); osqp_cleanup(w); return bad; }
''')
SEEDS["C11-warm-y-scale"] = dict(property="C11", needs="scaling with a cost factor other than 1 and osqp_warm_start with both x and y",
  breaks="when both vectors are given the dual one is scaled without the cost factor",
  edits=[("src/osqp_api.c", "      OSQPVectorf_mult_scalar(work->y, work->scaling->c);\n    }\n  }\n\n  /* Compute Ax", "      if (!x) OSQPVectorf_mult_scalar(work->y, work->scaling->c);\n    }\n  }\n\n  /* Compute Ax")],
  demo=BOX + r"""
int main(void) { OSQPSettings s = defaults(); s.scaling = 10; s.check_termination = 1; s.adaptive_rho = 0; s.max_iter = 20000; s.eps_abs = s.eps_rel = 1e-9; OSQPFloat q[2] = {-300, -500}; OSQPSolver* w = setup2(&s, P2, q, A3, l3, u3);
  OSQPFloat x[2], y[3]; CHECK(osqp_solve(w) == 0); CHECK(w->info->status_val == OSQP_SOLVED); for (int i = 0; i < 2; i++) x[i] = w->solution->x[i]; for (int i = 0; i < 3; i++) y[i] = w->solution->y[i]; osqp_cleanup(w);
  s.eps_abs = s.eps_rel = 1e-4; w = setup2(&s, P2, q, A3, l3, u3); CHECK(osqp_warm_start(w, x, y) == 0); CHECK(osqp_solve(w) == 0); CHECK(w->info->status_val == OSQP_SOLVED); CHECK(w->info->iter <= 2); osqp_cleanup(w); return bad; }
""")
