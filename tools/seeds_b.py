SEEDS = {}
BOX = r'''
/* min .5 x'Px + q'x, -1 <= x <= 1 style problem with n = 2, m = 3 */
static F P2[] = {2,.5,0,1}, A3[] = {1,1,1,0,0,1}, q2[] = {1,-1}, l3[] = {-1,-.5,-2}, u3[] = {2,.7,3};
static OSQPSolver* setup2(OSQPSettings* s, const F* P, const F* q, const F* A, const F* l, const F* u) {
  OSQPSolver* w = 0; I e = osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, s); if (e) { printf("setup failed: %d\n", (int)e); bad = 1; exit(1); } return w; }
static OSQPSettings few(int k) { OSQPSettings s = defaults(); s.max_iter = k; s.check_termination = 0; s.adaptive_rho = 0; s.eps_abs = 1e-12; s.eps_rel = 0; return s; }
'''
SEEDS["C03-cone-margin"] = dict(property="C03", needs="a step delta_x much smaller than 1 while the dual residual is still above its tolerance",
  breaks="the recession cone test uses the bare tolerance, so a bounded problem is reported dual infeasible with a direction that leaves the constraints",
  edits=[("src/auxil.c", "                                      OSQP_INFTY * OSQP_MIN_SCALING,\n                                      eps_dual_inf * norm_delta_x);", "                                      OSQP_INFTY * OSQP_MIN_SCALING,\n                                      eps_dual_inf);")],
  demo=r'''
int main(void) {
  for (int sc = 0; sc < 2; sc++) for (int t = 0; t < 30; t++) {
    OSQPSettings s = defaults(); s.scaling = sc * 5; s.eps_abs = 1e-11; s.eps_rel = 0; s.eps_dual_inf = 1e-4; s.check_termination = 1; s.adaptive_rho = 0; s.rho = 1e-3 * (1 + 7 * t); s.sigma = 1e-3;
    F P[] = {0,0,0,1}, A[] = {1,1,1,0,0,1}, q[] = {-1,.3}, l[] = {-9,-7,-8}, u[] = {1,4,3}; OSQPSolver* w = 0;
    CHECK(osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, &s) == 0); osqp_solve(w);
    CHECK(w->info->status_val != OSQP_DUAL_INFEASIBLE && w->info->status_val != OSQP_DUAL_INFEASIBLE_INACCURATE); osqp_cleanup(w);
  }
  return bad; }
''')
SEEDS["C04-polished-dual-objective"] = dict(property="C04", needs="a successful polish",
  breaks="after polishing the dual objective still is that of the unpolished point",
  edits=[("src/polish.c", "    info->dual_obj_val  = work->pol->dual_obj_val;\n", "")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = defaults(); s.polishing = 1; s.eps_abs = s.eps_rel = 1e-2; s.check_termination = 1; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  CHECK(osqp_solve(w) == 0); CHECK(w->info->status_polish == OSQP_POLISH_SUCCESS);
  CHECK(fabs(w->info->obj_val - w->info->dual_obj_val - w->info->duality_gap) <= 1e-10); osqp_cleanup(w); return bad; }
''')
SEEDS["C07-unclipped-inverse"] = dict(property="C07", needs="rho_is_vec = 0 and osqp_update_rho with a value outside [1e-6, 1e6]",
  breaks="the inverse step size is that of the value given, not that of the clipped one which is in use everywhere else",
  edits=[("src/osqp_api.c", "    work->rho_inv = 1. / solver->settings->rho;\n  }\n\n  // Update rho_vec in KKT", "    work->rho_inv = 1. / rho_new;\n  }\n\n  // Update rho_vec in KKT")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = few(7); s.rho_is_vec = 0; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3); s.rho = OSQP_RHO_MIN; OSQPSolver* v = setup2(&s, P2, q2, A3, l3, u3);
  CHECK(osqp_update_rho(w, 1e-9) == 0); CHECK(w->settings->rho == OSQP_RHO_MIN); osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) <= 1e-9 * (1 + fabs(v->solution->x[i])));
  for (int i = 0; i < 3; i++) CHECK(fabs(w->solution->y[i] - v->solution->y[i]) <= 1e-9 * (1 + fabs(v->solution->y[i])));
  osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C09-count-of-other-matrix"] = dict(property="C09", needs="a number of new elements of A above nnz(A) but not above nnz(P), with repeated indices",
  breaks="an update with more elements than A has is accepted instead of being rejected with code 2",
  edits=[("src/osqp_api.c", "if (A_new_n > nnzA || A_new_n < 0) {", "if (A_new_n > c_max(nnzP, nnzA) || A_new_n < 0) {")],
  demo=r'''
int main(void) { OSQPSettings s = defaults(); F P[] = {2,.5,0,1}, A[] = {1,0}, q[] = {1,-1}, l[] = {-1}, u[] = {1}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(1,2,A,0), l, u, 1, 2, &s) == 0);
  F Ax[] = {3,3,3,3}; I Ai[] = {0,0,0,0};
  CHECK(osqp_update_data_mat(w, 0, 0, 0, Ax, Ai, 2) == 2); CHECK(osqp_update_data_mat(w, 0, 0, 0, Ax, Ai, 4) == 2); CHECK(osqp_update_data_mat(w, 0, 0, 0, Ax, Ai, 1) == 0); osqp_cleanup(w); return bad; }
''')
SEEDS["C12-zero-row"] = dict(property="C12", needs="scaling on and a constraint whose row in A is empty",
  breaks="the scaling factor of an empty row becomes infinite and the solution is not a number",
  edits=[("src/scaling.c", "    limit_scaling_vector(work->E_temp);\n", "")],
  demo=BOX + r'''
int main(void) { F A[] = {1,1,0,0,0,1}; OSQPSettings s = defaults(); s.eps_abs = s.eps_rel = 1e-6; OSQPSolver* w = setup2(&s, P2, q2, A, l3, u3); osqp_solve(w); s.scaling = 0; OSQPSolver* v = setup2(&s, P2, q2, A, l3, u3); osqp_solve(v);
  CHECK(w->info->status_val == OSQP_SOLVED); CHECK(v->info->status_val == OSQP_SOLVED);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) < 1e-3); osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C08-rejected-keeps-q"] = dict(property="C08", needs="an update of q together with bounds that are rejected",
  breaks="the rejected update has already replaced the linear cost",
  edits=[("src/osqp_api.c", "  /* Update constraint bounds */\n  if (l_new || u_new) {", "  /* Update linear cost vector */\n  if (q_new) {\n    OSQPVectorf_from_raw(work->data->q, q_new);\n    if (solver->settings->scaling) {\n      OSQPVectorf_ew_prod(work->data->q, work->data->q, work->scaling->D);\n      OSQPVectorf_mult_scalar(work->data->q, work->scaling->c);\n    }\n  }\n\n  /* Update constraint bounds */\n  if (l_new || u_new) {"),
         ("src/osqp_api.c", "#endif /* #if OSQP_EMBEDDED_MODE != 1 */\n  }\n\n  /* Update linear cost vector */\n  if (q_new) {\n    OSQPVectorf_from_raw(work->data->q, q_new);\n    if (solver->settings->scaling) {\n      OSQPVectorf_ew_prod(work->data->q, work->data->q, work->scaling->D);\n      OSQPVectorf_mult_scalar(work->data->q, work->scaling->c);\n    }\n  }\n", "#endif /* #if OSQP_EMBEDDED_MODE != 1 */\n  }\n")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = few(6); OSQPSolver *w = setup2(&s, P2, q2, A3, l3, u3), *v = setup2(&s, P2, q2, A3, l3, u3); F q[] = {5,3}, l[] = {9,9,9};
  CHECK(osqp_update_data_vec(w, q, l, 0) != 0); osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) < 1e-9);
  F q3[] = {-2,1}; CHECK(osqp_update_data_vec(w, q3, 0, 0) == 0); CHECK(osqp_update_data_vec(v, q3, 0, 0) == 0); osqp_cold_start(w); osqp_cold_start(v); osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) < 1e-9);
  osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C11-cold-z"] = dict(property="C11", needs="a cold start (or warm_starting = 0) after a solve",
  breaks="z keeps the values of the previous solve, so the next solve does not start from zero",
  edits=[("src/osqp_api.c", "  OSQPVectorf_set_scalar(work->z, 0.);\n", "")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = few(4); s.warm_starting = 0; OSQPSolver *w = setup2(&s, P2, q2, A3, l3, u3); F x[2]; osqp_solve(w); memcpy(x, w->solution->x, sizeof x); osqp_solve(w);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - x[i]) < 1e-12); osqp_cleanup(w); return bad; }
''')
SEEDS["C02-gap-units"] = dict(property="C02", needs="scaling on, cost scaling far from 1, eps_rel that dominates, and the duality gap as the last criterion to hold",
  breaks="the relative part of the duality gap tolerance is scaled the wrong way, so 'solved' is reported with a gap far above the tolerance",
  edits=[("src/auxil.c", "    max_rel_eps = work->scaling->cinv * max_rel_eps;", "    max_rel_eps = max_rel_eps / work->scaling->cinv;")],
  demo=r'''
int main(void) {
  for (int t = 0; t < 60; t++) {
    OSQPSettings s = defaults(); s.eps_abs = 1e-9; s.eps_rel = 1e-3; s.check_termination = 1; s.adaptive_rho = 0; s.rho = 0.003 * (1 + t);
    F k = t % 2 ? 1e-3 : 1e3, P[] = {4*k,1*k,1*k,2*k}, A[] = {1,1,1,0,0,1}, q[] = {k,k*(1 + t % 7)}, l[] = {1,-.2,-.3}, u[] = {1,.7,.9};
    OSQPSolver* w = 0; CHECK(osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, &s) == 0); osqp_solve(w);
    if (w->info->status_val == OSQP_SOLVED) {
      F x0 = w->solution->x[0], x1 = w->solution->x[1], xPx = P[0]*x0*x0 + 2*P[1]*x0*x1 + P[3]*x1*x1, qx = q[0]*x0 + q[1]*x1, SC = 0;
      for (int i = 0; i < 3; i++) SC += u[i] * fmax(w->solution->y[i], 0) + l[i] * fmin(w->solution->y[i], 0);
      F gap = fabs(xPx + qx + SC), tol = 1e-9 + 1e-3 * fmax(fabs(xPx), fmax(fabs(qx), fabs(SC)));
      CHECK(gap <= tol * (1 + 1e-6));
    } else CHECK(w->info->status_val == OSQP_MAX_ITER_REACHED);
    osqp_cleanup(w);
  }
  return bad; }
''')
SEEDS["C20-inaccurate-certificate"] = dict(property="C20", needs="a dual infeasibility that only holds for the tolerances of the approximate check",
  breaks="an inaccurate dual infeasibility verdict comes without its certificate",
  edits=[("src/auxil.c", "    if ((info->status_val == OSQP_DUAL_INFEASIBLE) ||\n        ((info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE))) {\n      norm_vec", "    if (info->status_val == OSQP_DUAL_INFEASIBLE) {\n      norm_vec")],
  demo=BOX + r'''
int main(void) { int seen = 0;
  for (int t = 0; t < 40; t++) {
    F P[] = {1e-3 * (1 + t) ,0,0,1}, A[] = {0,1,0,1,0,2}, q[] = {-1e3,1}; OSQPSettings s = defaults(); s.scaling = 0; s.eps_dual_inf = 1e-2; s.eps_abs = 1e-6; s.eps_rel = 0; s.max_iter = 3; s.check_termination = 0; s.adaptive_rho = 0; s.sigma = .01;
    OSQPSolver* w = setup2(&s, P, q, A, l3, u3); osqp_solve(w);
    if (w->info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE) { seen++; F* c = w->solution->dual_inf_cert; CHECK(fabs(fmax(fabs(c[0]), fabs(c[1])) - 1) < 1e-9); CHECK(q[0] * c[0] + q[1] * c[1] < 0); }
    osqp_cleanup(w);
  }
  CHECK(seen > 0); return bad; }
''')
SEEDS["C21-scalar-rho"] = dict(property="C21", needs="the indirect solver, rho_is_vec = 0 and a change of rho after setup",
  breaks="the reduced system keeps the old step size, so the iterates are not those of the direct solver",
  edits=[("algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);\n  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);\n\n  // Update the", "  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);\n\n  // Update the")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = few(12); s.rho_is_vec = 0; s.cg_tol_fraction = 1e-7; s.cg_max_iter = 100; OSQPSolver* v = setup2(&s, P2, q2, A3, l3, u3); s.linsys_solver = OSQP_INDIRECT_SOLVER; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  CHECK(osqp_update_rho(w, 5.) == 0); CHECK(osqp_update_rho(v, 5.) == 0); osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) < 1e-4); osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C24-capacity"] = dict(property="C24", needs="a diagonal matrix that is not square",
  breaks="the matrix claims room for more entries than were allocated",
  edits=[("src/osqp_api.c", "  mat->nzmax = min_elem;", "  mat->nzmax = c_max(m, n);")],
  demo=r'''
int main(void) { for (int m = 1; m < 5; m++) for (int n = 1; n < 5; n++) { OSQPCscMatrix* D = OSQPCscMatrix_diag_scalar(m, n, 2.0); CHECK(D->nzmax == (m < n ? m : n)); CHECK(D->p[n] == D->nzmax); OSQPCscMatrix_free(D); } return bad; }
''')
SEEDS["C22-no-active-noise"] = dict(property="C22", needs="verbose off, polishing on, and a solution at which no constraint is active",
  breaks="a message is printed although output is off",
  edits=[("src/polish.c", "if (settings->verbose) c_print(\"Polishing not needed", "c_print(\"Polishing not needed")],
  demo=r'''
#include <unistd.h>
int main(void) { OSQPSettings s = defaults(); s.polishing = 1; F P[] = {1}, A[] = {1}, q[] = {0}, l[] = {-5}, u[] = {5}; OSQPSolver* w = 0;
  FILE* t = tmpfile(); int o = dup(1); fflush(stdout); dup2(fileno(t), 1);
  I e = osqp_setup(&w, M(1,1,P,1), q, M(1,1,A,0), l, u, 1, 1, &s); e |= osqp_solve(w); fflush(stdout); long n = lseek(1, 0, SEEK_END); dup2(o, 1);
  CHECK(e == 0); CHECK(w->info->status_polish == OSQP_POLISH_NO_ACTIVE_SET_FOUND); CHECK(n == 0); osqp_cleanup(w); return bad; }
''')
CLK = r'''
static double now_ns = 1e9; static double step = 0;
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { now_ns += step; t->tv_sec = (time_t)(now_ns / 1e9); t->tv_nsec = (long)(now_ns - 1e9 * (double)t->tv_sec); return 0; }
'''
SEEDS["C16-later-polish"] = dict(property="C16", needs="a second solve that polishes",
  breaks="the run time of every solve but the first leaves the polishing time out",
  edits=[("src/osqp_api.c", "    solver->info->run_time = solver->info->update_time +\n                             solver->info->solve_time +\n                             solver->info->polish_time;", "    solver->info->run_time = solver->info->update_time +\n                             solver->info->solve_time;")],
  wraps=["clock_gettime"], demo=BOX + CLK + r'''
int main(void) { step = 1e6; OSQPSettings s = defaults(); s.polishing = 1; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3); osqp_solve(w);
  CHECK(fabs(w->info->run_time - (w->info->setup_time + w->info->solve_time + w->info->polish_time)) < 1e-9); CHECK(w->info->polish_time > 0);
  osqp_solve(w); CHECK(fabs(w->info->run_time - (w->info->update_time + w->info->solve_time + w->info->polish_time)) < 1e-9); osqp_cleanup(w); return bad; }
''')
SEEDS["C14-limit-boundary"] = dict(property="C14", needs="a clock reading exactly equal to the time limit",
  breaks="the solve goes on at the moment the limit is reached and stops an iteration later",
  edits=[("src/osqp_api.c", "(temp_run_time >= settings->time_limit)", "(temp_run_time > settings->time_limit)")],
  wraps=["clock_gettime"], demo=BOX + CLK + r'''
int main(void) { step = 1e8; OSQPSettings s = defaults(); s.eps_abs = 1e-15; s.eps_rel = 0; s.check_termination = 0; s.adaptive_rho = 0; s.max_iter = 50; OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3);
  s.time_limit = w->info->setup_time; CHECK(s.time_limit > 0); CHECK(osqp_update_settings(w, &s) == 0); step = 0;
  osqp_solve(w); CHECK(w->info->iter == 1); CHECK(w->info->status_val == OSQP_TIME_LIMIT_REACHED); osqp_cleanup(w); return bad; }
''')
SEEDS["C01-unsorted-lower"] = dict(property="C01", needs="a column of P whose row indices are not sorted and whose entry below the diagonal is not the last one",
  breaks="a P that is not upper triangular is accepted",
  edits=[("src/auxil.c", "      if (P->i[ptr] > j) {  // if ROW > COLUMN", "      if (P->i[P->p[j + 1] - 1] > j) {  // if ROW > COLUMN")],
  demo=r'''
int main(void) { OSQPSettings s = defaults(); F x[] = {.5,1,2}; I r[] = {1,0,1}, p[] = {0,2,3}; F A[] = {1,0}, q[] = {1,-1}, l[] = {-1}, u[] = {1}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, OSQPCscMatrix_new(2,2,3,x,r,p), q, M(1,2,A,0), l, u, 1, 2, &s) == OSQP_DATA_VALIDATION_ERROR); return bad; }
''')
SEEDS["C10-ignored-rho-validated"] = dict(property="C10", needs="settings passed to osqp_update_settings whose rho (a field the update ignores) is not positive",
  breaks="an update that is valid in every field it uses is rejected",
  edits=[("src/auxil.c", "  if (from_setup && settings->rho <= 0.0) {", "  if (settings->rho <= 0.0) {")],
  demo=BOX + r'''
int main(void) { OSQPSettings s = defaults(); OSQPSolver* w = setup2(&s, P2, q2, A3, l3, u3); s.rho = 0; s.max_iter = 17; CHECK(osqp_update_settings(w, &s) == 0); CHECK(w->settings->max_iter == 17); CHECK(w->settings->rho == .1); osqp_cleanup(w); return bad; }
''')
SEEDS["C18-refine-alloc-leak"] = dict(property="C18", needs="an allocation failure while the views for iterative refinement are made",
  breaks="the view that had been made is not released",
  edits=[("src/polish.c", "      OSQPVectorf_free(rhs);\n      OSQPVectorf_view_free(rhs1);\n      OSQPVectorf_view_free(rhs2);", "      OSQPVectorf_free(rhs);\n      OSQPVectorf_view_free(rhs2);")],
  wraps=["malloc", "calloc", "free"], demo=r'''
static long live = 0; static long count = -1; static long failat = -1;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (count >= 0 && ++count == failat) return 0; void* p = __real_malloc(n); if (p) live++; return p; }
void* __wrap_calloc(size_t n, size_t k) { if (count >= 0 && ++count == failat) return 0; void* p = __real_calloc(n, k); if (p) live++; return p; }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
''' + BOX + r'''
int main(void) {
  OSQPCscMatrix *P = M(2,2,P2,1), *A = M(3,2,A3,0);
  for (failat = 1; failat < 400; failat++) { OSQPSettings s = defaults(); s.polishing = 1; OSQPSolver* w = 0; count = -1;
    long l0 = live; CHECK(osqp_setup(&w, P, q2, A, l3, u3, 3, 2, &s) == 0); count = 0; osqp_solve(w); long used = count; count = -1; osqp_cleanup(w);
    if (live != l0) { printf("failure at %ld: %ld blocks lost\n", failat, live - l0); bad = 1; }
    if (used < failat) break; }
  return bad; }
''')
