SEEDS = {}
CLK = r'''
static double now_ns = 1e9; static int nclk = 0; static double step = 0; static int sig_at = 0;
int __real_clock_gettime(clockid_t c, struct timespec* t);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  nclk++; now_ns += step; if (sig_at && nclk == sig_at) raise(SIGINT);
  t->tv_sec = (time_t)(now_ns / 1e9); t->tv_nsec = (long)(now_ns - 1e9 * (double)t->tv_sec); return 0;
}
'''
SEEDS["C01-tolerance-one"] = dict(property="C01", needs="adaptive_rho_tolerance exactly 1, the closed end of its range",
  breaks="osqp_setup rejects settings that are inside the documented range",
  edits=[("src/auxil.c", "settings->adaptive_rho_tolerance < 1.0)", "settings->adaptive_rho_tolerance <= 1.0)")],
  demo=r'''
int main(void) { OSQPSettings s = defaults(); s.adaptive_rho_tolerance = 1.0; F P[] = {1}, A[] = {1}, q[] = {1}, l[] = {0}, u[] = {1}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, M(1,1,P,1), q, M(1,1,A,0), l, u, 1, 1, &s) == 0); CHECK(osqp_solve(w) == 0); osqp_cleanup(w); return bad; }
''')
SEEDS["C02-prim-tolerance-units"] = dict(property="C02", needs="scaling on, a constraint row with small coefficients, eps_rel that dominates, and a point whose primal residual lies between the two tolerances",
  breaks="the primal tolerance mixes scaled and user units, so 'solved' is reported although the primal residual exceeds the tolerance",
  edits=[("src/auxil.c", "    // ||Einv * A * x||\n    temp_rel_eps =\n    OSQPVectorf_scaled_norm_inf(work->scaling->Einv, work->Ax);",
          "    // ||Einv * A * x||\n    temp_rel_eps = OSQPVectorf_norm_inf(work->Ax);")],
  demo=r'''
int main(void) {
  for (int t = 0; t < 40; t++) {
    OSQPSettings s = defaults(); s.eps_abs = 1e-8; s.eps_rel = 0.02; s.check_termination = 1; s.adaptive_rho = 0; s.rho = 0.02 * (1 + t); s.check_dualgap = 0;
    F P[] = {4,1,1,2}, A[] = {.001,.001,.001,0,0,.0007}, q[] = {1 + t,1}, l[] = {.001,0,0}, u[] = {.001,.0007,.0007};
    OSQPSolver* w = 0; CHECK(osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, &s) == 0);
    osqp_solve(w);
    if (w->info->status_val == OSQP_SOLVED) {
      /* distance of A x from [l,u] must be within the tolerance */
      F x0 = w->solution->x[0], x1 = w->solution->x[1], a[3] = {.001 * x0 + .001 * x1, .001 * x0, .0007 * x1}, v = 0, nm = 0;
      for (int i = 0; i < 3; i++) { v = fmax(v, fmax(l[i] - a[i], a[i] - u[i])); nm = fmax(nm, fmax(fabs(a[i]), fabs(u[i]))); }
      CHECK(v <= 1e-8 + 0.02 * nm + 1e-12); CHECK(w->info->prim_res <= 1e-8 + 0.02 * nm + 1e-12);
    }
    osqp_cleanup(w);
  }
  return bad; }
''')
SEEDS["C05-no-check-when-adapting"] = dict(property="C05", needs="an iteration that is a multiple of both the adaptation interval and check_termination and at which a criterion first holds",
  breaks="the solve does not stop at the first scheduled iteration that satisfies a criterion",
  edits=[("src/osqp_api.c", "    if (can_check_termination) {\n      if (check_termination(solver, 0)) {", "    if (can_check_termination && !can_adapt_rho) {\n      if (check_termination(solver, 0)) {")],
  demo=r'''
int main(void) {
  /* one variable, P = 1, sigma = 1, alpha = 1: the residual after k iterations is 2^-k */
  OSQPSettings s = defaults(); s.scaling = 0; s.sigma = 1; s.alpha = 1; s.eps_abs = 1.5 / 64; s.eps_rel = 1e-12; s.check_termination = 2; s.check_dualgap = 0;
  s.adaptive_rho = 1; s.adaptive_rho_interval = 6;
  F P[] = {1}, q[] = {1}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, M(1,1,P,1), q, OSQPCscMatrix_zeros(0,1), 0, 0, 0, 1, &s) == 0);
  CHECK(osqp_solve(w) == 0); CHECK(w->info->status_val == OSQP_SOLVED); CHECK(w->info->iter == 6); osqp_cleanup(w); return bad; }
''')
SEEDS["C08-upper-bound-type"] = dict(property="C08", needs="an update of the upper bounds alone that changes the type of a constraint (inequality to equality or to loose)",
  breaks="the step sizes keep the type of the old bounds, so the solve differs from that of a solver for the new data",
  edits=[("src/osqp_api.c", "if (solver->settings->rho_is_vec) exitflag = update_rho_vec(solver);", "if (solver->settings->rho_is_vec && l_new) exitflag = update_rho_vec(solver);")],
  demo=r'''
int main(void) {
  OSQPSettings s = defaults(); s.max_iter = 5; s.check_termination = 0; s.adaptive_rho = 0; s.eps_abs = 1e-12; s.eps_rel = 0; s.scaling = 0;
  F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {.5,-1}, u[] = {2,1}, u2[] = {.5,1};
  OSQPSolver *w = 0, *v = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0);
  CHECK(osqp_setup(&v, M(2,2,P,1), q, M(2,2,A,0), l, u2, 2, 2, &s) == 0);
  CHECK(osqp_update_data_vec(w, 0, 0, u2) == 0);
  osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(fabs(w->solution->x[i] - v->solution->x[i]) < 1e-9);
  osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C10-eps-swapped"] = dict(property="C10", needs="an update whose eps_prim_inf and eps_dual_inf differ",
  breaks="the dual infeasibility tolerance takes the value given for the primal one",
  edits=[("src/osqp_api.c", "settings->eps_dual_inf       = new_settings->eps_dual_inf;", "settings->eps_dual_inf       = new_settings->eps_prim_inf;")],
  demo=r'''
int main(void) { OSQPSettings s = defaults(), t; F P[] = {1}, A[] = {1}, q[] = {1}, l[] = {0}, u[] = {1}; OSQPSolver* w = 0;
  CHECK(osqp_setup(&w, M(1,1,P,1), q, M(1,1,A,0), l, u, 1, 1, &s) == 0); t = s; t.eps_prim_inf = 1e-3; t.eps_dual_inf = 1e-6;
  CHECK(osqp_update_settings(w, &t) == 0); CHECK(w->settings->eps_prim_inf == 1e-3); CHECK(w->settings->eps_dual_inf == 1e-6); osqp_cleanup(w); return bad; }
''')
SEEDS["C11-warm-x-only"] = dict(property="C11", needs="a warm start that gives x alone (y left as it is)",
  breaks="z is not set to A x, so the next solve does not start from the given point",
  edits=[("src/osqp_api.c", "if (x) OSQPMatrix_Axpy(work->data->A, work->x, work->z, 1.0, 0.0);", "if (x && y) OSQPMatrix_Axpy(work->data->A, work->x, work->z, 1.0, 0.0);")],
  demo=r'''
int main(void) {
  OSQPSettings s = defaults(); s.max_iter = 3; s.check_termination = 0; s.adaptive_rho = 0; s.eps_abs = 1e-12; s.eps_rel = 0;
  F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {-1,-1}, u[] = {2,1}, x[] = {.3,.7}, y[] = {0,0};
  OSQPSolver *w = 0, *v = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0);
  CHECK(osqp_setup(&v, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0);
  osqp_warm_start(w, x, 0); osqp_warm_start(v, x, y);
  osqp_solve(w); osqp_solve(v);
  for (int i = 0; i < 2; i++) CHECK(w->solution->x[i] == v->solution->x[i]);
  osqp_cleanup(w); osqp_cleanup(v); return bad; }
''')
SEEDS["C13-prim-may-grow"] = dict(property="C13", needs="polishing with a strong regularisation and few refinement steps, so that the polished point is better in the dual but worse in the primal residual",
  breaks="polishing replaces the solution by one whose primal residual is larger",
  edits=[("src/polish.c", "polish_successful = (work->pol->prim_res < info->prim_res &&", "polish_successful = (work->pol->prim_res < 1e-2 + info->prim_res &&")],
  demo=r'''
int main(void) {
  F P[] = {2,0,0,1}, A[] = {1,1,1,0,0,1}, q[] = {1,1}, l[] = {1,0,0}, u[] = {1,.7,.7};
  for (int t = 0; t < 200; t++) {
    OSQPSettings s = defaults(); s.polish_refine_iter = 0; s.delta = pow(10, -6 + .5 * (t / 20)); s.eps_abs = 1e-4; s.eps_rel = 0; s.check_termination = 1; q[0] = .1 * (t % 20);
    OSQPSolver *w = 0, *v = 0;
    CHECK(osqp_setup(&v, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, &s) == 0); s.polishing = 1;
    CHECK(osqp_setup(&w, M(2,2,P,1), q, M(3,2,A,0), l, u, 3, 2, &s) == 0);
    osqp_solve(w); osqp_solve(v);
    if (w->info->status_polish == 1) { CHECK(w->info->prim_res <= v->info->prim_res + 1e-15 || w->info->prim_res < 1e-10); }
    osqp_cleanup(w); osqp_cleanup(v);
  }
  return bad; }
''')
SEEDS["C14-update-time-ignored"] = dict(property="C14", needs="a solve after updates that took long, with a time limit that update and solve reach only together", wraps=["clock_gettime"],
  breaks="the time limit of a later solve does not count the time of the updates",
  edits=[("src/osqp_api.c", "      temp_run_time = solver->info->update_time + osqp_toc(work->timer);", "      temp_run_time = osqp_toc(work->timer);")],
  demo=CLK + r'''
int main(void) {
  OSQPSettings s = defaults(); s.max_iter = 50; s.eps_abs = 1e-14; s.eps_rel = 0; s.check_termination = 0; s.adaptive_rho = 0;
  F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {.5,-1}, u[] = {2,1}; OSQPSolver *w = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0); osqp_solve(w);
  s.time_limit = 1.0; CHECK(osqp_update_settings(w, &s) == 0);
  step = 2e9; osqp_update_data_vec(w, q, 0, 0); step = 0;     /* the update takes two seconds */
  CHECK(w->info->update_time >= 1.0);
  osqp_solve(w); CHECK(w->info->iter == 1); CHECK(w->info->status_val != OSQP_MAX_ITER_REACHED); osqp_cleanup(w); return bad; }
''')
SEEDS["C15-handler-after-interrupt"] = dict(property="C15", needs="a solve that is left through an interrupt", wraps=["clock_gettime"],
  breaks="the caller's SIGINT handler is not put back after an interrupted solve",
  edits=[("src/osqp_api.c", "#ifdef OSQP_ENABLE_INTERRUPT\n  // Restore previous signal handler\n  osqp_end_interrupt_listener();\n#endif /* ifdef OSQP_ENABLE_INTERRUPT */\n", ""),
         ("src/osqp_api.c", "// Define exit flag for quitting function\n", "#ifdef OSQP_ENABLE_INTERRUPT\n  // Restore previous signal handler\n  osqp_end_interrupt_listener();\n#endif /* ifdef OSQP_ENABLE_INTERRUPT */\n\n// Define exit flag for quitting function\n")],
  demo=CLK + r'''
static void mine(int s) {}
int main(void) {
  OSQPSettings s = defaults(); s.max_iter = 50; s.eps_abs = 1e-14; s.eps_rel = 0; s.check_termination = 0;
  F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {.5,-1}, u[] = {2,1}; OSQPSolver *w = 0; struct sigaction a, b;
  memset(&a, 0, sizeof a); a.sa_handler = mine; sigaction(SIGINT, &a, 0);
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0);
  sig_at = nclk + 3; osqp_solve(w); CHECK(w->info->status_val == OSQP_SIGINT);
  sigaction(SIGINT, 0, &b); CHECK(b.sa_handler == mine); osqp_cleanup(w); return bad; }
''')
SEEDS["C16-only-last-update"] = dict(property="C16", needs="a matrix update followed by another update between two solves", wraps=["clock_gettime"],
  breaks="update_time forgets the updates before the last one",
  edits=[("src/osqp_api.c", "  if (work->clear_update_time == 1) {\n    work->clear_update_time = 0;\n    solver->info->update_time = 0.0;\n  }\n  osqp_tic(work->timer); // Start timer\n",
          "  if (work->clear_update_time == 1) {\n    solver->info->update_time = 0.0;\n  }\n  osqp_tic(work->timer); // Start timer\n")],
  demo=CLK + r'''
int main(void) {
  OSQPSettings s = defaults(); F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {.5,-1}, u[] = {2,1}, px[] = {2,1}; OSQPSolver *w = 0;
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0); osqp_solve(w);
  step = 1e9; osqp_update_data_mat(w, px, 0, 2, 0, 0, 0); double t1 = w->info->update_time; CHECK(t1 >= 1);
  osqp_update_data_mat(w, px, 0, 2, 0, 0, 0); CHECK(w->info->update_time >= 1.9 * t1); step = 0; osqp_cleanup(w); return bad; }
''')
SEEDS["C18-leak-no-active"] = dict(property="C18", needs="a polish that finds no active constraint", wraps=["malloc", "calloc", "free", "MKL_malloc", "MKL_calloc", "MKL_free", "mkl_sparse_d_create_csc", "mkl_sparse_destroy"],
  breaks="the reduced matrix of a skipped polish is never released",
  edits=[("src/polish.c", "    /* Memory clean-up */\n    OSQPMatrix_free(work->pol->Ared);\n\n    return OSQP_NO_ERROR;", "    return OSQP_NO_ERROR;")],
  demo=r'''
static long live = 0; void *__real_malloc(size_t), *__real_calloc(size_t,size_t), *__real_MKL_malloc(size_t,int), *__real_MKL_calloc(size_t,size_t,int); void __real_free(void*), __real_MKL_free(void*);
int __real_mkl_sparse_d_create_csc(void*,int,long,long,void*,void*,void*,void*), __real_mkl_sparse_destroy(void*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) live++; return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p) live++; return p; }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
void* __wrap_MKL_malloc(size_t n, int a) { void* p = __real_MKL_malloc(n, a); if (p) live++; return p; }
void* __wrap_MKL_calloc(size_t n, size_t b, int a) { void* p = __real_MKL_calloc(n, b, a); if (p) live++; return p; }
void __wrap_MKL_free(void* p) { if (p) live--; __real_MKL_free(p); }
int __wrap_mkl_sparse_d_create_csc(void* a,int b,long c,long d,void* e,void* f,void* g,void* h) { int r = __real_mkl_sparse_d_create_csc(a,b,c,d,e,f,g,h); if (!r) live++; return r; }
int __wrap_mkl_sparse_destroy(void* a) { live--; return __real_mkl_sparse_destroy(a); }
int main(void) { OSQPSettings s = defaults(); s.polishing = 1; s.allocate_solution = 1; F P[] = {2,0,0,1}, A[] = {1,1}, q[] = {1,-1}, l[] = {-50}, u[] = {50};
  OSQPCscMatrix *p = M(2,2,P,1), *a = M(1,2,A,0); long before = live; OSQPSolver *w = 0;
  CHECK(osqp_setup(&w, p, q, a, l, u, 1, 2, &s) == 0); osqp_solve(w); CHECK(w->info->status_polish == OSQP_POLISH_NO_ACTIVE_SET_FOUND);
  osqp_cleanup(w); if (live != before) printf("%ld blocks more\n", live - before); CHECK(live == before); return bad; }
''')
SEEDS["C20-stale-certificate"] = dict(property="C20", needs="a primal infeasible solve followed, after an update, by a dual infeasible one",
  breaks="after a dual infeasible verdict the primal certificate vector holds the certificate of the earlier problem",
  edits=[("src/auxil.c", "      /* Set primal infeasibility certificate to NaN */\n      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);\n      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);\n",
          "      /* Set primal infeasibility certificate to NaN */\n      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);\n")],
  demo=r'''
int main(void) { OSQPSettings s = defaults(); F P[] = {0}, A[] = {1}, A2[] = {1,1}, q[] = {-1}, l[] = {2,-1e30}, u[] = {1e30,1}, l2[] = {2,-1e30}, u2[] = {1e30,1e30}; OSQPSolver *w = 0;
  CHECK(osqp_setup(&w, OSQPCscMatrix_zeros(1,1), q, M(2,1,A2,0), l, u, 2, 1, &s) == 0); osqp_solve(w); CHECK(w->info->status_val == OSQP_PRIMAL_INFEASIBLE);
  CHECK(osqp_update_data_vec(w, q, l2, u2) == 0); osqp_solve(w); CHECK(w->info->status_val == OSQP_DUAL_INFEASIBLE);
  for (int i = 0; i < 2; i++) CHECK(isnan(w->solution->prim_inf_cert[i]) || w->solution->prim_inf_cert[i] == (F)OSQP_NAN); osqp_cleanup(w); return bad; }
''')
SEEDS["C22-time-limit-noise"] = dict(property="C22", needs="a silent solve that runs into its time limit", wraps=["clock_gettime"],
  breaks="a solve with verbose = 0 prints a line",
  edits=[("src/osqp_api.c", '      if (settings->verbose) c_print("run time limit reached\\n");', '      c_print("run time limit reached\\n");')],
  demo=CLK + r'''
int main(void) { OSQPSettings s = defaults(); F P[] = {2,0,0,1}, A[] = {1,1,1,-1}, q[] = {1,-1}, l[] = {.5,-1}, u[] = {2,1}; OSQPSolver *w = 0; s.time_limit = 1e-3;
  char buf[4096]; memset(buf, 0, sizeof buf); setvbuf(stdout, buf, _IOFBF, sizeof buf);
  CHECK(osqp_setup(&w, M(2,2,P,1), q, M(2,2,A,0), l, u, 2, 2, &s) == 0); step = 1e8; osqp_solve(w); CHECK(w->info->iter == 1); CHECK(buf[0] == 0); osqp_cleanup(w); return bad; }
''')
