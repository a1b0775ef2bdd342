/* Conformance driver: executes histories of public OSQP API calls (one forked process per case) and reports
 * everything observable at the API, plus what crosses the library's external boundary: memory allocation, the
 * monotonic clock, the linear-algebra library and the SIGINT disposition.  Nothing inside OSQP is looked at.
 * The boundary is intercepted with the linker's --wrap:
 *   malloc/calloc/realloc/free, MKL_malloc/MKL_calloc/MKL_free : live-block accounting, double-free and failure injection
 *   clock_gettime : a virtual clock, advanced only by factorisations and linear solves (and by the script)
 *   pardiso, dcg_init : count factorisations/solves (one linear solve = one ADMM iteration), advance the clock, send SIGINT */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include "osqp.h"

/* ---------------------------------------------------------------- boundary state */
typedef long long I;
static int in_lib = 0;               /* inside an API call */
static int cur_slot = 0;
static long alloc_no = 0;            /* allocations in the current API call */
static long fail_at = 0, fail_from = 0, fail_done = 0;
static long bad_free = 0;
#define MAXBLK 20000
static struct { void *p; size_t sz; int slot; } blk[MAXBLK];
static int nblk = 0;
static long long vnow = 1000000000LL;  /* virtual clock, ns */
static long long c_sym = 0, c_fac = 0, c_iter = 0;      /* cost of a symbolic/numeric factorisation and of a solve */
static long long iterlist[4096]; static int n_iterlist = 0; /* per-iteration costs (override c_iter) */
static long n_sym, n_fac, n_sol, n_cg;   /* per API call */
static long n_fac_pre, n_sol_pre;        /* before the first symbolic factorisation of this call (= before polishing) */
static long long t_pol;                  /* clock at the first symbolic factorisation of this call (-1: none) */
static int in_solve = 0;
static long sig_at = 0;                  /* raise SIGINT during the sig_at-th linear solve of a osqp_solve */
static long sig_pol = 0;                 /* raise SIGINT at the polishing factorisation */
static volatile long app_sigs = 0;
static void app_handler(int s) { (void)s; app_sigs++; }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
void *__real_MKL_malloc(size_t, int); void *__real_MKL_calloc(size_t, size_t, int); void __real_MKL_free(void*);
int __real_clock_gettime(clockid_t, struct timespec*);

static int should_fail(void) {
  if (!in_lib) return 0;
  alloc_no++;
  if ((fail_at && alloc_no == fail_at) || (fail_from && alloc_no >= fail_from)) { fail_done++; return 1; }
  return 0;
}
#define CAN 32   /* canary bytes behind every block */
static void note(void *p, size_t sz) { if (in_lib && p && nblk < MAXBLK) { memset((char*)p + sz, 0xC3, CAN); blk[nblk].p = p; blk[nblk].sz = sz; blk[nblk].slot = cur_slot; nblk++; } }
static long overrun = 0;
static void chk_can(int i) { unsigned char *c = (unsigned char*)blk[i].p + blk[i].sz; for (int k = 0; k < CAN; k++) if (c[k] != 0xC3) { overrun++; return; } }
static int unnote(void *p) {
  int i; if (!p) return 1;
  for (i = nblk - 1; i >= 0; i--) if (blk[i].p == p) { chk_can(i); blk[i] = blk[--nblk]; return 1; }
  if (in_lib) bad_free++;
  return !in_lib;
}
void *__wrap_malloc(size_t n) { if (should_fail()) return NULL; void *p = __real_malloc(n + CAN); if (in_lib && p) memset(p, 0xA5, n); note(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (should_fail()) return NULL; void *p = __real_calloc(1, a * b + CAN); note(p, a*b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (should_fail()) return NULL; unnote(q); void *p = __real_realloc(q, n + CAN); note(p, n); return p; }
void __wrap_free(void *p) { if (unnote(p)) __real_free(p); }
void *__wrap_MKL_malloc(size_t n, int a) { if (n == 0) return __real_MKL_malloc(0, a); /* NULL: callers rely on it */ if (should_fail()) return NULL; void *p = __real_MKL_malloc(n + CAN, a); if (in_lib && p) memset(p, 0xA5, n); note(p, n); return p; }
void *__wrap_MKL_calloc(size_t x, size_t n, int a) { if (x * n == 0) return __real_MKL_calloc(x, n, a); if (should_fail()) return NULL; void *p = __real_MKL_calloc(1, x * n + CAN, a); note(p, x*n); return p; }
void __wrap_MKL_free(void *p) { if (unnote(p)) __real_MKL_free(p); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!in_lib) return __real_clock_gettime(c, t);
  t->tv_sec = vnow / 1000000000LL; t->tv_nsec = vnow % 1000000000LL; return 0;
}
/* external handles: a PARDISO session (symbolic factorisation .. phase -1), an MKL sparse handle (create .. destroy) */
#define MAXH 4000
static struct { void *p; int slot; } hnd[MAXH]; static int nhnd = 0;
static void note_handle(void *p) { for (int i = 0; i < nhnd; i++) if (hnd[i].p == p) return; if (nhnd < MAXH) { hnd[nhnd].p = p; hnd[nhnd++].slot = cur_slot; } }
static void unnote_handle(void *p) { for (int i = 0; i < nhnd; i++) if (hnd[i].p == p) { hnd[i] = hnd[--nhnd]; return; } }
int __real_mkl_sparse_d_create_csc(void **A, int ix, I rows, I cols, I *s, I *e, I *r, double *v);
int __wrap_mkl_sparse_d_create_csc(void **A, int ix, I rows, I cols, I *s, I *e, I *r, double *v) {
  int sv = in_lib; if (should_fail()) { *A = NULL; return 2; /* SPARSE_STATUS_ALLOC_FAILED */ }
  in_lib = 0; int k = __real_mkl_sparse_d_create_csc(A, ix, rows, cols, s, e, r, v); in_lib = sv;
  if (sv && k == 0) note_handle(*A);
  return k;
}
int __real_mkl_sparse_destroy(void *A);
int __wrap_mkl_sparse_destroy(void *A) { unnote_handle(A); int sv = in_lib; in_lib = 0; int k = __real_mkl_sparse_destroy(A); in_lib = sv; return k; }
static void note_rho(void);
static void one_solve(void) {
  n_sol++; note_rho();
  if (t_pol < 0) {
    n_sol_pre++;
    if (in_solve && n_sol_pre <= n_iterlist) vnow += iterlist[n_sol_pre - 1]; else vnow += c_iter;
    if (in_solve && sig_at && n_sol_pre == sig_at) raise(SIGINT);
  } else vnow += c_iter;
}
static double noise = 0;  /* relative perturbation of the linear solver's results (validation of the tolerances only) */
void __real_PARDISO(void*, I*, I*, I*, I*, I*, void*, I*, I*, I*, I*, I*, I*, void*, void*, I*);
void __wrap_PARDISO(void *pt, I *maxfct, I *mnum, I *mtype, I *phase, I *n, void *a, I *ia, I *ja, I *perm, I *nrhs, I *iparm, I *msglvl, void *b, void *x, I *error) {
  int sv = in_lib; I ph = *phase;
  if (sv && (ph == 11 || ph == 12 || ph == 13)) note_handle(pt);
  if (ph == -1) unnote_handle(pt);
  if (sv) {
    if (ph == 11 || ph == 12 || ph == 13) { n_sym++; if (in_solve && t_pol < 0) { t_pol = vnow; if (sig_pol) raise(SIGINT); } vnow += c_sym; }
    if (ph == 22 || ph == 12 || ph == 23 || ph == 13) { n_fac++; if (t_pol < 0) n_fac_pre++; vnow += c_fac; }
    if (ph == 33 || ph == 13 || ph == 23) one_solve();
  }
  in_lib = 0;
  __real_PARDISO(pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error);
  if (sv && noise > 0 && (ph == 33 || ph == 13 || ph == 23)) for (I k = 0; k < *n; k++) ((double*)(iparm[5] ? b : x))[k] *= 1 + noise * (2 * drand48() - 1);
  in_lib = sv;
}
void __real_dcg(const I*, double*, const double*, I*, I*, double*, double*);
static int cg_fresh = 0;
/* what the conjugate-gradient calls of one linear solve exchanged with the library */
#define CGMAX 260
#define CGN 16
typedef struct { int n; I it, rci; long mv, pc; double rlast, rmin, xm; int hasp; double x[CGN], pre[CGN], post[CGN]; } CgRec;
static CgRec cgr[CGMAX]; static long n_cgr = 0; static I cg_last = 0;
void __real_dcg_init(const I*, const double*, const double*, I*, I*, double*, double*);
void __wrap_dcg_init(const I *n, const double *x, const double *b, I *rci, I *ipar, double *dpar, double *tmp) {
  cg_fresh = 1;
  __real_dcg_init(n, x, b, rci, ipar, dpar, tmp);
}
void __wrap_dcg(const I *n, double *x, const double *b, I *rci, I *ipar, double *dpar, double *tmp) {
  int sv = in_lib;
  if (sv && cg_fresh) { cg_fresh = 0; n_cg++; one_solve(); n_cgr++; cg_last = 0; if (n_cgr <= CGMAX && *n <= CGN) { memset(&cgr[n_cgr - 1], 0, sizeof(CgRec)); cgr[n_cgr - 1].n = (int)*n; cgr[n_cgr - 1].rmin = INFINITY; } }
  CgRec *g = sv && n_cgr > 0 && n_cgr <= CGMAX && *n <= CGN ? &cgr[n_cgr - 1] : NULL;
  if (g) for (I k = 0; k < *n; k++) g->xm = fmax(g->xm, fabs(x[k]));   /* largest entry of any iterate */
  if (g && cg_last == 3 && !g->hasp) { g->hasp = 1; memcpy(g->pre, tmp + 2 * *n, 8 * *n); memcpy(g->post, tmp + 3 * *n, 8 * *n); }
  if (g && cg_last == 2 && g->rlast < g->rmin) g->rmin = g->rlast;      /* the library asked to go on */
  in_lib = 0;
  __real_dcg(n, x, b, rci, ipar, dpar, tmp);
  in_lib = sv;
  if (g) { cg_last = *rci; g->rci = *rci; g->it = ipar[3]; g->mv += *rci == 1; g->pc += *rci == 3; memcpy(g->x, x, 8 * *n);
    if (*rci == 2) { g->rlast = 0; for (I k = 0; k < *n; k++) g->rlast = fmax(g->rlast, fabs(tmp[2 * *n + k])); } }
}

/* ---------------------------------------------------------------- tokenizer */
static char *src, *pos, *lim;
static char *tok(void) {
  while (pos < lim && (*pos == ' ' || *pos == '\n' || *pos == '\t')) pos++;
  if (pos >= lim) return NULL;
  char *s = pos; while (pos < lim && *pos != ' ' && *pos != '\n' && *pos != '\t') pos++;
  if (pos < lim) *pos++ = 0;
  return s;
}
static long long ti(void) { char *t = tok(); return t ? atoll(t) : 0; }
static double td(void) { char *t = tok(); return t ? strtod(t, NULL) : 0; }

/* ---------------------------------------------------------------- problems and solvers */
#define NP 16
#define NS 6
typedef struct { OSQPInt n, m, Pnz, Anz; OSQPInt *Pp, *Pi, *Ap, *Ai; OSQPFloat *Px, *Ax, *q, *l, *u;
  OSQPCscMatrix P, A; int nullP, nullA, nullq, nulll, nullu, hP, hA; OSQPInt Pm, Pn, Am, An, sm, sn; } Prob;
static Prob prob[NP];
static OSQPSolver *slv[NS];
static OSQPInt sn[NS], sm[NS];
/* the step size each linear solve of osqp_solve runs with: (solve, rho) wherever it differs from the previous one */
#define RLMAX 4200
static struct { long k; double v; } rl[RLMAX]; static long n_rl = 0;
static void note_rho(void) {
  if (!in_solve || cur_slot >= NS || !slv[cur_slot] || t_pol >= 0) return;
  double v = slv[cur_slot]->settings->rho;
  if ((n_rl == 0 || rl[n_rl - 1].v != v) && n_rl < RLMAX) { rl[n_rl].k = n_sol_pre + 1; rl[n_rl++].v = v; }
}
static FILE *out;
static int ev_idx;
static const char *case_id;

static double *rdv(long n) { double *v = __real_malloc(sizeof(double) * (n > 0 ? n : 1)); for (long i = 0; i < n; i++) v[i] = td(); return v; }
static OSQPInt *rdi(long n) { OSQPInt *v = __real_malloc(sizeof(OSQPInt) * (n > 0 ? n : 1)); for (long i = 0; i < n; i++) v[i] = ti(); return v; }
static double *dupv(const double *a, long n) { double *v = __real_malloc(sizeof(double) * (n > 0 ? n : 1)); if (n > 0) memcpy(v, a, sizeof(double) * n); return v; }

static void rd_prob(void) {
  int k = (int)ti(); Prob *p = &prob[k]; memset(p, 0, sizeof *p);
  p->n = ti(); p->m = ti(); p->Pnz = ti(); p->Anz = ti();
  p->Pp = rdi(p->n + 1); p->Pi = rdi(p->Pnz); p->Px = rdv(p->Pnz);
  p->Ap = rdi(p->n + 1); p->Ai = rdi(p->Anz); p->Ax = rdv(p->Anz);
  p->q = rdv(p->n); p->l = rdv(p->m); p->u = rdv(p->m);
  p->Pm = p->Pn = p->n; p->Am = p->m; p->An = p->n; p->sm = p->m; p->sn = p->n;
}
static void mutate_prob(void) { /* pmod k field value : malformed headers */
  int k = (int)ti(); char *f = tok(); OSQPInt v = ti(); Prob *p = &prob[k];
  if (!strcmp(f, "nullP")) p->nullP = (int)v; else if (!strcmp(f, "nullA")) p->nullA = (int)v; else if (!strcmp(f, "nullq")) p->nullq = (int)v;
  else if (!strcmp(f, "nulll")) p->nulll = (int)v; else if (!strcmp(f, "nullu")) p->nullu = (int)v;
  else if (!strcmp(f, "Pm")) p->Pm = v; else if (!strcmp(f, "Pn")) p->Pn = v; else if (!strcmp(f, "Am")) p->Am = v; else if (!strcmp(f, "An")) p->An = v;
  else if (!strcmp(f, "hP")) p->hP = (int)v; else if (!strcmp(f, "hA")) p->hA = (int)v;
  else if (!strcmp(f, "m")) p->sm = v; else if (!strcmp(f, "n")) p->sn = v;
}
static int set_field(OSQPSettings *s, const char *k, const char *v) {
#define FI(name) if (!strcmp(k, #name)) { s->name = atoll(v); return 1; }
#define FE(name) if (!strcmp(k, #name)) { s->name = (int)atoll(v); return 1; }
#define FF(name) if (!strcmp(k, #name)) { s->name = strtod(v, NULL); return 1; }
  FI(device) FE(linsys_solver) FI(allocate_solution) FI(verbose) FI(profiler_level) FI(warm_starting) FI(scaling) FI(polishing)
  FF(rho) FI(rho_is_vec) FF(sigma) FF(alpha) FI(cg_max_iter) FI(cg_tol_reduction) FF(cg_tol_fraction) FE(cg_precond)
  FI(adaptive_rho) FI(adaptive_rho_interval) FF(adaptive_rho_fraction) FF(adaptive_rho_tolerance) FI(max_iter) FF(eps_abs) FF(eps_rel)
  FF(eps_prim_inf) FF(eps_dual_inf) FI(scaled_termination) FI(check_termination) FI(check_dualgap) FF(time_limit) FF(delta) FI(polish_refine_iter)
  fprintf(stderr, "driver: unknown setting %s\n", k); exit(3);
}
static void p_settings(const OSQPSettings *s) {
  if (!s) { fprintf(out, "null"); return; }
  fprintf(out, "{");
#define PI(name) fprintf(out, "\"%s\":%lld,", #name, (long long)s->name);
#define PF(name) fprintf(out, "\"%s\":\"%a\",", #name, s->name);
  PI(device) PI(linsys_solver) PI(allocate_solution) PI(verbose) PI(profiler_level) PI(warm_starting) PI(scaling) PI(polishing)
  PF(rho) PI(rho_is_vec) PF(sigma) PF(alpha) PI(cg_max_iter) PI(cg_tol_reduction) PF(cg_tol_fraction) PI(cg_precond)
  PI(adaptive_rho) PI(adaptive_rho_interval) PF(adaptive_rho_fraction) PF(adaptive_rho_tolerance) PI(max_iter) PF(eps_abs) PF(eps_rel)
  PF(eps_prim_inf) PF(eps_dual_inf) PI(scaled_termination) PI(check_termination) PI(check_dualgap) PF(time_limit) PF(delta)
  fprintf(out, "\"polish_refine_iter\":%lld}", (long long)s->polish_refine_iter);
}
static void p_vec(const char *nm, const double *v, long n, int last) {
  fprintf(out, "\"%s\":", nm);
  if (!v) fprintf(out, "null"); else { fprintf(out, "["); for (long i = 0; i < n; i++) fprintf(out, "%s\"%a\"", i ? "," : "", v[i]); fprintf(out, "]"); }
  if (!last) fprintf(out, ",");
}
static void p_info(const OSQPInfo *i) {
  if (!i) { fprintf(out, "null"); return; }
  fprintf(out, "{\"status\":\"%.31s\",\"status_val\":%lld,\"status_polish\":%lld,\"iter\":%lld,\"rho_updates\":%lld", i->status, (long long)i->status_val, (long long)i->status_polish, (long long)i->iter, (long long)i->rho_updates);
#define IF(name) fprintf(out, ",\"%s\":\"%a\"", #name, i->name);
  IF(obj_val) IF(dual_obj_val) IF(prim_res) IF(dual_res) IF(duality_gap) IF(rho_estimate) IF(setup_time) IF(solve_time) IF(update_time) IF(polish_time) IF(run_time) IF(primdual_int) IF(rel_kkt_error)
  fprintf(out, "}");
}
static void p_sol(const OSQPSolution *s, long n, long m) {
  if (!s) { fprintf(out, "null"); return; }
  fprintf(out, "{"); p_vec("x", s->x, n, 0); p_vec("y", s->y, m, 0); p_vec("pc", s->prim_inf_cert, m, 0); p_vec("dc", s->dual_inf_cert, n, 1); fprintf(out, "}");
}
static int outfd;     /* captured stdout */
static void p_stdout(void) {
  fflush(stdout);
  off_t sz = lseek(outfd, 0, SEEK_END);
  char *b = __real_malloc(sz + 1); long i;
  lseek(outfd, 0, SEEK_SET); if (read(outfd, b, sz) < 0) sz = 0;
  if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET);
  fprintf(out, "\"");
  for (i = 0; i < sz; i++) { unsigned char c = b[i]; if (c == '\n') fprintf(out, "\\n"); else if (c == '"' || c == '\\') fprintf(out, "\\%c", c); else if (c < 32 || c > 126) fprintf(out, " "); else fputc(c, out); }
  fprintf(out, "\"");
  __real_free(b);
}
static int handler_ok(void) { struct sigaction a; sigaction(SIGINT, NULL, &a); return a.sa_handler == app_handler && (a.sa_flags & SA_RESTART) && sigismember(&a.sa_mask, SIGUSR1) == 1; }
static long live_h(int slot) { long c = 0; for (int i = 0; i < nhnd; i++) if (hnd[i].slot == slot) c++; return c; }
static long live(int slot) { long c = 0; for (int i = 0; i < nblk; i++) if (blk[i].slot == slot) c++; return c; }

static long long call_t0;
static void enter(int s) { cur_slot = s; alloc_no = 0; fail_done = 0; n_sym = n_fac = n_sol = n_cg = n_fac_pre = n_sol_pre = 0; n_cgr = 0; n_rl = 0; t_pol = -1; call_t0 = vnow; fflush(stdout); in_lib = 1; }
static void leave(void) { in_lib = 0; fflush(stdout); }
static void rec(const char *op, int s, long long ret, int intact) {
  fprintf(out, "{\"case\":\"%s\",\"i\":%d,\"op\":\"%s\",\"s\":%d,\"ret\":%lld,\"intact\":%d,", case_id, ev_idx, op, s, ret, intact);
  long long tp = t_pol < 0 ? vnow : t_pol;
  fprintf(out, "\"nsym\":%ld,\"nfac\":%ld,\"nsol\":%ld,\"ncg\":%ld,\"nfacpre\":%ld,\"nsolpre\":%ld,\"dt\":%lld,\"dtpre\":%lld,\"dtpol\":%lld,", n_sym, n_fac, n_sol, n_cg, n_fac_pre, n_sol_pre, vnow - call_t0, tp - call_t0, vnow - tp);
  fprintf(out, "\"allocs\":%ld,\"failed\":%ld,\"live\":%ld,\"badfree\":%ld,\"overrun\":%ld,\"handles\":%ld,\"hok\":%d,\"appsigs\":%ld,\"have\":%d,", alloc_no, fail_done, live(s), bad_free, overrun, live_h(s), handler_ok(), app_sigs, s < NS && slv[s] != NULL);
  fail_at = fail_from = 0; sig_at = 0; sig_pol = 0;
  if (!strcmp(op, "solve")) { fprintf(out, "\"rl\":["); for (long k = 0; k < n_rl; k++) fprintf(out, "%s[%ld,\"%a\"]", k ? "," : "", rl[k].k, rl[k].v); fprintf(out, "],"); }
  if (!strcmp(op, "solve") && n_cgr > 0 && n_cgr <= CGMAX) {
    fprintf(out, "\"cg\":[");
    for (long k = 0; k < n_cgr; k++) { CgRec *g = &cgr[k]; if (!g->n) { continue; }
      fprintf(out, "%s{\"it\":%lld,\"rci\":%lld,\"mv\":%ld,\"pc\":%ld,\"hasp\":%d,\"rmin\":\"%a\",\"xm\":\"%a\",", k ? "," : "", (long long)g->it, (long long)g->rci, g->mv, g->pc, g->hasp, g->rmin, g->xm);
      p_vec("x", g->x, g->n, 0); p_vec("pre", g->pre, g->hasp ? g->n : 0, 0); p_vec("post", g->post, g->hasp ? g->n : 0, 1); fprintf(out, "}"); }
    fprintf(out, "],"); }
  fprintf(out, "\"out\":"); p_stdout();
  if (s < NS && slv[s]) {
    fprintf(out, ",\"settings\":"); p_settings(slv[s]->settings);
    fprintf(out, ",\"info\":"); p_info(slv[s]->info);
    fprintf(out, ",\"sol\":"); p_sol(slv[s]->solution, sn[s], sm[s]);
  }
  fprintf(out, "}\n"); fflush(out);
  ev_idx++;
}
/* ---------------------------------------------------------------- guarded caller arrays: contents compared after each call */
static int same(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }

/* the matrix of a problem built by one of the library's own constructors (1 scalar diagonal, 2 vector diagonal, 3 identity, 4 zeros, 5 new) */
static OSQPCscMatrix *build_csc(int k, OSQPInt m, OSQPInt n, OSQPInt nz, double *x, OSQPInt *i, OSQPInt *p) {
  return k == 1 ? OSQPCscMatrix_diag_scalar(m, n, x[0]) : k == 2 ? OSQPCscMatrix_diag_vec(m, n, x) : k == 3 ? OSQPCscMatrix_identity(m) : k == 4 ? OSQPCscMatrix_zeros(m, n) : OSQPCscMatrix_new(m, n, nz, x, i, p);
}
static void do_setup(void) {
  int s = (int)ti(), k = (int)ti(), nset = (int)ti(), i; Prob *p = &prob[k];
  OSQPSettings *st = OSQPSettings_new(); OSQPSettings stc; int nullst = 0, usedef = 0;
  for (i = 0; i < nset; i++) { char *key = tok(), *v = tok(); if (!strcmp(key, "NULL")) nullst = 1; else if (!strcmp(key, "DEFAULT")) usedef = 1; else set_field(st, key, v); }
  (void)usedef;
  stc = *st;
  OSQPCscMatrix_set_data(&p->P, p->Pm, p->Pn, p->Pnz, p->Px, p->Pi, p->Pp);
  OSQPCscMatrix_set_data(&p->A, p->Am, p->An, p->Anz, p->Ax, p->Ai, p->Ap);
  OSQPCscMatrix Pc = p->P, Ac = p->A;
  double *q = dupv(p->q, p->n), *l = dupv(p->l, p->m), *u = dupv(p->u, p->m), *Px = dupv(p->Px, p->Pnz), *Ax = dupv(p->Ax, p->Anz);
  OSQPInt *Pi = __real_malloc(8 * (p->Pnz + 1)), *Ai = __real_malloc(8 * (p->Anz + 1)), *Pp = __real_malloc(8 * (p->n + 1)), *Ap = __real_malloc(8 * (p->n + 1));
  memcpy(Pi, p->Pi, 8 * p->Pnz); memcpy(Ai, p->Ai, 8 * p->Anz); memcpy(Pp, p->Pp, 8 * (p->n + 1)); memcpy(Ap, p->Ap, 8 * (p->n + 1));
  slv[s] = NULL; sn[s] = p->n; sm[s] = p->m;
  OSQPCscMatrix *HP = &p->P, *HA = &p->A;
  enter(NS);
  if (p->hP) HP = build_csc(p->hP, p->n, p->n, p->Pnz, p->Px, p->Pi, p->Pp); if (p->hA) HA = build_csc(p->hA, p->m, p->n, p->Anz, p->Ax, p->Ai, p->Ap);
  leave(); enter(s);
  OSQPInt r = osqp_setup(&slv[s], p->nullP ? NULL : HP, p->nullq ? NULL : p->q, p->nullA ? NULL : HA, p->nulll ? NULL : p->l, p->nullu ? NULL : p->u, p->sm, p->sn, nullst ? NULL : st);
  leave();
  int ok = same(&Pc, &p->P, sizeof Pc) && same(&Ac, &p->A, sizeof Ac) && same(&stc, st, sizeof stc) && same(q, p->q, 8 * p->n) && same(l, p->l, 8 * p->m) && same(u, p->u, 8 * p->m)
        && same(Px, p->Px, 8 * p->Pnz) && same(Ax, p->Ax, 8 * p->Anz) && same(Pi, p->Pi, 8 * p->Pnz) && same(Ai, p->Ai, 8 * p->Anz) && same(Pp, p->Pp, 8 * (p->n + 1)) && same(Ap, p->Ap, 8 * (p->n + 1));
  if (p->hP || p->hA) { long an = alloc_no, fd = fail_done, ns = n_sym, nf = n_fac, nso = n_sol, np = n_sol_pre, nfp = n_fac_pre; long long t0 = call_t0, tp = t_pol;
    enter(NS); if (p->hP) OSQPCscMatrix_free(HP); if (p->hA) OSQPCscMatrix_free(HA); leave(); ok = ok && live(NS) == 0;
    cur_slot = s; alloc_no = an; fail_done = fd; n_sym = ns; n_fac = nf; n_sol = nso; n_sol_pre = np; n_fac_pre = nfp; call_t0 = t0; t_pol = tp; }
  memset(st, 0x5A, sizeof *st); OSQPSettings_free(st);   /* the caller's settings are gone afterwards */
  rec("setup", s, r, ok);
}
static void do_scribble(void) { /* caller reuses its memory */
  int k = (int)ti(); Prob *p = &prob[k]; long i;
  for (i = 0; i < p->Pnz; i++) { p->Px[i] = 1e9 + i; p->Pi[i] = 0; } for (i = 0; i < p->Anz; i++) { p->Ax[i] = -1e9 - i; p->Ai[i] = 0; }
  for (i = 0; i <= p->n; i++) { p->Pp[i] = 0; p->Ap[i] = 0; } for (i = 0; i < p->n; i++) p->q[i] = 7e9;
  for (i = 0; i < p->m; i++) { p->l[i] = 5e9; p->u[i] = -5e9; } memset(&p->P, 0, sizeof p->P); memset(&p->A, 0, sizeof p->A);
}
static double *optv(long *n) { *n = 0; char *t = tok(); if (!strcmp(t, "-")) return NULL; *n = ti(); return rdv(*n); }
static int chk_free(double *a, double *c, long n) { int ok = 1; if (a) { ok = same(a, c, 8 * n); for (long i = 0; i < n; i++) a[i] = 3e33; __real_free(a); __real_free(c); } return ok; }

static void run_case(void) {
  char *t; double *a, *b, *c; int s; OSQPInt r; long i;
  while ((t = tok()) && strcmp(t, "endcase")) {
    if (!strcmp(t, "prob")) rd_prob();
    else if (!strcmp(t, "pmod")) mutate_prob();
    else if (!strcmp(t, "clock")) { c_sym = ti(); c_fac = ti(); c_iter = ti(); }
    else if (!strcmp(t, "iterlist")) { n_iterlist = (int)ti(); for (i = 0; i < n_iterlist; i++) iterlist[i] = ti(); }
    else if (!strcmp(t, "advance")) vnow += ti();
    else if (!strcmp(t, "failat")) fail_at = ti();
    else if (!strcmp(t, "failfrom")) fail_from = ti();
    else if (!strcmp(t, "sigat")) sig_at = ti();
    else if (!strcmp(t, "sigpol")) sig_pol = 1;
    else if (!strcmp(t, "sigint")) raise(SIGINT);
    else if (!strcmp(t, "scribble")) do_scribble();
    else if (!strcmp(t, "setup")) do_setup();
    else if (!strcmp(t, "solve")) { s = (int)ti(); in_solve = 1; enter(s); r = osqp_solve(slv[s]); leave(); in_solve = 0; rec("solve", s, r, 1); n_iterlist = 0; }
    else if (!strcmp(t, "cleanup")) { s = (int)ti(); enter(s); r = osqp_cleanup(slv[s]); leave(); slv[s] = NULL; rec("cleanup", s, r, 1); }
    else if (!strcmp(t, "update_vec")) {
      long la, lb, lc; s = (int)ti(); a = optv(&la); b = optv(&lb); c = optv(&lc); double *ac = a ? dupv(a, la) : 0, *bc = b ? dupv(b, lb) : 0, *cc = c ? dupv(c, lc) : 0;
      enter(s); r = osqp_update_data_vec(slv[s], a, b, c); leave();
      int ok = chk_free(a, ac, la); ok &= chk_free(b, bc, lb); ok &= chk_free(c, cc, lc); rec("update_vec", s, r, ok);
    }
    else if (!strcmp(t, "update_mat")) { /* s Pn lenv v.. leni i..  An lenv v.. leni i..   (len -1 = NULL pointer) */
      s = (int)ti(); OSQPInt Pn = ti(); long lv = ti(); double *Px = lv < 0 ? NULL : rdv(lv); long li = ti(); OSQPInt *Pi = li < 0 ? NULL : rdi(li);
      OSQPInt An = ti(); long lw = ti(); double *Ax = lw < 0 ? NULL : rdv(lw); long lj = ti(); OSQPInt *Ai = lj < 0 ? NULL : rdi(lj);
      double *Pc = Px ? dupv(Px, lv) : 0, *Ac = Ax ? dupv(Ax, lw) : 0;
      enter(s); r = osqp_update_data_mat(slv[s], Px, Pi, Pn, Ax, Ai, An); leave();
      int ok = chk_free(Px, Pc, lv < 0 ? 0 : lv); ok &= chk_free(Ax, Ac, lw < 0 ? 0 : lw); rec("update_mat", s, r, ok);
      if (Pi) { for (i = 0; i < li; i++) Pi[i] = 1 << 30; __real_free(Pi); } if (Ai) { for (i = 0; i < lj; i++) Ai[i] = 1 << 30; __real_free(Ai); }
    }
    else if (!strcmp(t, "warm")) {
      long la, lb; s = (int)ti(); a = optv(&la); b = optv(&lb); double *ac = a ? dupv(a, la) : 0, *bc = b ? dupv(b, lb) : 0;
      enter(s); r = osqp_warm_start(slv[s], a, b); leave();
      int ok = chk_free(a, ac, la); ok &= chk_free(b, bc, lb); rec("warm", s, r, ok);
    }
    else if (!strcmp(t, "cold")) { s = (int)ti(); enter(s); osqp_cold_start(slv[s]); leave(); rec("cold", s, 0, 1); }
    else if (!strcmp(t, "update_rho")) { s = (int)ti(); double v = td(); enter(s); r = osqp_update_rho(slv[s], v); leave(); rec("update_rho", s, r, 1); }
    else if (!strcmp(t, "update_settings")) {
      s = (int)ti(); int n = (int)ti(), nul = 0; OSQPSettings st, sc; if (slv[s] && slv[s]->settings) st = *slv[s]->settings; else osqp_set_default_settings(&st);
      for (i = 0; i < n; i++) { char *k = tok(), *v = tok(); if (!strcmp(k, "NULL")) nul = 1; else set_field(&st, k, v); }
      sc = st; enter(s); r = osqp_update_settings(slv[s], nul ? NULL : &st); leave(); int ok = same(&st, &sc, sizeof st); memset(&st, 0x5A, sizeof st); rec("update_settings", s, r, ok);
    }
    else if (!strcmp(t, "get_solution")) {
      s = (int)ti(); int nul = (int)ti(); long n = sn[s], m = sm[s]; OSQPSolution so; double *bx = __real_malloc(8 * (2 * n + 2 * m + 8));
      for (i = 0; i < 2 * n + 2 * m + 8; i++) bx[i] = -12345.0;
      so.x = bx + 1; so.y = bx + n + 3; so.prim_inf_cert = bx + n + m + 5; so.dual_inf_cert = bx + n + 2 * m + 7;
      enter(s); r = osqp_get_solution(slv[s], nul ? NULL : &so); leave();
      int ok = bx[0] == -12345.0 && bx[n + 1] == -12345.0 && bx[n + 2] == -12345.0 && bx[n + m + 3] == -12345.0 && bx[n + m + 4] == -12345.0 && bx[n + 2 * m + 5] == -12345.0 && bx[n + 2 * m + 6] == -12345.0 && bx[2 * n + 2 * m + 7] == -12345.0;
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"got\",\"i\":%d,\"got\":", case_id, ev_idx); p_sol(&so, n, m); fprintf(out, "}\n");
      rec("get_solution", s, r, ok); __real_free(bx);
    }
    else if (!strcmp(t, "dims")) { s = (int)ti(); OSQPInt m = -7, n = -7; enter(s); osqp_get_dimensions(slv[s], &m, &n); leave();
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"dims\",\"i\":%d,\"m\":%lld,\"n\":%lld}\n", case_id, ev_idx, (long long)m, (long long)n); rec("dims", s, 0, 1); }
    else if (!strcmp(t, "errmsg")) { long long v = ti(); enter(NS); const char *e = osqp_error_message(v); leave();
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"errmsg\",\"i\":%d,\"null\":%d,\"msg\":\"", case_id, ev_idx, e == NULL); for (; e && *e; e++) if (*e == '\n') fprintf(out, "\\n"); else if (*e >= 32 && *e < 127 && *e != '"' && *e != '\\') fputc(*e, out); fprintf(out, "\"}\n"); rec("errmsg", NS, 0, 1); }
    else if (!strcmp(t, "intro")) { enter(NS); OSQPInt cap = osqp_capabilities(); const char *v = osqp_version(); OSQPSettings st, *sp; memset(&st, 0x77, sizeof st); osqp_set_default_settings(&st); osqp_set_default_settings(NULL); osqp_set_default_codegen_defines(NULL);
      OSQPCodegenDefines d; memset(&d, 0x77, sizeof d); osqp_set_default_codegen_defines(&d); sp = OSQPSettings_new(); OSQPCodegenDefines *dp = OSQPCodegenDefines_new(); leave();
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"intro\",\"i\":%d,\"cap\":%lld,\"ver\":\"%s\",\"ownver\":\"%s\",\"same\":%d,\"cg\":[%lld,%lld,%lld,%lld,%lld,%lld],\"settings\":", case_id, ev_idx, (long long)cap, v, "",
              sp && dp && !memcmp(&d, dp, sizeof d), (long long)d.embedded_mode, (long long)d.float_type, (long long)d.printing_enable, (long long)d.profiling_enable, (long long)d.interrupt_enable, (long long)d.derivatives_enable);
      p_settings(&st); fprintf(out, ",\"settings2\":"); p_settings(sp); fprintf(out, "}\n");
      enter(NS); OSQPSettings_free(sp); OSQPSettings_free(NULL); OSQPCodegenDefines_free(dp); OSQPCodegenDefines_free(NULL); leave(); rec("intro", NS, 0, 1); }
    else if (!strcmp(t, "unsupported")) { s = (int)ti(); OSQPFloat d1[64] = {0}; OSQPCodegenDefines d; osqp_set_default_codegen_defines(&d); OSQPCscMatrix M; memset(&M, 0, sizeof M); OSQPInt rr[4];
      enter(s); rr[0] = osqp_codegen(slv[s], "/nonexistent/dir/", "p_", &d); rr[1] = osqp_adjoint_derivative_compute(slv[s], d1, d1); rr[2] = osqp_adjoint_derivative_get_mat(slv[s], &M, &M); rr[3] = osqp_adjoint_derivative_get_vec(slv[s], d1, d1, d1); leave();
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"uns\",\"i\":%d,\"rets\":[%lld,%lld,%lld,%lld]}\n", case_id, ev_idx, (long long)rr[0], (long long)rr[1], (long long)rr[2], (long long)rr[3]); rec("unsupported", s, 0, 1); }
    else if (!strcmp(t, "csc")) { /* csc kind m n vals.. */
      char *k = tok(); OSQPInt m = ti(), n = ti(), mn = m < n ? m : n; OSQPCscMatrix *M = NULL; double sc = 0, *v = NULL, *vc = NULL; OSQPInt *pp = NULL, *ii = NULL; OSQPInt nz = 0; OSQPCscMatrix st; int ok = 1, stk = 0;
      if (!strcmp(k, "scalar")) sc = td(); else if (!strcmp(k, "vec")) { v = rdv(mn); vc = dupv(v, mn); } else if (!strcmp(k, "new") || !strcmp(k, "set")) { nz = ti(); pp = rdi(n + 1); ii = rdi(nz); v = rdv(nz); vc = dupv(v, nz); }
      enter(NS);
      if (!strcmp(k, "scalar")) M = OSQPCscMatrix_diag_scalar(m, n, sc); else if (!strcmp(k, "vec")) M = OSQPCscMatrix_diag_vec(m, n, v); else if (!strcmp(k, "identity")) M = OSQPCscMatrix_identity(m);
      else if (!strcmp(k, "zeros")) M = OSQPCscMatrix_zeros(m, n); else if (!strcmp(k, "new")) M = OSQPCscMatrix_new(m, n, nz, v, ii, pp); else if (!strcmp(k, "set")) { memset(&st, 0x33, sizeof st); OSQPCscMatrix_set_data(&st, m, n, nz, v, ii, pp); M = &st; stk = 1; }
      leave();
      fprintf(out, "{\"case\":\"%s\",\"aux\":\"csc\",\"i\":%d,\"null\":%d", case_id, ev_idx, M == NULL);
      if (M) {
        long nn = M->p ? M->p[M->n] : 0;
        if (pp) ok = M->p == pp && M->i == ii && M->x == v;
        fprintf(out, ",\"m\":%lld,\"n\":%lld,\"nzmax\":%lld,\"nz\":%lld,\"p\":[", (long long)M->m, (long long)M->n, (long long)M->nzmax, (long long)M->nz);
        for (i = 0; i <= M->n; i++) fprintf(out, "%s%lld", i ? "," : "", (long long)M->p[i]); fprintf(out, "],\"ri\":[");
        for (i = 0; i < nn; i++) fprintf(out, "%s%lld", i ? "," : "", (long long)M->i[i]); fprintf(out, "],"); p_vec("x", M->x ? M->x : (double*)&nn, nn, 1);
      }
      fprintf(out, "}\n");
      enter(NS); if (!stk) OSQPCscMatrix_free(M); OSQPCscMatrix_free(NULL); leave();
      if (v) { ok = ok && same(v, vc, 8 * (pp ? nz : mn)); __real_free(v); __real_free(vc); } if (pp) { __real_free(pp); __real_free(ii); }
      rec("csc", NS, 0, ok);
    }
    else { fprintf(stderr, "driver: unknown op %s in case %s\n", t, case_id); exit(3); }
  }
}
int MKL_Set_Interface_Layer(int); double cblas_ddot(I, const double*, I, const double*, I); void vdAdd(I, const double*, const double*, double*);
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 3; }
  if (getenv("OSQPDRV_NOISE")) noise = atof(getenv("OSQPDRV_NOISE"));
  fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f); src = __real_malloc(sz + 1); if (fread(src, 1, sz, f) != (size_t)sz) return 3; src[sz] = 0; fclose(f);
  out = fopen(argv[2], "w"); if (!out) { perror(argv[2]); return 3; }
  int nofork = argc > 3 && !strcmp(argv[3], "nofork");
  pos = src; lim = src + sz;
  /* load MKL once, before forking */
  { MKL_Set_Interface_Layer(1 /* ILP64, as the library's headers */);
    void *pt[64] = {0}; I mf = 1, mn = 1, mt = -2, ph = 13, nn = 2, nr = 1, ip[64] = {0}, ml = 0, er = 0, ia[3] = {1, 2, 3}, ja[2] = {1, 2}, pm[2]; double a[2] = {1, 2}, b[2] = {1, 1}, x[2], y[2];
    ip[0] = 1; ip[1] = 2; ip[34] = 0;
    __real_PARDISO(pt, &mf, &mn, &mt, &ph, &nn, a, ia, ja, pm, &nr, ip, &ml, b, x, &er); ph = -1; __real_PARDISO(pt, &mf, &mn, &mt, &ph, &nn, a, ia, ja, pm, &nr, ip, &ml, b, x, &er);
    vdAdd(2, a, b, y); y[0] += cblas_ddot(2, a, 1, b, 1);
    void *h = NULL; I cs[3] = {0, 1, 2}, rw[2] = {0, 1}; if (!__real_mkl_sparse_d_create_csc(&h, 0, 2, 2, cs, cs + 1, rw, a)) __real_mkl_sparse_destroy(h); }
  char *t;
  while ((t = tok())) {
    if (strcmp(t, "case")) { fprintf(stderr, "driver: expected case, got %s\n", t); return 3; }
    case_id = tok();
    /* the child tokenises its own copy of the text; the parent skips to the endcase */
    fflush(out); fflush(stdout);
    pid_t pid = nofork ? 0 : fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = app_handler; sa.sa_flags = SA_RESTART; sigemptyset(&sa.sa_mask); sigaddset(&sa.sa_mask, SIGUSR1); sigaction(SIGINT, &sa, NULL);
      if (!nofork) alarm(60);
      outfd = memfd_create("out", 0); fflush(stdout); dup2(outfd, 1);
      ev_idx = 0; run_case(); fflush(out); if (!nofork) _exit(0); else return 0;
    }
    int st; waitpid(pid, &st, 0);
    fseek(out, 0, SEEK_END);
    if (WIFSIGNALED(st)) fprintf(out, "{\"case\":\"%s\",\"op\":\"crash\",\"sig\":%d}\n", case_id, WTERMSIG(st));
    else if (WEXITSTATUS(st)) { if (WEXITSTATUS(st) == 3) { fprintf(stderr, "driver: script error in case %s\n", case_id); return 3; } fprintf(out, "{\"case\":\"%s\",\"op\":\"crash\",\"sig\":%d}\n", case_id, 1000 + WEXITSTATUS(st)); }
    else fprintf(out, "{\"case\":\"%s\",\"op\":\"end\"}\n", case_id);
    char *e = strstr(pos, "\nendcase"); if (!e) break; pos = e + 8;
  }
  fclose(out);
  return 0;
}
