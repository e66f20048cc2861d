// Optimisers with user callbacks, wavelet objects, spectral plans, randomised SVD.
#include "ops.h"
#include "lib.h"
#include <math.h>
#include <algorithm>

static Slot &slotOf(Ctx &X) { return X.st->s[X.A("slot", 0, NSLOT - 1, 0)]; }
static bool oracle(Ctx &X) { return !(X.env->flags & EF_NO_ORACLE); }
static bool allFinite(const DV &v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }

// ---------------------------------------------------------------- user callbacks
// kind: 0 quadratic 1 Rosenbrock 2 quartic 3 Powell 4 log-cosh 5 sum of |x| 6 flat 7 unbounded below
// fault: 0 none 1 NaN at k-th 2 +Inf at k-th 3 -Inf at k-th 4 NaN from k on 5 NaN region 6 Inf region 7 jump region 8 noise 9 huge values from k on
struct CB {
  Ctx *X; int kind, n, fault; long k; long calls = 0, gcalls = 0; int nest; double nestRef[4]; bool nestOk = true; DV c; int gfault = 0;
};
static double objTrue(int kind, const double *x, int n, const DV &c) {
  double s = 0;
  switch (kind) {
  case 0: for (int i = 0; i < n; i++) s += (i + 1) * (x[i] - c[i]) * (x[i] - c[i]); return s;
  case 1: if (n == 1) return (1 - x[0]) * (1 - x[0]); for (int i = 0; i + 1 < n; i++) s += 100 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]) + (1 - x[i]) * (1 - x[i]); return s;
  case 2: for (int i = 0; i < n; i++) { double t = x[i] - c[i]; s += t * t * t * t + 0.5 * t * t; } return s + 2;
  case 3: for (int i = 0; i < n; i++) { double a = x[i] + 10 * x[(i + 1) % n], b = x[i] - x[(i + 1) % n]; s += a * a + 5 * b * b * b * b; } return s;
  case 4: for (int i = 0; i < n; i++) { double t = fabs(x[i] - c[i]); s += t + log1p(::exp(-2 * t)); } return s;
  case 5: for (int i = 0; i < n; i++) s += fabs(x[i] - c[i]); return s;
  case 6: return 4.25;
  case 8: for (int i = 0; i < n; i++) { double t = fabs(x[i] - c[i]); s += t * (1 + 0.3 * sin(1e3 * x[i])); } return s; // rough: one-dimensional searches only
  default: for (int i = 0; i < n; i++) s += (i + 1) * x[i]; return s;
  }
}
static void objGrad(int kind, const double *x, int n, const DV &c, double *g) {
  for (int i = 0; i < n; i++) g[i] = 0;
  switch (kind) {
  case 0: for (int i = 0; i < n; i++) g[i] = 2 * (i + 1) * (x[i] - c[i]); break;
  case 1: if (n == 1) { g[0] = -2 * (1 - x[0]); break; } for (int i = 0; i + 1 < n; i++) { double t = x[i + 1] - x[i] * x[i]; g[i] += -400 * x[i] * t - 2 * (1 - x[i]); g[i + 1] += 200 * t; } break;
  case 2: for (int i = 0; i < n; i++) { double t = x[i] - c[i]; g[i] = 4 * t * t * t + t; } break;
  case 3: for (int i = 0; i < n; i++) { int j = (i + 1) % n; double a = x[i] + 10 * x[j], b = x[i] - x[j]; g[i] += 2 * a + 20 * b * b * b; g[j] += 20 * a - 20 * b * b * b; } break;
  case 4: for (int i = 0; i < n; i++) g[i] = tanh(x[i] - c[i]); break;
  case 5: for (int i = 0; i < n; i++) g[i] = x[i] > c[i] ? 1 : x[i] < c[i] ? -1 : 0; break;
  case 6: break;
  default: for (int i = 0; i < n; i++) g[i] = i + 1; break;
  }
}
// what a callback may do besides computing a number: call the library itself on objects of its own
static void nestWork(int kind, double *o) {
  o[0] = o[1] = o[2] = o[3] = 0;
  if (kind == 1) { // a transform plan
    fft_object f = ::fft_init(9, 1); fft_data in[9], ou[9]; for (int i = 0; i < 9; i++) { in[i].re = i * 0.5 - (i % 3); in[i].im = 0; } ::fft_exec(f, in, ou); ::free_fft(f); o[0] = ou[2].re; o[1] = ou[5].im;
  } else if (kind == 2) { // a small regression solved by QR
    double A[12], b[6], x[2]; for (int i = 0; i < 6; i++) { A[2 * i] = 1; A[2 * i + 1] = i; b[i] = 2 + 0.5 * i + (i % 2); } ::lls_qr(A, b, 6, 2, x); o[0] = x[0]; o[1] = x[1];
  } else if (kind == 3) { // another minimisation
    struct P { static double f(double x, void *) { return (x - 0.3) * (x - 0.3) + 1; } }; custom_funcuni fu; fu.funcuni = P::f; fu.params = nullptr; o[0] = ::fminbnd(&fu, -1, 2);
  } else if (kind == 4) { // a wavelet transform
    wave_object w = ::wave_init("db2"); if (w) { wt_object t = ::wt_init(w, "dwt", 16, 2); if (t) { double in[16]; for (int i = 0; i < 16; i++) in[i] = (i * 7) % 5; ::dwt(t, in); o[0] = t->output[1]; o[1] = t->output[7]; ::wt_free(t); } ::wave_free(w); }
  } else if (kind == 5) { struct P { static double f(double *x, int n, void *) { double s = 0; for (int i = 0; i < n; i++) s += (x[i] - i) * (x[i] - i); return s; } }; custom_function cf; cf.funcpt = P::f; cf.params = nullptr; double xi[2] = {3, 3}; double xf[2]; int r = ::fminunc(&cf, nullptr, 2, xi, -1.0, 5, xf); o[0] = xf[0]; o[1] = xf[1]; o[2] = r; }
}
static void nestMaybe(CB *c, long at) {
  if (!c->nest || (at % 7) != 3 || at > 60) return;
  double o[4]; sim_count(CN_NEST); nestWork(c->nest, o);
  if (c->nestOk && hashD(o, 4) != hashD(c->nestRef, 4)) { c->nestOk = false; event("C01", "nested-result", "a library call of kind %d made inside a user callback returned %.17g %.17g, alone it returns %.17g %.17g", c->nest, o[0], o[1], c->nestRef[0], c->nestRef[1]); }
}
static double faulty(CB *c, double v, double x0, long at) {
  if (c->fault == 0 || c->X->env->skipFaults) return v;
  double o = v;
  switch (c->fault) {
  case 1: if (at == c->k) o = NAN; break; case 2: if (at == c->k) o = INFINITY; break; case 3: if (at == c->k) o = -INFINITY; break;
  case 4: if (at >= c->k) o = NAN; break;
  case 5: if (x0 > c->c[0] + 0.5 * (c->k % 5)) o = NAN; break; case 6: if (x0 > c->c[0] + 0.5 * (c->k % 5)) o = INFINITY; break;
  case 7: if (x0 > c->c[0] + 0.3 * (c->k % 5)) o = v + 50; break;
  case 8: { Rng r(mix(c->k, at)); o = v + r.gauss() * 3; } break;
  default: if (at >= c->k) o = 1e308; break;
  }
  if (hashD(&o, 1) != hashD(&v, 1)) sim_count(CN_CBFAULT);
  return o;
}
static double cbFun(double *x, int n, void *p) {
  CB *c = (CB *)p; c->calls++; sim_count(CN_CBCALL); sim_point(); nestMaybe(c, c->calls);
  return faulty(c, objTrue(c->kind, x, n, c->c), x[0], c->calls);
}
static void cbGrad(double *x, int n, double *g, void *p) {
  CB *c = (CB *)p; c->gcalls++; sim_count(CN_CBCALL); sim_point(); objGrad(c->kind, x, n, c->c, g);
  if (c->gfault && !c->X->env->skipFaults && c->gcalls == c->k) { g[0] = NAN; sim_count(CN_CBFAULT); }
}
static double cbUni(double x, void *p) { CB *c = (CB *)p; c->calls++; sim_count(CN_CBCALL); sim_point(); nestMaybe(c, c->calls); return faulty(c, objTrue(c->kind, &x, 1, c->c), x, c->calls); }
static double zeroTrue(int kind, double x, const DV &c) { switch (kind % 4) { case 0: return x - c[0]; case 1: return (x - c[0]) * (x - c[0]) * (x - c[0]); case 2: return tanh(x - c[0]) + 0.2 * (x - c[0]); default: return ::exp(x) - ::exp(c[0]); } }
static double cbZero(double x, void *p) { CB *c = (CB *)p; c->calls++; sim_count(CN_CBCALL); sim_point(); nestMaybe(c, c->calls); return faulty(c, zeroTrue(c->kind, x, c->c), x, c->calls); }
static bool setupCB(Ctx &X, CB &c, int n) {
  c.X = &X; c.n = n; c.kind = X.A("obj", 0, 7, 0); c.c = noise(n, X.A("cs", 0, 9999, 3), 1.5);
  c.fault = X.has("fk") ? X.A("fk", 1, 9, 1) : 0; c.k = X.A("fa", 1, 400, 5); c.gfault = X.has("gk"); c.nest = X.has("nest") ? X.A("nest", 1, 5, 1) : 0;
  if (c.nest) { nestWork(c.nest, c.nestRef); if (!X.env->nest) c.nest = 0; }
  return true;
}
static bool minOk(int code) { return code == 1 || code == 2 || code == 3 || code == 6; }
static bool well(const CB &c) { return c.fault == 0 && !c.gfault; }
static bool deterministicObj(const CB &c) { return c.fault == 0 || (c.fault >= 5 && c.fault <= 7); }
// value of the (possibly region-faulted) objective at a point, without counting an evaluation
static double objAt(CB &c, const double *x) { double v = objTrue(c.kind, x, c.n, c.c); if (c.X->env->skipFaults) return v; if (c.fault >= 5 && c.fault <= 7) return faulty(&c, v, x[0], 0); return v; }
static void checkMin(Ctx &X, CB &c, const char *what, int method, int code, const double *xi, const double *xf, const double *fpub) {
  if (!oracle(X)) return;
  sim_count(CN_REFCHECK);
  long lim = 4000L + 60000L * c.n;
  if (c.calls > lim) event("C09", "evaluations", "%s method %d used %ld evaluations for %d variables", what, method, c.calls, c.n);
  if (!minOk(code)) return;
  if (!finiteAll(xf, c.n)) { event("C09", "success-nonfinite-point", "%s method %d reports success code %d with a non-finite point (objective %d, fault %d at %ld)", what, method, code, c.kind, c.fault, c.k); return; }
  double f0 = objAt(c, xi), f1 = objAt(c, xf);
  if (c.fault == 8) return;
  if (std::isnan(f1) || f1 == INFINITY) { event("C09", "success-nonfinite-value", "%s method %d reports success code %d at a point where the objective is %g (objective %d, fault %d at %ld)", what, method, code, f1, c.kind, c.fault, c.k); return; }
  if (c.fault == 9) return; // the objective changes while the search runs: there is no value to compare
  if (c.kind == 7 && well(c) && !(f1 <= f0)) { event("C09", "worse-than-start", "%s method %d success %d", what, method, code); return; }
  if (std::isfinite(f0) && !(f1 <= f0 + 1e-9 * (1 + fabs(f0)))) event("C09", "worse-than-start", "%s method %d reports success code %d at value %.12g, the start had %.12g (objective %d, fault %d at %ld)", what, method, code, f1, f0, c.kind, c.fault, c.k);
  if (c.fault == 4 && c.calls >= c.k && c.k == 1) event("C09", "success-all-nan", "%s method %d reports success code %d although every evaluation returned NaN", what, method, code);
  if (fpub && well(c) && hashD(fpub, 1) != hashD(&f1, 1)) event("C09", "published-value", "%s method %d publishes %.17g, the objective at the published point is %.17g", what, method, *fpub, f1);
}
static DV startPoint(Ctx &X, int n) { DV x = noise(n, X.A("xs", 0, 9999, 5), X.A("far", 0, 3, 0) == 0 ? 30.0 : 2.0); return x; }
OP(o_fminunc, T_PURE | T_CB | T_STATUS) {
  int n = X.A("n", 1, 5, 2), m = X.A("method", 0, 7, 5); if (m == 0 && n > 4) n = 4; CB c; setupCB(X, c, n); DV x0 = startPoint(X, n); double *xf = OUT(n); custom_function f = {cbFun, &c}; custom_gradient g = {cbGrad, &c}; bool ug = X.A("grad", 0, 1, 0);
  double *xi = IN(x0); int r = ::fminunc(&f, ug ? &g : nullptr, n, xi, X.A("ms", 0, 2, 0) == 1 ? 5.0 : -1.0, m, xf);
  X.status(r, minOk(r)); if (minOk(r)) X.dig("xf", xf, n); X.digInt("calls", c.calls); checkMin(X, c, ug ? "fminunc with gradient" : "fminunc", m, r, x0.data(), xf, nullptr);
}
OP(o_fminnewt, T_PURE | T_CB | T_STATUS) {
  int n = X.A("n", 1, 5, 2), m = X.A("method", 1, 3, 1); CB c; setupCB(X, c, n); DV x0 = startPoint(X, n), dx(n, X.A("dx", 0, 1, 0) ? 0.5 : 1.0); double *xf = OUT(n); custom_function f = {cbFun, &c}; custom_gradient g = {cbGrad, &c}; bool ug = X.A("grad", 0, 1, 0);
  int r = ::fminnewt(&f, ug ? &g : nullptr, n, IN(x0), X.A("delta", 0, 1, 0) ? 1.0 : -1.0, IN(dx), 1.0, -1.0, m, xf);
  X.status(r, minOk(r)); if (minOk(r)) X.dig("xf", xf, n); X.digInt("calls", c.calls); for (int i = 0; i < n; i++) x0[i] *= dx[i]; /* the search starts at the scaled point */ checkMin(X, c, ug ? "fminnewt with gradient" : "fminnewt", m, r, x0.data(), xf, nullptr);
}
OP(o_fminsearch, T_PURE | T_CB | T_STATUS) {
  int n = X.A("n", 1, 4, 2); CB c; setupCB(X, c, n); DV x0 = startPoint(X, n); double *xf = OUT(n); custom_function f = {cbFun, &c};
  int r = ::fminsearch(&f, n, IN(x0), xf); X.status(r, minOk(r)); if (minOk(r)) X.dig("xf", xf, n); X.digInt("calls", c.calls); checkMin(X, c, "fminsearch", 0, r, x0.data(), xf, nullptr);
}
// a bracket around the minimiser or root, which may be exactly zero or far from it, with the interval anything from narrow to wide
static void bracket(Ctx &X, CB &c, double &a, double &b) {
  int at = X.A("at", 0, 5, 0), w = X.A("wide", 0, 7, 0); if (at == 0) c.c[0] = 0; else if (at == 1) c.c[0] *= 50; double sc = w == 0 ? 100 : w == 1 ? 1e-3 : 0.1; a = c.c[0] - X.A("a", 1, 40, 10) * sc; b = c.c[0] + X.A("b", 1, 40, 13) * sc;
}
// evaluations a bracketing search may use: a multiple of what golden section needs down to the absolute tolerance
static long bracketLimit(double a, double b, double tol) { return 100 + 8 * (long)(log((b - a) / tol) / log(1.618)); }
OP(o_fminbnd, T_PURE | T_CB) {
  CB c; setupCB(X, c, 1); double a, b; bracket(X, c, a, b); if (X.A("rough", 0, 3, 1) == 0) c.kind = 8; custom_funcuni f = {cbUni, &c}; double x, fx = 0; bool raw = X.A("raw", 0, 1, 0);
  if (raw) fx = ::brent_local_min(&f, a, b, 1e-10, 1.5e-8, &x); else x = ::fminbnd(&f, a, b);
  X.digD("x", x); if (raw) X.digD("fx", fx); X.digInt("calls", c.calls);
  if (!oracle(X)) return;
  if (!(x >= a && x <= b)) event("C09", "bracket", "one-dimensional minimisation returned %g outside [%g,%g] (objective %d, fault %d)", x, a, b, c.kind, c.fault);
  if (getenv("SIM_EFF")) fprintf(stderr, "BR min %ld %ld\n", c.calls, bracketLimit(a, b, 1e-10)); if (c.calls > bracketLimit(a, b, 1e-10)) event("C09", "evaluations", "one-dimensional minimisation used %ld evaluations on an interval of width %g", c.calls, b - a);
  if (raw && well(c)) { double t = objTrue(c.kind, &x, 1, c.c); if (hashD(&t, 1) != hashD(&fx, 1)) event("C09", "published-value", "brent_local_min returns %.17g, the objective at its point is %.17g", fx, t); }
}
OP(o_brentzero, T_PURE | T_CB) {
  CB c; setupCB(X, c, 1); double a, b; bracket(X, c, a, b); custom_funcuni f = {cbZero, &c};
  double x = ::brent_zero(&f, a, b, 1e-10, 1e-15); X.digD("x", x); X.digInt("calls", c.calls);
  if (!oracle(X)) return;
  if (!(x >= a && x <= b)) event("C09", "bracket", "root search returned %g outside [%g,%g] (function %d, fault %d)", x, a, b, c.kind % 4, c.fault);
  if (getenv("SIM_EFF")) fprintf(stderr, "BR zero %ld %ld\n", c.calls, bracketLimit(a, b, 1e-10)); if (c.calls > bracketLimit(a, b, 1e-10)) event("C09", "evaluations", "root search used %ld evaluations on an interval of width %g", c.calls, b - a);
  if (well(c) && !(fabs(x - c.c[0]) < 1e-2)) event("C09", "root", "root search returned %g, the root is %g", x, c.c[0]);
}
// residual vectors: 0 linear 1 exponential 2 Rosenbrock-like
struct CBM { CB c; int m; };
static void resTrue(CB &c, int m, const double *x, int n, double *f) {
  for (int i = 0; i < m; i++) { double t = (i + 1.0) / m; switch (c.kind % 3) {
    case 0: { double s = 0; for (int j = 0; j < n; j++) s += (x[j] - c.c[j]) * ((i * (j + 2)) % 5 + (i % n == j ? 3 : 0)); f[i] = s; } break;
    case 1: { double s = 0; for (int j = 0; j < n; j++) s += (::exp(-fabs(0.2 * x[j]) * t) - ::exp(-fabs(0.2 * c.c[j]) * t)) * (1 + (i + j) % 3); f[i] = s + 0.01 * (i % 2); } break;
    default: { int j = i % n; f[i] = i < n ? x[j] - c.c[j] : 0.5 * (x[j] * x[j] - c.c[j] * c.c[j]); } } }
}
static void cbMult(double *x, int m, int n, double *f, void *p) {
  CB *c = &((CBM *)p)->c; c->calls++; sim_count(CN_CBCALL); sim_point(); nestMaybe(c, c->calls); resTrue(*c, m, x, n, f);
  f[0] = faulty(c, f[0], x[0], c->calls);
}
static void cbJac(double *x, int m, int n, double *J, void *p) {
  CB *c = &((CBM *)p)->c; c->gcalls++; sim_count(CN_CBCALL); sim_point(); DV y(x, x + n), f0(m), f1(m);
  for (int j = 0; j < n; j++) { double h = 1e-5 * (1 + fabs(x[j])); DV a(y), b(y); a[j] += h; b[j] -= h; resTrue(*c, m, a.data(), n, f1.data()); resTrue(*c, m, b.data(), n, f0.data()); for (int i = 0; i < m; i++) J[i * n + j] = (f1[i] - f0[i]) / (2 * h); }
  if (c->gfault && !c->X->env->skipFaults && c->gcalls == c->k) { J[0] = NAN; sim_count(CN_CBFAULT); }
}
static bool nlsOk(int c) { return c >= 1 && c <= 4; }
static void checkNls(Ctx &X, CBM &c, const char *what, int code, const double *xi, const double *xf) {
  if (!oracle(X)) return; int n = c.c.n; sim_count(CN_REFCHECK);
  if (c.c.calls > 3000 + 2000L * n) event("C09", "evaluations", "%s used %ld evaluations", what, c.c.calls);
  if (!nlsOk(code)) return;
  if (!finiteAll(xf, n)) { event("C09", "success-nonfinite-point", "%s reports success code %d with a non-finite point (fault %d)", what, code, c.c.fault); return; }
  if (c.c.fault == 8) return;
  DV a(c.m), b(c.m); resTrue(c.c, c.m, xi, n, a.data()); resTrue(c.c, c.m, xf, n, b.data()); double s0 = 0, s1 = 0; if (deterministicObj(c.c) && c.c.fault) { a[0] = faulty(&c.c, a[0], xi[0], 0); b[0] = faulty(&c.c, b[0], xf[0], 0); }
  for (int i = 0; i < c.m; i++) { s0 += a[i] * a[i]; s1 += b[i] * b[i]; }
  if (!std::isfinite(s1)) { event("C09", "success-nonfinite-value", "%s reports success code %d at a point whose residuals are not finite (fault %d)", what, code, c.c.fault); return; }
  if (std::isfinite(s0) && !(s1 <= s0 * (1 + 1e-9) + 1e-12)) event("C09", "worse-than-start", "%s reports success code %d with sum of squares %.12g, the start had %.12g (fault %d at %ld)", what, code, s1, s0, c.c.fault, c.c.k);
}
OP(o_levmar, T_PURE | T_CB | T_STATUS) {
  int n = X.A("n", 1, 4, 2), m = X.A("m", n, 9, 5); CBM c; setupCB(X, c.c, n); c.m = m; DV x0 = startPoint(X, n); double *xf = OUT(n); custom_funcmult f = {cbMult, &c}; custom_jacobian j = {cbJac, &c}; bool uj = X.A("jac", 0, 1, 0);
  int r = ::levmar(&f, uj ? &j : nullptr, IN(x0), m, n, xf); X.status(r, nlsOk(r)); if (nlsOk(r)) X.dig("xf", xf, n); X.digInt("calls", c.c.calls); checkNls(X, c, uj ? "levmar with Jacobian" : "levmar", r, x0.data(), xf);
}
// optimiser objects
OPW(o_new, T_OBJ, 0) { Slot &s = slotOf(X); slotFree(X, s); s = Slot(); int n = X.A("n", 1, 4, 2); s.obj = ::opt_init(n); if (!s.obj) { X.status(0, 0); return; } s.kind = SK_OPT; s.cfg["n"] = n; X.status(1, 1); }
OPW(o_set, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_OPT && s.kind != SK_NLS) { X.skipped = true; return; } X.noprint = true;
  if (s.kind == SK_NLS) { double g = pow(10, -X.A("g", 3, 9, 5)), f = pow(10, -X.A("f", 5, 12, 8)), x = pow(10, -X.A("x", 5, 14, 9)); auto o = (nls_object)s.obj; ::setnlsTOL(o, g, f, x); if (o->gtol != g || o->ftol != f || o->xtol != x) event("C16", "no-effect", "least-squares tolerances not taken over"); return; }
  auto o = (opt_object)s.obj;
  switch (X.A("what", 0, 2, 0)) {
  case 0: { int v = X.A("mi", 1, 60, 40) * (X.A("mis", 0, 2, 1) ? 25 : 1); ::setMaxIter(o, v); if (o->MaxIter != v) event("C16", "no-effect", "iteration limit not taken over"); } break;
  case 1: { double v = X.A("ms", 0, 3, 0) ? X.A("ms", 0, 3, 0) * 2.5 : -1.0; ::setMaxStep(o, v); if (o->maxstep != v) event("C16", "no-effect", "maximum step not taken over"); } break;
  default: { double g = pow(10, -X.A("g", 3, 8, 5)), st = pow(10, -X.A("st", 5, 12, 8)), f = pow(10, -X.A("f", 5, 12, 8)), x = pow(10, -X.A("x", 5, 14, 9)); ::setTOL(o, g, st, f, x); if (o->gtol != g || o->stol != st || o->ftol != f || o->xtol != x) event("C16", "no-effect", "tolerances not taken over"); }
  }
}
static void optPublish(Ctx &X, Slot &s) {
  if (s.kind == SK_OPT) { auto o = (opt_object)s.obj; X.digInt("retval", o->retval); if (minOk(o->retval)) { X.digInt("iter", o->Iter); X.digInt("method", o->Method); X.digD("fval", o->objfunc); X.dig("xopt", o->xopt, o->N); } }
  else { auto o = (nls_object)s.obj; X.digInt("retval", o->retval); if (nlsOk(o->retval)) { X.digInt("nfev", o->nfev); X.digInt("njev", o->njev); X.digInt("iter", o->Iter); X.dig("xopt", o->xopt, o->N); } }
}
static std::string optConfig(Slot &s) { char b[300]; if (s.kind == SK_OPT) { auto o = (opt_object)s.obj; snprintf(b, sizeof b, "N=%d eps=%g gtol=%g stol=%g ftol=%g xtol=%g maxstep=%g MaxIter=%d", o->N, o->eps, o->gtol, o->stol, o->ftol, o->xtol, o->maxstep, o->MaxIter); } else { auto o = (nls_object)s.obj; snprintf(b, sizeof b, "M=%d N=%d eps=%g epsfcn=%g factor=%g gtol=%g ftol=%g xtol=%g MaxIter=%d Maxfev=%d", o->M, o->N, o->eps, o->epsfcn, o->factor, o->gtol, o->ftol, o->xtol, o->MaxIter, o->Maxfev); } return b; }
static void optConfigCheck(Slot &s, const std::string &before) { std::string a = optConfig(s); if (a != before) event("C02", "config", "a run changed the configuration of the %s from [%s] to [%s]", s.kind == SK_OPT ? "optimiser" : "least-squares solver", before.c_str(), a.c_str()); }
OPW(o_run, T_OBJ | T_CB, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_OPT) { X.skipped = true; return; } auto o = (opt_object)s.obj; int n = (int)s.cfg["n"], m = X.A("method", 0, 7, 5); CB c; setupCB(X, c, n); DV x0 = startPoint(X, n); custom_function f = {cbFun, &c}; custom_gradient g = {cbGrad, &c}; bool ug = X.A("grad", 0, 1, 0);
  std::string cf = optConfig(s); ::optimize(o, &f, ug ? &g : nullptr, n, IN(x0), m); optConfigCheck(s, cf); s.fitted = true; s.fitok = minOk(o->retval); X.status(o->retval, s.fitok); optPublish(X, s); X.digInt("calls", c.calls);
  checkMin(X, c, ug ? "optimize with gradient" : "optimize", m, o->retval, x0.data(), o->xopt, &o->objfunc);
  if (o->Iter > o->MaxIter) event("C09", "iteration-limit", "optimize method %d used %d iterations, the limit is %d", m, o->Iter, o->MaxIter);
}
OPW(n_new, T_OBJ, 0) { Slot &s = slotOf(X); slotFree(X, s); s = Slot(); int n = X.A("n", 1, 4, 2), m = X.A("m", n, 9, 5); s.obj = ::nls_init(m, n); if (!s.obj) { X.status(0, 0); return; } s.kind = SK_NLS; s.cfg["n"] = n; s.cfg["m"] = m; X.status(1, 1); }
OPW(n_run, T_OBJ | T_CB, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_NLS) { X.skipped = true; return; } auto o = (nls_object)s.obj; int n = (int)s.cfg["n"], m = (int)s.cfg["m"]; CBM c; setupCB(X, c.c, n); c.m = m; DV x0 = startPoint(X, n); custom_funcmult f = {cbMult, &c}; custom_jacobian j = {cbJac, &c}; bool uj = X.A("jac", 0, 1, 0);
  std::string cf = optConfig(s); if (X.A("scale", 0, 1, 0)) { DV d(n); for (int i = 0; i < n; i++) d[i] = 0.5 + i; ::nls_scale(o, &f, uj ? &j : nullptr, IN(d), IN(x0)); } else ::nls(o, &f, uj ? &j : nullptr, IN(x0));
  optConfigCheck(s, cf); s.fitted = true; s.fitok = nlsOk(o->retval); X.status(o->retval, s.fitok); optPublish(X, s); X.digInt("calls", c.c.calls); checkNls(X, c, "nls", o->retval, x0.data(), o->xopt);
}
OPW(o_show, T_OBJ, 0) { Slot &s = slotOf(X); if ((s.kind != SK_OPT && s.kind != SK_NLS) || !s.fitted) { X.skipped = true; return; } optPublish(X, s); }
OPW(o_summary, T_OBJ | T_PRINT, 0) { Slot &s = slotOf(X); if (!s.fitok) { X.skipped = true; return; } if (s.kind == SK_OPT) ::optsummary((opt_object)s.obj); else if (s.kind == SK_NLS) ::nlssummary((nls_object)s.obj); else X.skipped = true; }

// ---------------------------------------------------------------- wavelets
static const char *WN[] = {"haar", "db1", "db2", "db3", "db4", "db5", "db6", "db7", "db8", "db9", "db10", "db11", "db12", "db13", "db14", "db15", "db16", "db17", "db18", "db19", "db20", "db21", "db22", "db23", "db24", "db25", "db26", "db27", "db28", "db29", "db30", "db31", "db32", "db33", "db34", "db35", "db36", "db37", "db38", "sym2", "sym3", "sym4", "sym5", "sym6", "sym7", "sym8", "sym9", "sym10", "sym11", "sym12", "sym13", "sym14", "sym15", "sym16", "sym17", "sym18", "sym19", "sym20", "coif1", "coif2", "coif3", "coif4", "coif5", "coif6", "coif7", "coif8", "coif9", "coif10", "coif11", "coif12", "coif13", "coif14", "coif15", "coif16", "coif17", "bior1.1", "bior1.3", "bior1.5", "bior2.2", "bior2.4", "bior2.6", "bior2.8", "bior3.1", "bior3.3", "bior3.5", "bior3.7", "bior3.9", "bior4.4", "bior5.5", "bior6.8", "rbior1.1", "rbior1.3", "rbior1.5", "rbior2.2", "rbior2.4", "rbior2.6", "rbior2.8", "rbior3.1", "rbior3.3", "rbior3.5", "rbior3.7", "rbior3.9", "rbior4.4", "rbior5.5", "rbior6.8", "meyer"}; // every name the library documents, orthogonal ones first
static const int NORTH = 75;
static const int NWN = sizeof WN / sizeof *WN;
#define NSHARED 4
static wave_object sharedW[NSHARED]; static uint64_t sharedH[NSHARED]; static const char *sharedN[NSHARED] = {"db4", "bior2.4", "haar", "sym5"};
static uint64_t waveHash(wave_object w) { return mix(hashD(w->params, 4 * (size_t)w->filtlength), mix(hashstr(w->wname), mix((uint64_t)w->lpd, mix((uint64_t)w->hpd, mix((uint64_t)w->lpr, mix((uint64_t)w->hpr, mix(w->lpd_len * 1000 + w->filtlength, w->hpr_len * 1000 + w->lpr_len))))))); }
static bool sharedUsed;
void opsWorldInit(const Plan &p) { // filters shared read-only by all callers are made before they start
  sharedUsed = false; for (auto &o : p.ops) if (o.a.count("shared")) sharedUsed = true;
  if (sharedUsed) for (int i = 0; i < NSHARED; i++) { sharedW[i] = ::wave_init(sharedN[i]); sharedH[i] = waveHash(sharedW[i]); }
}
void opsWorldEnd(int) {
  if (!sharedUsed) return;
  for (int i = 0; i < NSHARED; i++) { if (waveHash(sharedW[i]) != sharedH[i]) event("C01", "shared-filter", "the wavelet filter %s shared by all callers was modified", sharedN[i]); ::wave_free(sharedW[i]); }
}
OP(w_filter, T_PURE | T_PRINT) {
  wave_object w = ::wave_init(buf_str(WN[X.A("wave", 0, NWN - 1, 3)])); if (!w) { X.status(0, 0); return; } X.digInt("len", w->filtlength); X.dig("lpd", w->lpd, w->lpd_len); X.dig("hpd", w->hpd, w->hpd_len); X.dig("lpr", w->lpr, w->lpr_len); X.dig("hpr", w->hpr, w->hpr_len); if (X.A("sum", 0, 1, 0)) ::wave_summary(w); ::wave_free(w);
}
static const char *waveNameOf(Slot &s) { return s.cfg.count("shared") ? sharedN[s.cfg["shared"]] : WN[s.cfg["wave"]]; }
// tfm: 0 dwt 1 swt 2 modwt 3 wtree 4 wpt
static void *makeTransform(int tfm, wave_object w, int n, int J) { static const char *m[] = {"dwt", "swt", "modwt"}; if (tfm < 3) return ::wt_init(w, m[tfm], n, J); if (tfm == 3) return ::wtree_init(w, n, J); return ::wpt_init(w, n, J); }
static void applySettings(Slot &s, int tfm, void *o) {
  if (s.cfg.count("ext")) { const char *e = s.cfg["ext"] ? "per" : "sym"; if (tfm < 3) ::setDWTExtension((wt_object)o, e); else if (tfm == 3) ::setWTREEExtension((wtree_object)o, e); else ::setDWPTExtension((wpt_object)o, e); }
  if (tfm < 3 && s.cfg.count("conv")) ::setWTConv((wt_object)o, s.cfg["conv"] ? "fft" : "direct");
  static const char *en[] = {"shannon", "threshold", "norm", "logenergy"}; if (tfm == 4 && s.cfg.count("ent")) ::setDWPTEntropy((wpt_object)o, en[s.cfg["ent"]], (s.cfg["ent"] == 2 ? 1.0 : 0.0) + s.cfg["epar"] * 0.5);
}
static void runForward(int tfm, void *o, double *sig) { switch (tfm) { case 0: ::dwt((wt_object)o, sig); break; case 1: ::swt((wt_object)o, sig); break; case 2: ::modwt((wt_object)o, sig); break; case 3: ::wtree((wtree_object)o, sig); break; default: ::dwpt((wpt_object)o, sig); } }
static void runInverse(int tfm, void *o, double *out) { switch (tfm) { case 0: ::idwt((wt_object)o, out); break; case 1: ::iswt((wt_object)o, out); break; case 2: ::imodwt((wt_object)o, out); break; case 4: ::idwpt((wpt_object)o, out); break; } }
static uint64_t transformHash(int tfm, void *o, Ctx *X) {
  double *out; int ol, J, *len;
  if (tfm < 3) { auto t = (wt_object)o; out = t->output; ol = t->outlength; J = t->J; len = t->length; } else if (tfm == 3) { auto t = (wtree_object)o; out = t->output; ol = t->outlength; J = t->J; len = t->length; } else { auto t = (wpt_object)o; out = t->output; ol = t->outlength; J = t->J; len = t->length; }
  if (X) { X->digInt("outlength", ol); X->digI("length", len, J + 1); X->dig("output", out, ol); if (tfm == 4) { auto t = (wpt_object)o; X->digInt("nodes", t->nodes); } }
  uint64_t h = hashD(out, ol); for (int i = 0; i <= J; i++) h = mix(h, (uint64_t)len[i]); if (tfm == 4) h = mix(h, ((wpt_object)o)->nodes); return mix(h, ol);
}
static double wtol(const char *w) { if (!strcmp(w, "meyer")) return 3e-2; return 1e-6; }
OPW(w_new, T_OBJ, 0) {
  Slot &s = slotOf(X); slotFree(X, s); s = Slot();
  int tfm = X.A("tfm", 0, 4, 0), J = X.A("J", 1, 5, 2), n = X.A("n", 8, 130, 64) * (X.A("nx", 0, 15, 1) ? 1 : 7), wv = X.A("wave", 0, NWN - 1, 3); bool sh = X.has("shared");
  int si = sh ? X.A("shared", 0, NSHARED - 1, 0) : 0;
  if (tfm == 2) { if (sh) { if (si == 1) si = 0; } else if (wv >= NORTH) wv = wv % NORTH; }
  if (tfm >= 3 && J > 3) J = 3;
  if (tfm == 1) { int q = 1 << J; n = (n + q - 1) / q * q; }
  int mx = ::wmaxiter(n); if (J > mx) J = mx;
  if (tfm == 1) { int q = 1 << J; n = n / q * q; }
  wave_object w; if (sh) { w = sharedW[si]; s.cfg["shared"] = si; sim_count(CN_SHARED); } else { w = ::wave_init(buf_str(WN[wv])); if (!w) { X.status(0, 0); return; } s.owned = w; s.cfg["wave"] = wv; }
  void *o = makeTransform(tfm, w, n, J); if (!o) { if (s.owned) ::wave_free((wave_object)s.owned); s = Slot(); X.status(0, 0); return; }
  s.obj = o; s.kind = tfm < 3 ? SK_WT : tfm == 3 ? SK_WTREE : SK_WPT; s.cfg["tfm"] = tfm; s.cfg["n"] = n; s.cfg["J"] = J; X.status(1, 1); s.lastMode = tfm == 0 || tfm >= 3 ? 0 : 1; // current extension: 0 sym 1 per
}
OPW(w_set, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_WT && s.kind != SK_WTREE && s.kind != SK_WPT) { X.skipped = true; return; } int tfm = (int)s.cfg["tfm"], w = X.A("what", 0, 2, 0), v; X.noprint = true;
  if (X.has("bad")) { sim_count(CN_BADSET); if (w == 0 || (tfm == 3)) { if (tfm < 3) ::setDWTExtension((wt_object)s.obj, buf_str("zpd")); else if (tfm == 3) ::setWTREEExtension((wtree_object)s.obj, buf_str("zpd")); else ::setDWPTExtension((wpt_object)s.obj, buf_str("")); } else if (tfm < 3) ::setWTConv((wt_object)s.obj, buf_str("fftw")); else ::setDWPTEntropy((wpt_object)s.obj, buf_str("sure"), 1.0); return; }
  if (tfm >= 3 && w == 1) w = tfm == 4 ? 2 : 0; if (tfm < 3 && w == 2) w = 1; if (tfm == 3) w = 0;
  if (w == 0) { v = X.A("val", 0, 1, 0); if (tfm == 1) v = 1; if (tfm == 2 && v == 0 && !(s.cfg.count("conv") && s.cfg["conv"])) v = 1; s.cfg["ext"] = v; s.lastMode = v; }
  else if (w == 1) { v = X.A("val", 0, 1, 0); if (tfm == 2 && v == 0 && s.lastMode == 0) v = 1; s.cfg["conv"] = v; }
  else { v = X.A("val", 0, 3, 0); s.cfg["ent"] = v; s.cfg["epar"] = X.A("epar", 1, 4, 2); }
  s.tdone = 0; applySettings(s, tfm, s.obj);
  if (w == 0) { const char *e = tfm < 3 ? ((wt_object)s.obj)->ext : tfm == 3 ? ((wtree_object)s.obj)->ext : ((wpt_object)s.obj)->ext; if (strcmp(e, v ? "per" : "sym")) event("C16", "no-effect", "signal extension %s not taken over", v ? "per" : "sym"); }
}
OPW(w_fwd, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_WT && s.kind != SK_WTREE && s.kind != SK_WPT) { X.skipped = true; return; } int tfm = (int)s.cfg["tfm"], n = (int)s.cfg["n"];
  DV y = X.series(n); s.sig = y; double *in = IN(y); auto cfg = [&] { char b[80]; if (tfm < 3) { auto o = (wt_object)s.obj; snprintf(b, sizeof b, "%d %d %.9s %.9s", o->siglength, o->J, o->ext, o->cmethod); } else if (tfm == 3) { auto o = (wtree_object)s.obj; snprintf(b, sizeof b, "%d %d %.9s", o->siglength, o->J, o->ext); } else { auto o = (wpt_object)s.obj; snprintf(b, sizeof b, "%d %d %.9s %.15s %g", o->siglength, o->J, o->ext, o->entropy, o->eparam); } return std::string(b); };
  std::string cf = cfg(); runForward(tfm, s.obj, in); if (cf != cfg()) { event("C12", "config", "transform kind %d changed its own settings from [%s] to [%s]", tfm, cf.c_str(), cfg().c_str()); event("C02", "config", "transform kind %d changed its own settings", tfm); } s.tdone = 1; s.fitted = true; X.status(1, 1); uint64_t h = transformHash(tfm, s.obj, &X);
  if (!oracle(X)) return;
  // a fresh object with the same settings
  wave_object w = s.cfg.count("shared") ? sharedW[s.cfg["shared"]] : (wave_object)s.owned; void *o = makeTransform(tfm, w, n, (int)s.cfg["J"]); applySettings(s, tfm, o); runForward(tfm, o, in);
  sim_count(CN_REFCHECK);
  if (transformHash(tfm, o, nullptr) != h) event("C12", "history", "transform kind %d wavelet %s length %d levels %ld: coefficients differ from those of a fresh object with the same settings", tfm, waveNameOf(s), n, s.cfg["J"]);
  ::sim_free(o);
}
static void *freshTransform(Slot &s) { // the last transform again on a new object with the same settings
  int tfm = (int)s.cfg["tfm"]; wave_object w = s.cfg.count("shared") ? sharedW[s.cfg["shared"]] : (wave_object)s.owned; void *o = makeTransform(tfm, w, (int)s.cfg["n"], (int)s.cfg["J"]); applySettings(s, tfm, o); runForward(tfm, o, IN(s.sig)); return o;
}
static double maxabs(const DV &v) { double m = 0; for (double x : v) m = std::max(m, fabs(x)); return m; }
OPW(w_inv, T_OBJ, 0) {
  Slot &s = slotOf(X); if ((s.kind != SK_WT && s.kind != SK_WPT) || !s.tdone) { X.skipped = true; return; } int tfm = (int)s.cfg["tfm"], n = (int)s.cfg["n"]; double *o = OUT(n); runInverse(tfm, s.obj, o); X.dig("rec", o, n); X.status(1, 1);
  if (oracle(X) && X.A("fr", 0, 1, 1)) { void *f = freshTransform(s); double *o2 = OUT(n); runInverse(tfm, f, o2); if (hashD(o, n) != hashD(o2, n)) event("C12", "inverse-history", "transform kind %d wavelet %s length %d levels %ld: the inverse differs from that of a fresh object with the same settings", tfm, waveNameOf(s), n, s.cfg["J"]); ::sim_free(f); }
  if (!oracle(X) || !allFinite(s.sig) || maxabs(s.sig) > 1e30) return;
  sim_count(CN_REFCHECK); double tol = wtol(waveNameOf(s)) * (maxabs(s.sig) + 1e-300);
  for (int i = 0; i < n; i++) if (!(fabs(o[i] - s.sig[i]) <= tol)) { event("C12", "reconstruction", "transform kind %d wavelet %s length %d levels %ld extension %s conv %ld: sample %d reconstructs as %.10g, was %.10g", tfm, waveNameOf(s), n, s.cfg["J"], s.lastMode ? "per" : "sym", s.cfg.count("conv") ? s.cfg["conv"] : 0, i, o[i], s.sig[i]); break; }
}
OPW(w_mra, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_WT || !s.tdone) { X.skipped = true; return; } int tfm = (int)s.cfg["tfm"], n = (int)s.cfg["n"], J = (int)s.cfg["J"]; auto o = (wt_object)s.obj;
  double *m = tfm == 0 ? ::getDWTmra(o, o->output) : tfm == 1 ? ::getSWTmra(o, o->output) : ::getMODWTmra(o, o->output); if (!m) { X.status(0, 0); return; }
  X.status(1, 1); X.dig("mra", m, (size_t)n * (J + 1));
  if (oracle(X) && X.A("fr", 0, 1, 1)) { auto f = (wt_object)freshTransform(s); double *m2 = tfm == 0 ? ::getDWTmra(f, f->output) : tfm == 1 ? ::getSWTmra(f, f->output) : ::getMODWTmra(f, f->output); if (m2 && hashD(m, (size_t)n * (J + 1)) != hashD(m2, (size_t)n * (J + 1))) event("C12", "mra-history", "transform kind %d wavelet %s length %d levels %d: the components differ from those of a fresh object with the same settings", tfm, waveNameOf(s), n, J); if (m2) ::sim_free(m2); ::sim_free(f); }
  if (oracle(X) && allFinite(s.sig) && maxabs(s.sig) < 1e30) { sim_count(CN_REFCHECK); double tol = wtol(waveNameOf(s)) * (maxabs(s.sig) + 1e-300) * 4; for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j <= J; j++) t += m[(size_t)j * n + i]; if (!(fabs(t - s.sig[i]) <= tol)) { event("C12", "mra-sum", "transform kind %d wavelet %s length %d levels %d extension %s: the components of sample %d sum to %.10g, it was %.10g", tfm, waveNameOf(s), n, J, s.lastMode ? "per" : "sym", i, t, s.sig[i]); break; } } }
  sim_free(m);
}
OPW(w_coef, T_OBJ, 0) {
  Slot &s = slotOf(X); if ((s.kind != SK_WTREE && s.kind != SK_WPT) || !s.tdone) { X.skipped = true; return; } int J = (int)s.cfg["J"], x = X.A("x", 1, J, 1), y = X.A("y", 0, (1 << x) - 1, 0), l; double *c;
  if (s.kind == SK_WTREE) { auto o = (wtree_object)s.obj; l = ::getWTREENodelength(o, x); c = OUT(l); ::getWTREECoeffs(o, x, y, c, l); }
  else {
    auto o = (wpt_object)s.obj; if (o->nodes < 1 || o->basisvector[0] == 1) { X.skipped = true; return; }
    int k = y % o->nodes; x = o->nodeindex[2 * k]; y = o->nodeindex[2 * k + 1]; if (x < 1 || x > J) { event("C12", "node-index", "the node list of a wavelet packet contains level %d", x); return; }
    l = ::getDWPTNodelength(o, x); c = OUT(l); ::getDWPTCoeffs(o, x, y, c, l);
  }
  X.digInt("len", l); X.dig("c", c, l); if (!oracle(X)) return;
  sim_count(CN_REFCHECK); void *f = freshTransform(s); double *c2 = OUT(l);
  if (s.kind == SK_WTREE) ::getWTREECoeffs((wtree_object)f, x, y, c2, l);
  else { auto o = (wpt_object)s.obj, g = (wpt_object)f; bool same = o->nodes == g->nodes; for (int i = 0; same && i < 2 * o->nodes; i++) same = o->nodeindex[i] == g->nodeindex[i]; if (same) ::getDWPTCoeffs(g, x, y, c2, l); else { event("C12", "node-list", "the best basis of a wavelet packet differs from that of a fresh object with the same settings"); memcpy(c2, c, l * sizeof *c); } }
  if (hashD(c, l) != hashD(c2, l)) event("C12", "node-history", "transform kind %ld wavelet %s: the coefficients of node (%d,%d) differ from those of a fresh object with the same settings", s.cfg["tfm"], waveNameOf(s), x, y);
  ::sim_free(f);
}
OPW(w_show, T_OBJ, 0) { Slot &s = slotOf(X); if ((s.kind != SK_WT && s.kind != SK_WTREE && s.kind != SK_WPT) || !s.tdone) { X.skipped = true; return; } transformHash((int)s.cfg["tfm"], s.obj, &X); }
OPW(w_summary, T_OBJ | T_PRINT, 0) { Slot &s = slotOf(X); if (!s.tdone) { X.skipped = true; return; } if (s.kind == SK_WT) ::wt_summary((wt_object)s.obj); else if (s.kind == SK_WTREE) ::wtree_summary((wtree_object)s.obj); else if (s.kind == SK_WPT) ::wpt_summary((wpt_object)s.obj); else X.skipped = true; }

// ---------------------------------------------------------------- spectral plans
// kind: 0 fft 1 real fft pair 2 convolution 3 autocovariance 4 spectrum
static const double TAU = 6.283185307179586476925286766559;
static void dftRef(const double *re, const double *im, int n, int sgn, DV &R, DV &I) {
  R.assign(n, 0); I.assign(n, 0); std::vector<long double> C(n), S(n); for (int k = 0; k < n; k++) { long double w = -sgn * (long double)TAU * k / n; C[k] = cosl(w); S[k] = sinl(w); }
  for (int k = 0; k < n; k++) { long double a = 0, b = 0; int j = 0; for (int t = 0; t < n; t++, j = (j + k) % n) { long double xi = im ? im[t] : 0; a += re[t] * C[j] - xi * S[j]; b += re[t] * S[j] + xi * C[j]; } R[k] = (double)a; I[k] = (double)b; }
}
OPW(f_new, T_OBJ, 0) {
  Slot &s = slotOf(X); slotFree(X, s); s = Slot(); int k = X.A("kind", 0, 4, 0), n = X.A("n", 1, 150, 24), sg = X.A("sgn", 0, 1, 1), m = X.A("m", 1, 60, 7), nf = X.A("nf", 0, 60, 0); if (X.A("nx", 0, 24, 1) == 0) { static const int mul[] = {7, 8, 11, 13}; n *= mul[X.A("nm", 0, 3, 0)]; } void *o = nullptr; int sk = 0;
  switch (k) {
  case 0: o = ::fft_init(n, sg ? 1 : -1); sk = SK_FFT; break;
  case 1: n = 2 * ((n + 1) / 2); o = ::fft_real_init(n, sg ? 1 : -1); sk = SK_RFFT; break;
  case 2: o = ::conv_init(n, m); sk = SK_CONV; break;
  case 3: if (n < 2) n = 2; o = ::auto_fft_init(n); sk = SK_ACF; break;
  default: if (n < 2) n = 2; o = ::spectrum_fft_init(n, n + nf); sk = SK_SPEC;
  }
  if (!o) { X.status(0, 0); return; } s.obj = o; s.kind = sk; s.cfg["n"] = n; s.cfg["m"] = m; s.cfg["sgn"] = sg ? 1 : -1; s.cfg["nf"] = n + nf; X.status(1, 1);
}
static double sumabs(const DV &v) { double s = 0; for (double x : v) s += fabs(x); return s; }
static bool cmpv(Ctx &X, const char *cls, const char *what, int n, const double *got, const DV &want, double tol) {
  sim_count(CN_REFCHECK);
  for (size_t i = 0; i < want.size(); i++) if (!(fabs(got[i] - want[i]) <= tol)) { event("C13", cls, "%s, length %d: element %zu is %.12g, direct evaluation gives %.12g", what, n, i, got[i], want[i]); return false; }
  return true;
}
OPW(f_run, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind < SK_FFT || s.kind > SK_SPEC) { X.skipped = true; return; } int n = (int)s.cfg["n"], m = (int)s.cfg["m"], sg = (int)s.cfg["sgn"]; DV x = X.series(n), z = X.series(n, "ds2", "dk2"); bool chk = oracle(X) && allFinite(x) && allFinite(z) && maxabs(x) < 1e100 && maxabs(z) < 1e100; double tol = 1e-10 * (sumabs(x) + sumabs(z) + 1e-300) + 1e-300;
  X.status(1, 1);
  if (s.kind == SK_FFT) {
    DV in(2 * n); for (int i = 0; i < n; i++) { in[2 * i] = x[i]; in[2 * i + 1] = X.A("re", 0, 1, 0) ? 0.0 : z[i]; } double *o = OUT(2 * n); ::fft_exec((fft_object)s.obj, (fft_data *)IN(in), (fft_data *)o); X.dig("fft", o, 2 * n);
    if (chk) { DV a(n), b(n), R, I; for (int i = 0; i < n; i++) { a[i] = in[2 * i]; b[i] = in[2 * i + 1]; } dftRef(a.data(), b.data(), n, sg, R, I); DV w(2 * n); for (int i = 0; i < n; i++) { w[2 * i] = R[i]; w[2 * i + 1] = I[i]; } cmpv(X, "fft", sg > 0 ? "forward transform" : "inverse transform", n, o, w, tol); }
  } else if (s.kind == SK_RFFT) {
    if (sg > 0) { double *o = OUT(2 * n); ::fft_r2c_exec((fft_real_object)s.obj, IN(x), (fft_data *)o); X.dig("r2c", o, 2 * n); if (chk) { DV R, I, w(2 * n); dftRef(x.data(), nullptr, n, 1, R, I); for (int i = 0; i < n; i++) { w[2 * i] = R[i]; w[2 * i + 1] = I[i]; } cmpv(X, "real-fft", "real forward transform", n, o, w, tol); } }
    else { DV R, I, in(2 * n); for (auto &v : x) if (!std::isfinite(v)) { X.skipped = true; return; } dftRef(x.data(), nullptr, n, 1, R, I); for (int i = 0; i < n; i++) { in[2 * i] = R[i]; in[2 * i + 1] = I[i]; } double *o = OUT(n); ::fft_c2r_exec((fft_real_object)s.obj, (fft_data *)IN(in), o); X.dig("c2r", o, n); if (chk) { DV w(x); for (auto &v : w) v *= n; cmpv(X, "real-fft", "real inverse transform", n, o, w, tol * n); } }
  } else if (s.kind == SK_CONV) {
    DV y = makeSeries(m, X.A("ds3", 0, 99999, 4), X.A("dk3", 0, 14, 1), 4), w(n + m - 1, 0.0); double *o = OUT(n + m - 1); ::conv_fft((conv_object)s.obj, IN(x), IN(y), o); X.dig("conv", o, n + m - 1);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w[i + j] += x[i] * y[j]; if (chk) cmpv(X, "convolution", "planned convolution", n, o, w, 1e-10 * (sumabs(x) * maxabs(y) + maxabs(x) * sumabs(y)) * 2 + 1e-300);
  } else if (s.kind == SK_ACF) {
    int M = X.A("M", 1, n, 5), w = X.A("which", 0, 2, 0);
    if (w == 2) { int nf = n + X.A("nf2", 0, 20, 3), k = nf / 2 + 1; double *sp = OUT(k), *fr = OUT(k); ::psd_autocovar((auto_fft_object)s.obj, IN(x), sp, fr, nf, 1); X.dig("spec", sp, k); X.dig("freq", fr, k); return; }
    double *o = OUT(M); if (w) ::autocorr_fft((auto_fft_object)s.obj, IN(x), o, M); else ::autocovar_fft((auto_fft_object)s.obj, IN(x), o, M); X.dig("acov", o, M);
    if (chk) { long double mu = 0; for (double v : x) mu += v; mu /= n; DV r(M); double v0 = 1; for (int k = 0; k < M; k++) { long double t = 0; for (int i = 0; i + k < n; i++) t += (x[i] - mu) * (x[i + k] - mu); r[k] = (double)(t / n); } if (w) { v0 = r[0]; double ma2 = maxabs(x) * maxabs(x); if (!(v0 > 1e-6 * ma2)) return; for (auto &t : r) t /= v0; } cmpv(X, "autocovariance", w ? "autocorrelation" : "autocovariance", n, o, r, w ? 1e-6 : 1e-9 * maxabs(x) * maxabs(x) + 1e-300); }
  } else {
    int nf = (int)s.cfg["nf"], w = X.A("which", 0, 1, 0), side = X.A("side", 1, 2, 1), N = w ? nf : n; double *sp = OUT(N), *fr = OUT(N); DV xx(x); xx.resize(std::max(n, nf), 0.0); double *in = w ? IN(xx) : IN(x);
    if (w) in = IN(x);
    if (w) ::psd((spectrum_fft_object)s.obj, in, sp, fr, side); else ::periodogram((spectrum_fft_object)s.obj, in, sp, fr, side);
    int L = side == 2 ? N : (N & 1 ? N / 2 + 1 : N / 2 + 1); X.dig("spec", sp, L); X.dig("freq", fr, L);
    if (chk) { DV p(x), R, I; p.resize(N, 0.0); dftRef(p.data(), nullptr, N, 1, R, I); int h = N / 2; DV want; double div = w ? n * TAU : n; for (int k = 0; k <= h && k < N; k++) { double v = (R[k] * R[k] + I[k] * I[k]) / div; if (side == 1 && k > 0 && !(!(N & 1) && k == h)) v *= 2; want.push_back(v); } double t2 = sumabs(x); cmpv(X, "spectrum", w ? "padded power spectrum" : "periodogram", N, sp, want, 1e-9 * t2 * t2 / n + 1e-300); }
  }
}
OP(f_convolve, T_PURE | T_DATA) {
  int n = X.A("n", 1, 80, 20), m = X.A("m", 1, 40, 5), ty = X.A("type", 0, 2, 0), me = X.A("meth", 0, 1, 0); static const char *T[] = {"full", "same", "valid"}, *M[] = {"direct", "fft"}; DV x = X.series(n), y = makeSeries(m, X.A("ds2", 0, 99999, 4), 1, 4);
  int lb = std::max(n, m), ls = std::min(n, m), L = ty == 0 ? n + m - 1 : ty == 1 ? lb : lb - ls + 1; double *o = OUT(L); int r = ::convolve(buf_str(T[ty]), buf_str(M[me]), IN(x), n, IN(y), m, o); X.digInt("len", r); X.dig("o", o, L);
  if (!oracle(X) || !allFinite(x) || maxabs(x) > 1e100) return;
  DV w(n + m - 1, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w[i + j] += x[i] * y[j]; int st = ty == 0 ? 0 : ty == 1 ? (n + m - 1 - lb) / 2 : ls - 1; DV want(w.begin() + st, w.begin() + st + L);
  if (r != L) event("C13", "convolve-length", "convolve %s of lengths %d and %d returned length %d", T[ty], n, m, r); cmpv(X, "convolve", T[ty], n, o, want, 1e-10 * (sumabs(x) * maxabs(y) + maxabs(x) * sumabs(y)) * 2 + 1e-300);
}
OP(f_factor, T_PURE) { int n = X.A("n", 1, 400, 60); X.digInt("div", ::dividebyN(n)); int *a = OUTI(64); int k = ::factors(n, a); X.digInt("k", k); if (k >= 0 && k <= 64) X.digI("f", a, k); }

// ---------------------------------------------------------------- randomised SVD
OPW(x_rsvd, T_RNG | T_MAT, 0) {
  int n = X.A("n", 2, 14, 6), m = n + X.A("dm", 0, 12, 4), k = X.A("k", 1, n, 2), os = X.A("os", 0, n, 1), rk = X.A("rk", 0, k, k), it = X.A("it", 0, 4, 2); if (it == 0) it = -1; int kind = X.A("kind", 0, 3, 0);
  DV a = noise((size_t)m * rk, X.A("ds", 0, 99999, 1), 1), b = noise((size_t)rk * n, X.A("ds2", 0, 99999, 2), 1), A((size_t)m * n, 0.0);
  if (kind == 1) { for (auto &v : a) v = (double)(int)(v * 2); for (auto &v : b) v = (double)(int)(v * 2); }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int t = 0; t < rk; t++) s += a[(size_t)i * rk + t] * b[(size_t)t * n + j] * (kind == 2 ? pow(10.0, -t) : 1); A[(size_t)i * n + j] = s; }
  if (kind == 3) for (auto &v : A) v *= 1e6;
  double *U = OUT((size_t)m * k), *V = OUT((size_t)n * k), *S = OUT(k); ::rsvd(IN(A), m, n, k, os, it, U, V, S); X.noprint = true; X.status(1, 1);
  if (!oracle(X)) return; sim_count(CN_REFCHECK);
  double mx = maxabs(A), tol = 1e-7;
  if (!finiteAll(U, (size_t)m * k) || !finiteAll(V, (size_t)n * k) || !finiteAll(S, k)) { event("C10", "nonfinite", "randomised SVD of a %dx%d matrix of rank %d with k=%d oversample %d iterations %d returns non-finite factors", m, n, rk, k, os, it); return; }
  for (int p = 0; p < k; p++) { if (S[p] < 0) event("C10", "negative", "singular value %d is %g", p, S[p]); if (p && S[p] > S[p - 1] * (1 + 1e-9) + tol * mx) event("C10", "order", "singular values are not in decreasing order"); }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int p = 0; p < k; p++) s += U[(size_t)i * k + p] * S[p] * V[(size_t)j * k + p]; if (!(fabs(s - A[(size_t)i * n + j]) <= tol * (mx + 1e-300) * n)) { event("C10", "reconstruction", "randomised SVD of a %dx%d matrix of rank %d with k=%d oversample %d iterations %d: entry (%d,%d) reproduces as %.10g, was %.10g", m, n, rk, k, os, it, i, j, s, A[(size_t)i * n + j]); return; } }
  for (int p = 0; p < k; p++) for (int q = 0; q <= p; q++) { if (S[p] <= 1e-6 * mx || S[q] <= 1e-6 * mx) continue; double u = 0, v = 0; for (int i = 0; i < m; i++) u += U[(size_t)i * k + p] * U[(size_t)i * k + q]; for (int i = 0; i < n; i++) v += V[(size_t)i * k + p] * V[(size_t)i * k + q]; double w = p == q; if (!(fabs(u - w) < 1e-6 && fabs(v - w) < 1e-6)) { event("C10", "orthonormal", "randomised SVD of a %dx%d matrix of rank %d, k=%d: factors are not orthonormal (%d,%d): %.8g %.8g", m, n, rk, k, p, q, u, v); return; } }
}

// ---------------------------------------------------------------- release
void slotFree(Ctx &X, Slot &s) {
  (void)X; void *o = s.obj; if (!o) { s.kind = SK_NONE; return; }
  switch (s.kind) {
  case SK_ARIMA: ::arima_free((arima_object)o); break; case SK_SARIMA: ::sarima_free((sarima_object)o); break; case SK_SARIMAX: ::sarimax_free((sarimax_object)o); break; case SK_AR: ::ar_free((ar_object)o); break;
  case SK_AUTO: ::auto_arima_free((auto_arima_object)o); break; case SK_WRAP: ::sarimax_wrapper_free((sarimax_wrapper_object)o); break; case SK_MYARIMA: ::myarima_free((myarima_object)o); break; case SK_AA: ::aa_ret_free((aa_ret_object)o); break;
  case SK_REG: ::free_reg((reg_object)o); break; case SK_OPT: ::free_opt((opt_object)o); break; case SK_NLS: ::free_nls((nls_object)o); break;
  case SK_WAVE: ::wave_free((wave_object)o); break; case SK_WT: ::wt_free((wt_object)o); break; case SK_WTREE: ::wtree_free((wtree_object)o); break; case SK_WPT: ::wpt_free((wpt_object)o); break;
  case SK_FFT: ::free_fft((fft_object)o); break; case SK_RFFT: ::free_real_fft((fft_real_object)o); break; case SK_CONV: ::free_conv((conv_object)o); break; case SK_ACF: ::free_auto((auto_fft_object)o); break; case SK_SPEC: ::free_spectrum((spectrum_fft_object)o); break;
  }
  if (s.owned) ::wave_free((wave_object)s.owned);
  s.obj = nullptr; s.owned = nullptr; s.kind = SK_NONE; s.fitted = s.fitok = false; s.tdone = 0;
}
