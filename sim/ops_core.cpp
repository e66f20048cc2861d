#include "ops.h"
#include "lib.h"
#include <math.h>
#include <algorithm>

const char *slotKindName[SK_N] = {"none", "arima", "sarima", "sarimax", "ar", "auto", "wrap", "myarima", "aa", "reg", "opt", "nls",
  "wave", "wt", "wtree", "wpt", "fft", "rfft", "conv", "acf", "spec"};

// ---------------------------------------------------------------- registry
static std::vector<OpDef> &reg() { static std::vector<OpDef> v; return v; }
OpReg::OpReg(const char *n, OpRun f, int tags, int weight) { reg().push_back(OpDef{n, f, tags, weight}); }
const std::vector<OpDef> &opAll() {
  static bool sorted = false;
  if (!sorted) { std::sort(reg().begin(), reg().end(), [](const OpDef &a, const OpDef &b) { return a.name < b.name; }); sorted = true; }
  return reg();
}
const OpDef *opFind(const char *n) { for (auto &d : opAll()) if (d.name == n) return &d; return nullptr; }

// ---------------------------------------------------------------- digests
static uint64_t canon(double d) { if (d != d) return 0x7ff8000000000000ULL; if (d == 0) d = 0; uint64_t w; memcpy(&w, &d, 8); return w; }
uint64_t hashD(const double *v, size_t n) { uint64_t h = 17; for (size_t i = 0; i < n; i++) h = mix(h, canon(v[i])); return h; }
static void put(Ctx *c, const char *name, uint64_t h) {
  OpResult *r = c->r; if (r->nf >= 64) { r->f[63].h = mix(r->f[63].h, h); return; }
  snprintf(r->f[r->nf].name, 20, "%s", name); r->f[r->nf].h = h; r->nf++;
}
void Ctx::digInt(const char *name, long v) { put(this, name, (uint64_t)v); }
void Ctx::dig(const char *name, const double *v, size_t n) { put(this, name, hashD(v, n)); if (dbg) { fprintf(dbg, "    %d:%d %s:", client, r->opno, name); for (size_t i = 0; i < n && i < 12; i++) fprintf(dbg, " %.10g", v[i]); fprintf(dbg, n > 12 ? " ...(%zu)\n" : "\n", n); } }
void Ctx::digI(const char *name, const int *v, size_t n) { uint64_t h = 19; for (size_t i = 0; i < n; i++) h = mix(h, (uint64_t)v[i]); put(this, name, h); if (dbg) { fprintf(dbg, "    %d:%d %s:", client, r->opno, name); for (size_t i = 0; i < n && i < 12; i++) fprintf(dbg, " %d", v[i]); fprintf(dbg, "\n"); } }
bool finiteAll(const double *v, size_t n) { for (size_t i = 0; i < n; i++) if (!std::isfinite(v[i])) return false; return true; }
int Ctx::A(const char *k, long lo, long hi, long dflt) const {
  if (hi < lo) hi = lo;
  long v; auto it = op->a.find(k);
  if (it != op->a.end()) v = it->second;
  else if (op->a.count("seed")) v = lo + (long)(mix(mix(hashstr(k), (uint64_t)op->get("seed", 0)), 0xA5) % (uint64_t)(hi - lo + 1));
  else v = dflt;
  if (v < lo || v > hi) { long m = hi - lo + 1, t = (v - lo) % m; if (t < 0) t += m; v = lo + t; }
  noteArg(r->opno, k, v);
  return (int)v;
}

// ---------------------------------------------------------------- data
DV noise(size_t n, uint64_t seed, double sd) { Rng r(seed); DV v(n); for (auto &x : v) x = sd * r.gauss(); return v; }
DV stableAR(int p, uint64_t seed) { // Durbin-Levinson from partial autocorrelations
  Rng r(seed); DV a(p), t(p);
  for (int k = 0; k < p; k++) { double pk = (r.u() - 0.5) * 1.5; t = a; a[k] = pk; for (int j = 0; j < k; j++) a[j] = t[j] - pk * t[k - 1 - j]; }
  return a;
}
DV makeSeries(int n, long ds, long kind, int f) {
  Rng r((uint64_t)ds * 131 + kind * 7 + 3); DV x(n), e(n + 40);
  if (f < 2) f = 4;
  for (auto &v : e) v = r.gauss();
  double *E = e.data() + 40;
  switch (kind) {
  case 1: for (int i = 0; i < n; i++) x[i] = 5 + E[i]; break;
  case 2: { double s = 20; for (int i = 0; i < n; i++) { s += E[i]; x[i] = s; } } break;
  case 3: for (int i = 0; i < n; i++) x[i] = 30 + 0.3 * i + 6 * ((i % f) * (i % f) % 7 - 3) + E[i]; break;
  case 4: { double y = 0; for (int i = -40; i < n; i++) { y = 0.5 * y + E[i] + 0.4 * (i > -40 ? E[i - 1] : 0); if (i >= 0) x[i] = 3 + y; } } break;
  case 5: for (int i = 0; i < n; i++) x[i] = (100 + 2.0 * i) * (1 + 0.2 * ((i % f) - f / 2.0) / f) * (1 + 0.03 * E[i]); break;
  case 6: for (int i = 0; i < n; i++) x[i] = (i >= f ? x[i - f] : 50 + 3 * (i % f)) + E[i]; break;
  case 7: { double y1 = 0, y2 = 0; for (int i = -40; i < n; i++) { double y = 1.2 * y1 - 0.6 * y2 + E[i]; y2 = y1; y1 = y; if (i >= 0) x[i] = y; } } break;
  case 8: for (int i = 0; i < n; i++) x[i] = E[i] * E[i] * E[i] * 3; break;
  case 9: for (int i = 0; i < n; i++) x[i] = 1e-6 * (2 + E[i]); break;
  case 10: for (int i = 0; i < n; i++) x[i] = 1e6 * (4 + E[i]); break;
  case 11: for (int i = 0; i < n; i++) x[i] = (double)((int)(E[i] * 2) + 5); break;
  case 12: for (int i = 0; i < n; i++) x[i] = 3.5; break;
  case 13: for (int i = 0; i < n; i++) x[i] = (i > n / 2 ? 12 : 4) + E[i]; break;
  case 14: for (int i = 0; i < n; i++) { int k = i % f; x[i] = 10 + 4.0 * (k < f / 2 ? k : f - k); } break;
  case 15: { DV w(n + 40 + f + 1, 0.0); double *y = w.data() + f + 1; for (int i = 0; i < n + 40; i++) { y[i] = e[i] + 0.45 * y[i - 1] + 0.5 * y[i - f] - 0.2 * y[i - f - 1]; if (i >= 40) x[i - 40] = 8 + y[i]; } } break; // seasonal autoregression
  case 16: { DV w(n + 60 + 2 * f + 1, 0.0); double *y = w.data() + 2 * f + 1; for (int i = 0; i < n + 40; i++) { double e1 = e[i]; y[i] = e1 + 0.5 * y[i - 1] + 0.25 * (y[i - f] - 0.5 * y[i - f - 1]) + 0.6 * (y[i - 2 * f] - 0.5 * y[i - 2 * f - 1]); if (i >= 40) x[i - 40] = y[i]; } } break; // two seasonal lags
  case 17: { double a1 = (ds % 7 - 3) * 0.15, b1 = (ds / 7 % 7 - 3) * 0.2, b2 = (ds / 49 % 5 - 2) * 0.2, c1 = (ds / 245 % 5 - 2) * 0.25; DV w(n + 60 + 2 * f + 1, 0.0); double *y = w.data() + 2 * f + 1; for (int i = 0; i < n + 40; i++) { y[i] = e[i] + a1 * y[i - 1] + b1 * y[i - f] + b2 * y[i - 2 * f] + (i >= f ? c1 * e[i - f] : 0); if (i >= 40) x[i - 40] = y[i]; } } break; // a random mixture of seasonal and other terms
  default: { double y = 0; for (int i = -40; i < n; i++) { y = 0.6 * y + E[i]; if (i >= 0) x[i] = 10 + y; } }
  }
  return x;
}
void corruptSeries(DV &v, long pos, long kind, long cnt) {
  if (v.empty()) return;
  size_t n = v.size(), p = (size_t)(pos < 0 ? -pos : pos) % n; if (cnt < 1) cnt = 1;
  for (long k = 0; k < cnt; k++) {
    size_t i = (p + k) % n;
    switch (kind) {
    case 0: v[i] = NAN; break;
    case 1: v[i] = INFINITY; break;
    case 2: v[i] = -INFINITY; break;
    case 3: v[i] = 1e300; break;
    case 4: v[i] = -1e160; break;
    case 5: v[i] = v[p]; break;           // constant stretch
    case 6: v[i] = 1e-310; break;         // subnormal
    default: v[i] = v[i] * 1e15; break;
    }
  }
  sim_count(CN_CORRUPT, cnt);
}
DV Ctx::series(int n, const char *dsKey, const char *dkKey, bool corrupt) {
  DV v = makeSeries(n, A(dsKey, 0, 999999, 1), A(dkKey, 0, 15, 0), (int)op->get("s", 4));
  if (corrupt && has("ck") && !env->skipFaults) corruptSeries(v, A("cp", 0, 100000, 0), A("ck", 0, 7, 0), A("cc", 1, 30, 1));
  return v;
}

// ---------------------------------------------------------------- small statistics
OP(st_mean, T_PURE | T_DATA) { int n = X.A("n", 2, 120, 30); auto x = X.series(n); X.digD("mean", ::mean(IN(x), n)); X.digD("var", ::var(IN(x), n)); }
OP(st_autocov, T_PURE | T_DATA) {
  int n = X.A("n", 3, 150, 40), m = X.A("m", 1, n, 8); auto x = X.series(n); double *o = OUT(m);
  switch (X.A("which", 0, 5, 0)) {
  case 0: ::autocovar(IN(x), n, o, m); break;
  case 1: ::autocorr(IN(x), n, o, m); break;
  case 2: ::acvf(IN(x), n, o, m); break;
  case 3: ::acvf_opt(IN(x), n, 0, o, m); break;
  case 4: ::acvf_opt(IN(x), n, 1, o, m); break;
  default: { DV a = makeSeries(m, 3, 7, 4); double *io = IO(a); ::acvf2acf(io, m); o = io; }
  }
  X.dig("acov", o, m);
}
OP(st_pacf, T_PURE | T_DATA) {
  int n = X.A("n", 20, 150, 60), m = X.A("m", 1, 10, 5), w = X.A("which", 0, 3, 0); auto x = X.series(n); double *o = OUT(m);
  if (w == 3) ::pacf(IN(x), n, o, m); else ::pacf_opt(IN(x), n, w, o, m);
  X.dig("pacf", o, m);
}
OP(st_arfit, T_PURE | T_DATA) {
  int n = X.A("n", 30, 150, 60), p = X.A("p", 1, 5, 2), w = X.A("which", 0, 5, 0); auto x = X.series(n); double *phi = OUT(p), *v = OUT(1);
  if (w <= 2) ::ar(IN(x), n, p, w, phi, v);
  else if (w == 3) ::yw(IN(x), n, p, phi, v);
  else if (w == 4) ::burg(IN(x), n, p, phi, v);
  else { int q = X.A("q", 1, 3, 1); double *th = OUT(q); ::hr(IN(x), n, p, q, phi, th, v); X.dig("theta", th, q); }
  X.dig("phi", phi, p); X.dig("var", v, 1);
}
OP(st_arorder, T_PURE | T_DATA) { int n = X.A("n", 40, 150, 60), m = X.A("which", 0, 2, 0); if (m == 2 && n > 60) n = 40 + n / 8; auto x = X.series(n); sim_budget(4000000000ULL, true); X.digInt("order", ::ar_estimate(IN(x), n, m)); }
OP(st_modelest, T_PURE | T_DATA | T_PRINT) { int n = X.A("n", 40, 120, 60), d = X.A("d", 0, 2, 0), pm = X.A("pmax", 1, 4, 2), h = X.A("h", 5, 10, 6); auto x = X.series(n); sim_budget(4000000000ULL, true); ::model_estimate(IN(x), n, d, pm, h); }
OP(st_errors, T_PURE | T_DATA) {
  int n = X.A("n", 2, 60, 20), L = X.A("L", 3, 60, 20); auto a = X.series(n), b = X.series(n, "ds2", "dk2"), t = X.series(L, "ds3", "dk3");
  double *A = IN(a), *B = IN(b), *T = IN(t); double o[7] = {::me(A, B, n), ::mse(A, B, n), ::rmse(A, B, n), ::mae(A, B, n), ::mape(A, B, n), ::mpe(A, B, n), ::mase(A, B, n, T, L)};
  X.dig("err", o, 7);
}
OP(fl_filters, T_PURE | T_DATA) {
  int n = X.A("n", 20, 160, 50), w = X.A("w", 2, 9, 4); auto x = X.series(n); double *o = OUT(n);
  switch (X.A("which", 0, 6, 0)) {
  case 0: ::mafilter(IN(x), n, w, o); break;
  case 1: ::mafilter2(IN(x), n, w, o); break;
  case 2: ::expfilter(IN(x), n, w / 10.0, o); break;
  case 3: { w |= 1; DV wt = makeSeries(w, 5, 1, 4); ::mafilter_wt(IN(x), n, IN(wt), w, o); } break;
  case 4: ::detrend_ma(IN(x), n, w, o); break;
  case 5: ::deseason_ma(IN(x), n, w, o); break;
  default: { DV f = makeSeries(w, 5, 7, 4); ::filter(IN(x), n, IN(f), w, o); }
  }
  X.dig("out", o, n); 
}
OP(fl_conv, T_PURE | T_DATA) {
  int n = X.A("n", 1, 90, 30), m = X.A("m", 1, 40, 5); auto x = X.series(n), y = X.series(m, "ds2", "dk2"); double *o = OUT(n + m - 1);
  switch (X.A("which", 0, 3, 0)) {
  case 0: ::conv(IN(x), n, IN(y), m, o); break;
  case 1: ::convx(IN(x), n, IN(y), m, o); break;
  case 2: ::conv_direct(IN(x), n, IN(y), m, o); break;
  default: if (n < m) { std::swap(n, m); std::swap(x, y); } ::conv_directx(IN(x), n, IN(y), m, o);
  }
  X.dig("out", o, n + m - 1); X.digD("norm", ::norm2(IN(x), n));
}
OP(ta_diff, T_PURE | T_DATA) {
  int n = X.A("n", 12, 90, 30), d = X.A("d", 0, 3, 1), s = X.A("s", 2, 5, 4); auto x = X.series(n); int k;
  if (X.A("which", 0, 1, 0)) { if (d > 2) d = 2; double *o = OUT(n - d * s); k = ::diffs(IN(x), n, d, s, o); X.dig("out", o, n - d * s); double *c = OUT(d * s + 1); ::delds(d, s, c); X.dig("poly", c, d * s + 1); }
  else { double *o = OUT(n - d); k = ::diff(IN(x), n, d, o); X.dig("out", o, n - d); double *c = OUT(d + 1); ::deld(d, c); X.dig("poly", c, d + 1); }
  X.digInt("len", k);
}
OP(ta_poly, T_PURE | T_DATA) {
  int n = X.A("n", 1, 12, 4), m = X.A("m", 1, 12, 3), k = X.A("k", 1, 4, 2); auto x = X.series(n), y = X.series(m, "ds2", "dk2"); double *o = OUT(n + m - 1);
  X.digInt("len", ::poly(IN(x), IN(y), o, n, m)); X.dig("out", o, n + m - 1);
  double *u = OUT(k * (n - 1) + 1); int a = ::upsample(IN(x), n, k, u); X.digInt("up", a); X.dig("ups", u, a);
  double *w = OUT((n - 1) / k + 1); a = ::downsample(IN(x), n, k, w); X.digInt("dn", a); X.dig("dns", w, a);
}
OP(ta_weights, T_PURE) {
  int p = X.A("p", 0, 4, 1), q = X.A("q", 0, 4, 1), L = X.A("L", 1, 25, 10), sd = X.A("ds", 0, 9999, 1); auto ph = stableAR(p, sd), th = stableAR(q, sd + 1);
  double *o = OUT(L);
  int w = X.A("which", 0, 2, 0);
  if (w == 0) ::psiweight(IN(ph), IN(th), o, p, q, L);
  else if (w == 1) ::piweight(IN(ph), IN(th), o, p, q, L);
  else { if (L < p + 1) { L = p + 1; o = OUT(L); } ::arma_autocovar(IN(ph), IN(th), p, q, 1.5, o, L); }
  X.dig("w", o, L);
}
OP(ta_twacf, T_PURE) {
  int p = X.A("p", 0, 4, 1), q = X.A("q", 0, 4, 1), sd = X.A("ds", 0, 9999, 1); auto ph = stableAR(p, sd), th = stableAR(q, sd + 1);
  int m = p > q ? p : q, ma = m + 1 + X.A("extra", 0, 6, 2); double *acf = OUT(ma), *cv = OUT(m + 1), *al = OUT(m > 0 ? m : 1);
  int f = ::twacf(IN(ph), p, IN(th), q, acf, ma, cv, m + 1, al, m); X.status(f, f == 0);
  if (f == 0) { X.dig("acf", acf, ma); X.dig("cvli", cv, m + 1); }
}
OP(ta_trans, T_PURE) {
  int p = X.A("p", 0, 4, 2), q = X.A("q", 0, 3, 1), P = X.A("P", 0, 2, 0), Q = X.A("Q", 0, 2, 0), sd = X.A("ds", 0, 9999, 1), N = p + q + P + Q; if (N == 0) { p = N = 1; }
  DV raw; for (int k : {p, q, P, Q}) { auto a = stableAR(k, sd + k); raw.insert(raw.end(), a.begin(), a.end()); }
  int w = X.A("which", 0, 4, 0);
  if (w == 0) { double *o = OUT(N); ::transall(p, q, P, Q, IN(raw), o); X.dig("t", o, N); }
  else if (w == 1) { double *o = OUT(N); ::invtransall(p, q, P, Q, IN(raw), o); X.dig("t", o, N); }
  else if (w == 2) { auto a = stableAR(p > 0 ? p : 1, sd); int k = (int)a.size(); double *o = OUT(k), *o2 = OUT(k); ::artrans(k, IN(a), o); ::arinvtrans(k, IN(a), o2); X.dig("t", o, k); X.dig("i", o2, k); X.digInt("chk", ::archeck(k, IN(a))); }
  else if (w == 3) { int k = q > 0 ? q : 1; auto a = stableAR(k, sd); for (auto &v : a) v *= 1 + sd % 3; double *o = IO(a); X.digInt("inv", ::invertroot(k, o)); X.dig("ma", o, k); }
  else { int M = X.A("M", 0, 2, 0); int K = N + M; raw.resize(K, 0.3); double *o = OUT(K * K); ::gradtrans(IN(raw), p, q, P, Q, M, o); X.dig("A", o, K * K); }
}
OP(ta_interp, T_PURE | T_DATA) {
  int n = X.A("n", 3, 40, 10), m = X.A("m", 1, 20, 5); auto y = X.series(n), xs = noise(n, 3, 1); std::sort(xs.begin(), xs.end());
  DV xo(m); for (int i = 0; i < m; i++) xo[i] = xs[0] + (xs[n - 1] - xs[0]) * (i + 0.5) / (m + 1);
  double *o = OUT(m); ::approx(IN(xs), IN(y), n, IN(xo), o, m); X.dig("approx", o, m);
  X.digD("interp", ::interpolate_linear(IN(xs), IN(y), n, xo[0]));
  double *l = OUT(m + 1); ::linspace(l, m + 1, -1, 2); X.dig("lin", l, m + 1);
  double mn, mx; ::arrayminmax(IN(y), n, &mn, &mx); X.digD("mn", mn); X.digD("mx", mx);
  double *c = OUT(n); ::cumsum(IN(y), n, c); X.dig("cs", c, n);
  double s = 0; ::ppsum(IN(y), n, X.A("l", 1, n - 1, 2), &s); X.digD("pp", s);
}
OP(ta_supsmu, T_PURE | T_DATA) {
  int n = X.A("n", 6, 80, 30); auto y = X.series(n); DV x(n), w(n, 1.0); for (int i = 0; i < n; i++) x[i] = i / (double)n;
  int per = X.A("per", 0, 1, 0); double span = X.A("span", 0, 3, 0) * 0.15, alpha = X.A("alpha", 0, 2, 0) * 3.0; double *o = OUT(n);
  ::supsmu(IN(x), n, IN(y), IN(w), per ? 2 : 1, span, alpha, o); X.dig("smooth", o, n);
}
OP(bc_boxcox, T_PURE | T_DATA) {
  int n = X.A("n", 10, 90, 40); auto x = X.series(n); for (auto &v : x) if (std::isfinite(v)) v = fabs(v) + 0.1; double *y = OUT(n);
  double lam = X.A("lam", 0, 4, 2) * 0.5; 
  switch (X.A("which", 0, 3, 0)) {
  case 0: { double l = lam; X.digD("ret", ::boxcox(IN(x), n, &l, y)); X.digD("lam", l); X.dig("y", y, n); } break;
  case 1: { X.digD("ret", ::boxcox(IN(x), n, nullptr, y)); X.dig("y", y, n); } break;
  case 2: ::boxcox_eval(IN(x), n, lam, y); X.dig("y", y, n); break;
  default: ::inv_boxcox_eval(IN(x), n, lam, y); X.dig("y", y, n); // returns nothing meaningful
  }
  X.digInt("const", ::checkConstant(IN(x), n)); X.digInt("isc", ::is_constant(IN(x), n));
}

// ---------------------------------------------------------------- tests and decompositions
static const char *pick(int i, std::initializer_list<const char *> l) { return l.begin()[i % (int)l.size()]; }
OP(ur_ndiffs, T_PURE | T_DATA) {
  int n = X.A("n", 24, 120, 60); auto x = X.series(n); const char *t = pick(X.A("which", 0, 2, 0), {"kpss", "df", "pp"}), *ty = pick(X.A("type", 0, 1, 0), {"level", "trend"});
  int md = X.A("md", 1, 3, 2); double al = X.A("al", 0, 1, 0) ? 0.05 : 0.1; int mode = X.A("nul", 0, 1, 0);
  X.digInt("nd", mode ? ::ndiffs(IN(x), n, nullptr, buf_str(t), buf_str(ty), nullptr) : ::ndiffs(IN(x), n, &al, buf_str(t), buf_str(ty), &md));
}
OP(ur_nsdiffs, T_PURE | T_DATA) {
  int n = X.A("n", 40, 110, 60), f = X.A("s", 3, 8, 4); auto x = X.series(n); const char *t = pick(X.A("which", 0, 1, 0), {"seas", "ocsb"}); int md = X.A("md", 1, 2, 1); double al = 0.05;
  X.digInt("nsd", ::nsdiffs(IN(x), n, f, &al, buf_str(t), &md));
}
OP(ur_df, T_PURE | T_DATA) { int n = X.A("n", 24, 110, 60), k = X.A("lag", 0, 5, 1); auto x = X.series(n); double st = 0, pv = 0; int nul = X.A("nul", 0, 1, 0);
  ::ur_df(IN(x), n, buf_str(pick(X.A("which", 0, 1, 0), {"stationary", "explosive"})), nul ? nullptr : &k, &st, &pv); X.digD("stat", st); X.digD("p", pv); }
OP(ur_kpss, T_PURE | T_DATA) { int n = X.A("n", 24, 110, 60), k = X.A("lag", 0, 8, 1), nul = X.A("nul", 0, 1, 0); auto x = X.series(n); double st = 0, pv = 0;
  ::ur_kpss(IN(x), n, buf_str(pick(X.A("which", 0, 1, 0), {"level", "trend"})), X.A("ls", 0, 1, 1), nul ? nullptr : &k, &st, &pv); X.digD("stat", st); X.digD("p", pv); }
OP(ur_pp, T_PURE | T_DATA) { int n = X.A("n", 24, 110, 60), k = X.A("lag", 1, 8, 1), nul = X.A("nul", 0, 1, 0); auto x = X.series(n); double st = 0, pv = 0;
  ::ur_pp(IN(x), n, buf_str(pick(X.A("alt", 0, 1, 0), {"stationary", "explosive"})), buf_str(pick(X.A("which", 0, 1, 0), {"Z(alpha)", "Z(t_alpha)"})), X.A("ls", 0, 1, 1), nul ? nullptr : &k, &st, &pv); X.digD("stat", st); X.digD("p", pv); }
OP(ur_pp2, T_PURE | T_DATA) { int n = X.A("n", 24, 110, 60), k = X.A("lag", 1, 8, 1), nul = X.A("nul", 0, 1, 0), laux = 0; auto x = X.series(n); double st = 0, *cv = OUT(3), *cp = OUT(3), *aux = OUT(2);
  const char *ty = pick(X.A("which", 0, 1, 0), {"Z-tau", "Z-alpha"}), *mo = pick(X.A("model", 0, 1, 0), {"constant", "trend"});
  ::ur_pp2(IN(x), n, buf_str(ty), buf_str(mo), X.A("ls", 0, 1, 1), nul ? nullptr : &k, cv, cp, aux, &laux, &st);
  X.digD("stat", st); X.digInt("laux", laux); if (laux >= 0 && laux <= 2) X.dig("aux", aux, laux); if (!strcmp(ty, "Z-tau")) { X.dig("cv", cv, 3); X.dig("cp", cp, 3); } }
OP(ur_df2, T_PURE | T_DATA) { int n = X.A("n", 30, 110, 60), k = X.A("lag", 1, 5, 1), r = 0, c = 0, lt = 0; auto x = X.series(n); double *cv = OUT(9), *cp = OUT(3), *ts = OUT(3);
  ::ur_df2(IN(x), n, buf_str(pick(X.A("which", 0, 2, 0), {"none", "drift", "trend"})), &k, buf_str(pick(X.A("sel", 0, 2, 0), {"fixed", "aic", "bic"})), cv, &r, &c, cp, ts, &lt);
  X.digInt("rows", r); X.digInt("cols", c); if (r > 0 && c > 0 && r * c <= 9) X.dig("cv", cv, r * c); X.dig("cp", cp, 3); if (lt > 0 && lt <= 3) X.dig("ts", ts, lt); }
OP(se_ocsb, T_PURE | T_DATA) { int n = X.A("n", 40, 100, 60), f = X.A("s", 3, 7, 4), ml = X.A("ml", 0, 3, 1); auto x = X.series(n); double st = 0, cr = 0;
  ::OCSBtest(IN(x), n, f, ml, buf_str(pick(X.A("which", 0, 3, 0), {"aic", "bic", "aicc", "fixed"})), &st, &cr); X.digD("stat", st); X.digD("crit", cr); }
OP(se_sh, T_PURE | T_DATA) { int n = X.A("n", 40, 110, 60), f = X.A("s", 3, 8, 4); auto x = X.series(n); int ff[1] = {f}; double *o = OUT(1); ::SHtest(IN(x), n, buf_in_int(ff, 1), 1, o); X.dig("season", o, 1); }
OP(se_decompose, T_PURE | T_DATA) {
  int f = X.A("s", 2, 8, 4), n = X.A("n", 3 * f, 100, 48), mul = X.A("which", 0, 1, 0); auto x = X.series(n); if (mul) for (auto &v : x) if (std::isfinite(v)) v = fabs(v) + 1;
  int lt = 0, ls = 0, lr = 0; double *t = OUT(n), *s = OUT(n), *r = OUT(n);
  ::decompose(IN(x), n, f, nullptr, buf_str(mul ? "multiplicative" : "additive"), t, &lt, s, &ls, r, &lr);
  X.digInt("lt", lt); X.digInt("ls", ls); X.digInt("lr", lr);
  if (lt >= 0 && lt <= n) X.dig("trend", t, lt); if (ls >= 0 && ls <= n) X.dig("seas", s, ls); if (lr >= 0 && lr <= n) X.dig("rand", r, lr);
}
OP(se_stl, T_PURE | T_DATA) {
  int f = X.A("s", 2, 8, 4), n = X.A("n", 3 * f, 110, 48); auto x = X.series(n); double *s = OUT(n), *t = OUT(n), *r = OUT(n);
  int per = X.A("per", 0, 1, 1), sw = 7 + 2 * X.A("sw", 0, 4, 0), sdeg = X.A("sd", 0, 1, 0), tw = 7 + 2 * X.A("tw", 0, 5, 0), td = X.A("td", 0, 1, 1), rob = X.A("rob", 0, 1, 0), in = X.A("inner", 1, 3, 2), ou = X.A("outer", 0, 4, 0);
  int m = X.A("mask", 0, 15, 0);
  ::stl(IN(x), n, f, buf_str(per ? "period" : "window"), per ? nullptr : &sw, m & 1 ? &sdeg : nullptr, m & 2 ? &tw : nullptr, m & 4 ? &td : nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, m & 8 ? &rob : nullptr,
    m & 1 ? &in : nullptr, m & 2 ? &ou : nullptr, s, t, r);
  X.dig("seas", s, n); X.dig("trend", t, n); X.dig("rem", r, n);
}
OP(se_modstl, T_PURE | T_DATA) {
  int f = X.A("s", 2, 8, 4), n = X.A("n", 3 * f, 110, 48), sw = 7 + 2 * X.A("sw", 0, 4, 0), m = X.A("mask", 0, 3, 0); auto x = X.series(n); double lam = X.A("lam", 0, 2, 1) * 0.5; if (m & 2) for (auto &v : x) if (std::isfinite(v)) v = fabs(v) + 1;
  double *s = OUT(n), *t = OUT(n), *r = OUT(n); ::modstl(IN(x), n, f, m & 1 ? &sw : nullptr, m & 2 ? &lam : nullptr, s, t, r);
  X.dig("seas", s, n); X.dig("trend", t, n); X.dig("rem", r, n);
}
OP(se_mstl, T_PURE | T_DATA) {
  int sh = X.A("short", 0, 4, 1), f = X.A("s", 3, 6, 4) + (sh ? 0 : 4), n = sh ? X.A("n", 6 * f, 120, 60) : X.A("n", f + 2, 5 * f, 3 * f), ns = X.A("ns", 1, 2, 1), ord = X.A("ord", 0, 2, 0) == 1, sw = 7 + 2 * X.A("sw", 0, 3, 0), it = X.A("it", 1, 3, 2), m = X.A("mask", 0, 7, 0); auto x = X.series(n);
  int ff[2] = {f, 2 * f}; int *F = OUTI(2); F[0] = ff[ord]; F[1] = ff[1 - ord]; int nn = ns; double lam = 0.5; if (m & 4) for (auto &v : x) if (std::isfinite(v)) v = fabs(v) + 1;
  double *t = OUT(n), *r = OUT(n); double *ss[2] = {OUT(n), OUT(n)};
  ::mstl(IN(x), n, F, &nn, m & 1 ? &sw : nullptr, m & 4 ? &lam : nullptr, m & 2 ? &it : nullptr, ss, t, r);
  X.digInt("ns", nn); for (int i = 0; i < nn && i < 2; i++) X.dig("seas", ss[i], n); X.dig("trend", t, n); X.dig("rem", r, n);
}
OP(se_lags, T_PURE | T_DATA) {
  int n = X.A("n", 12, 60, 30), m = X.A("m", 0, 4, 2), r = 0, c = 0; auto x = X.series(n); double *p = ::genLags(IN(x), n, m, &r, &c);
  X.digInt("rows", r); X.digInt("cols", c); if (p) { if (r > 0 && c > 0 && (long)r * c < 100000) X.dig("lags", p, (size_t)r * c); sim_free(p); X.status(1, 1); } else X.status(0, 0);
}
OP(se_dummy, T_PURE | T_DATA | T_PRINT) {
  int n = X.A("n", 24, 70, 30), f = X.A("s", 3, 7, 4), r = 0, c = 0; auto x = X.series(n); double *p = ::seasdummy(IN(x), n, f, &r, &c);
  X.digInt("rows", r); X.digInt("cols", c); if (p) { if (r > 0 && c > 0 && (long)r * c < 100000) X.dig("d", p, (size_t)r * c); sim_free(p); X.status(1, 1); } else X.status(0, 0);
}
OP(se_fitocsb, T_PURE | T_DATA) {
  int n = X.A("n", 40, 90, 50), f = X.A("s", 3, 6, 4), lag = X.A("lag", 0, 3, 1), ml = X.A("ml", lag, 3, lag); auto x = X.series(n); reg_object o = ::fitOCSB(IN(x), n, f, lag, ml);
  if (!o) { X.status(0, 0); return; } X.status(1, 1);
  for (int i = 0; i < o->p; i++) X.digD("b", o->beta[i].value); X.digD("sigma", o->sigma); X.digD("rss", o->RSS); X.digD("aic", o->aic); X.digD("bic", o->bic); X.digD("aicc", o->aicc); ::free_reg(o);
}
OP(pr_predictarima, T_PURE | T_DATA) {
  int n = X.A("n", 20, 80, 40), p = X.A("p", 0, 3, 1), d = X.A("d", 0, 2, 0), q = X.A("q", 0, 3, 1), L = X.A("L", 1, 15, 5), sd = X.A("ds2", 0, 999, 1); auto x = X.series(n), ph = stableAR(p, sd), th = stableAR(q, sd + 1); double *o = OUT(L);
  ::predictarima(IN(x), n, p, d, q, IN(ph), IN(th), 0.25, L, o); X.dig("fc", o, L);
}

// ---------------------------------------------------------------- special functions, distributions, roots
OP(di_dist, T_PURE) {
  double x = X.A("x", -400, 400, 50) / 100.0, pos = fabs(x) + 0.01, pr = X.A("p", 1, 999, 500) / 1000.0; int k = X.A("k", 1, 30, 5), j = X.A("j", 1, 30, 7);
  double v[] = {::normalpdf(x, 0.3, 1.2), ::normalcdf(x, 0.3, 1.2), ::normalinv(pr, 0.3, 1.2), ::tpdf(x, k), ::tcdf(x, k), ::tinv(pr, k), ::fpdf(pos, k, j), ::fcdf(pos, k, j), ::finv(pr, k, j),
    ::gammapdf(pos, k * 0.4, 1.5), ::gammacdf(pos, k * 0.4, 1.5), ::gammainv(pr, k * 0.4, 1.5), ::chipdf(pos, k), ::chicdf(pos, k), ::chiinv(pr, k), ::betapdf(pr, k * 0.3, j * 0.4), ::betacdf(pr, k * 0.3, j * 0.4), ::betainv(pr, k * 0.3, j * 0.4),
    ::gamma_log(pos), ::beta_log(pos, k), ::pgamma(pos, k), ::qgamma(pos, k), ::ibeta(pr, k, j), ::erfinv(2 * pr - 1), ::erfcinv(2 * pr), ::erfcx(x), ::factorial(k)};
  X.dig("v", v, sizeof v / 8);
}
OP(po_roots, T_PURE) {
  int n = X.A("n", 1, 12, 4); if (X.A("nbig", 0, 11, 1) == 0) n = 90 + n * 4; int w = X.A("which", 0, 1, 0); auto c = noise(n + 1, X.A("ds", 0, 99999, 1), 1.0), ci = noise(n + 1, X.A("ds2", 0, 99999, 2), 1.0); if (X.has("ck") && !X.env->skipFaults) corruptSeries(c, X.A("cp", 0, 100000, 0), X.A("ck", 0, 7, 0), X.A("cc", 1, 30, 1)); if (X.A("z", 0, 5, 1) == 0) c[0] = ci[0] = 0; if (X.A("z2", 0, 5, 1) == 0) { c[n] = ci[n] = 0; }
  double *zr = OUT(n), *zi = OUT(n); int f = w ? ::cpolyroot(IN(c), IN(ci), n, zr, zi) : ::polyroot(IN(c), n, zr, zi);
  X.status(f, f == 0); if (f == 0) { X.dig("zr", zr, n); X.dig("zi", zi, n); }
}

// ---------------------------------------------------------------- dense linear algebra
static DV mat(Ctx &X, int m, int n, long seed, int kind) { DV a = noise((size_t)m * n, seed + 77, 1.0);
  if (kind == 1) { for (int i = 0; i < m && i < n; i++) a[(size_t)i * n + i] += 4; } else if (kind == 2 && m > 1) { for (int j = 0; j < n; j++) a[(size_t)(m - 1) * n + j] = a[j]; } else if (kind == 3) { for (auto &v : a) v = (double)(int)(v * 2); }
  if (X.has("ck") && !X.env->skipFaults) corruptSeries(a, X.A("cp", 0, 100000, 0), X.A("ck", 0, 7, 0), X.A("cc", 1, 30, 1));
  return a; }
OP(ma_arith, T_PURE | T_MAT) {
  int m = X.A("m", 1, 20, 4), n = X.A("n", 1, 20, 3), p = X.A("p", 1, 20, 5); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), 0), b = mat(X, m, n, X.A("ds2", 0, 99999, 2), 0), c = mat(X, n, p, X.A("ds3", 0, 99999, 2), 0);
  double *o = OUT((size_t)m * n), *o2 = OUT((size_t)m * n), *t = OUT((size_t)m * n), *g = OUT((size_t)m * p), *g2 = OUT((size_t)m * p), *g3 = OUT((size_t)m * p), *s = IO(a);
  ::madd(IN(a), IN(b), o, m, n); ::msub(IN(a), IN(b), o2, m, n); ::scale(s, m, n, 1.7); ::mtranspose(IN(a), m, n, t); ::mmult(IN(a), IN(c), g, m, n, p); ::nmult(IN(a), IN(c), g2, m, n, p); ::tmult(IN(a), IN(c), g3, m, n, p);
  X.dig("add", o, m * n); X.dig("sub", o2, m * n); X.dig("scale", s, m * n); X.dig("tr", t, m * n); X.dig("mul", g, m * p); X.dig("nmul", g2, m * p); X.dig("tmul", g3, m * p);
  double *t2 = OUT((size_t)m * n), *t3 = OUT((size_t)m * n), *t4 = OUT((size_t)m * n); ::stranspose(IN(a), m, n, t2); ::ctranspose(IN(a), m, n, t3); ::dtranspose(IN(a), m, n, t4); X.dig("str", t2, m * n); X.dig("ctr", t3, m * n); X.dig("dtr", t4, m * n);
}
// the kernels that carry OpenMP pragmas, on shapes around and below the team size, with the aliasing the library itself uses
OPW(ma_kernel, T_PURE | T_MAT, 2) {
  int big = X.A("big", 0, 7, 1) == 0; int m = X.A("m", 1, big ? 60 : 12, 4), n = X.A("n", 1, big ? 60 : 12, 3), p = X.A("p", 1, big ? 60 : 12, 5), w = X.A("which", 0, 9, 0); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), 0), b = mat(X, m, n, X.A("ds2", 0, 99999, 2), 0), c = mat(X, n, p, X.A("ds3", 0, 99999, 2), 0);
  double *s = IO(a), *o = OUT((size_t)m * n), *g = OUT((size_t)m * p);
  switch (w) {
  case 0: ::madd(IN(a), IN(b), o, m, n); X.dig("o", o, (size_t)m * n); return;
  case 1: ::msub(IN(a), IN(b), o, m, n); X.dig("o", o, (size_t)m * n); return;
  case 2: ::madd(s, IN(b), s, m, n); ::msub(s, s, o, m, n); X.dig("s", s, (size_t)m * n); X.dig("o", o, (size_t)m * n); return;
  case 3: ::scale(s, m, n, X.A("sc", 0, 3, 1) == 0 ? 0.0 : -2.25); X.dig("s", s, (size_t)m * n); return;
  case 4: ::stranspose(IN(a), m, n, o); X.dig("o", o, (size_t)m * n); return;
  case 5: ::mtranspose(IN(a), m, n, o); X.dig("o", o, (size_t)m * n); return;
  case 6: ::nmult(IN(a), IN(c), g, m, n, p); X.dig("g", g, (size_t)m * p); return;
  case 7: ::tmult(IN(a), IN(c), g, m, n, p); X.dig("g", g, (size_t)m * p); return;
  case 8: ::mmult(IN(a), IN(c), g, m, n, p); X.dig("g", g, (size_t)m * p); return;
  default: ::itranspose(s, m, n); X.dig("s", s, (size_t)m * n); return;
  }
}
OPW(ma_bigmul, T_PURE | T_MAT | T_HEAVY, 3) {
  int m = X.A("m", 20, 90, 40), n = X.A("n", 20, 90, 40), p = X.A("p", 20, 90, 40), w = X.A("which", 0, 3, 0); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), 0), c = mat(X, n, p, X.A("ds2", 0, 99999, 2), 0); double *g = OUT((size_t)m * p);
  if (w == 0) ::mmult(IN(a), IN(c), g, m, n, p); else if (w == 1) ::rmult(IN(a), IN(c), g, m, n, p); else if (w == 2) ::smult(IN(a), IN(c), g, m, n, p); else { double *t = OUT((size_t)m * n); ::mtranspose(IN(a), m, n, t); X.dig("t", t, (size_t)m * n); return; }
  X.dig("mul", g, (size_t)m * p);
}
OP(ma_lu, T_PURE | T_MAT) {
  int n = X.A("n", 1, 12, 4); auto a = mat(X, n, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 1, 0)), b = noise(n, 5, 1); double *A = IO(a), *x = OUT(n), *inv = OUT((size_t)n * n); int *ip = OUTI(n);
  ::ludecomp(A, n, ip); ::linsolve(A, n, IN(b), ip, x); ::minverse(A, n, ip, inv); X.dig("lu", A, n * n); X.digI("piv", ip, n); X.dig("x", x, n); X.dig("inv", inv, n * n);
}
OP(ma_plu, T_PURE | T_MAT) {
  int m = X.A("m", 2, 9, 4), n = X.A("n", 2, 9, 4); if (m < n) std::swap(m, n); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), 1); double *A = IO(a); int *ip = OUTI(m);
  int f = ::rludecomp(A, m, n, ip); X.digInt("f", f); double *P = OUT((size_t)m * m), *L = OUT((size_t)m * n), *U = OUT((size_t)n * n); ::getPLU(A, m, n, ip, P, L, U); X.dig("P", P, m * m); X.dig("L", L, m * n); X.dig("U", U, n * n);
}
OP(ma_qr, T_PURE | T_MAT) {
  int n = X.A("n", 1, 9, 3), m = X.A("m", n, 16, 6); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 3, 0)); double *A = IO(a), *bv = OUT(n), *Q = OUT((size_t)m * n), *R = OUT((size_t)n * n);
  ::qrdecomp(A, m, n, bv); ::getQR(A, m, n, bv, Q, R); X.dig("Q", Q, m * n); X.dig("R", R, n * n);
}
OP(ma_eig, T_PURE | T_MAT) {
  int n = X.A("n", 1, 10, 4); auto a = mat(X, n, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 3, 0)); int sym = X.A("which", 0, 2, 0);
  if (sym == 1) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i * n + j] = a[j * n + i]; double *ev = OUT(n), *vec = OUT((size_t)n * n); ::eigensystem(IN(a), n, ev, vec); X.dig("ev", ev, n); X.dig("vec", vec, n * n); }
  else if (sym == 2) { double *A = IO(a); if (n > 2) { ::hessenberg(A, n); X.dig("H", A, n * n); } }
  else { double *re = OUT(n), *im = OUT(n); ::eig(IO(a), n, re, im); X.dig("re", re, n); X.dig("im", im, n); }
}
OP(ma_chol, T_PURE | T_MAT) {
  int n = X.A("n", 1, 12, 4), w = X.A("which", 0, 2, 0), k = X.A("kind", 0, 2, 0); auto g = mat(X, n, n, X.A("ds", 0, 99999, 1), 0); DV a(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = k == 2 && i == j ? -3 : 0; for (int t = 0; t < n; t++) s += g[i * n + t] * g[j * n + t]; a[i * n + j] = s; }
  double *A = IO(a);
  if (w == 1) { ::chold(A, n); X.dig("A", A, n * n); return; }
  int f = w ? ::cholu(A, n) : ::chol(A, n); X.status(f, f == 0); if (f == 0) X.dig("A", A, n * n);
}
OP(ma_svd, T_PURE | T_MAT) {
  int n = X.A("n", 1, 8, 3), m = X.A("m", n, 14, 6); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 3, 0)); int w = X.A("which", 0, 2, 0);
  if (w == 2) { X.digInt("rank", ::rank(IO(a), m, n)); return; }
  if (w == 1) { std::vector<double> t(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) t[j * m + i] = a[i * n + j]; double *U = OUT((size_t)n * n), *V = OUT((size_t)m * n), *q = OUT(n); int f = ::svd_transpose(IO(t), n, m, U, V, q); X.status(f, f == 0); if (f == 0) { X.dig("U", U, n * n); X.dig("V", V, m * n); X.dig("q", q, n); } return; }
  double *U = OUT((size_t)m * n), *V = OUT((size_t)n * n), *q = OUT(n); int f = ::svd(IO(a), m, n, U, V, q); X.status(f, f == 0); if (f == 0) { X.dig("U", U, m * n); X.dig("V", V, n * n); X.dig("q", q, n); }
}
OP(ma_lls, T_PURE | T_MAT) {
  int n = X.A("n", 1, 6, 3), m = X.A("m", n + 1, 16, 9), w = X.A("which", 0, 3, 0); auto a = mat(X, m, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 1, 0)), b = noise(m, 9, 1); double *x = OUT(n); int f;
  if (w == 0) f = ::lls_normal(IN(a), IN(b), m, n, x); else if (w == 1) f = ::lls_qr(IN(a), IN(b), m, n, x); else if (w == 2) f = ::lls_svd(IN(a), IN(b), m, n, x); else f = ::lls_svd2(IN(a), IN(b), m, n, x);
  X.digInt("f", f); if (f == 0) X.dig("x", x, n); // a failed solve promises no solution
}
OP(ma_misc, T_PURE | T_MAT) {
  int n = X.A("n", 1, 30, 9); auto a = noise(n, X.A("ds", 0, 99999, 1), 2); if (X.A("ties", 0, 2, 0) == 0) for (auto &v : a) v = (double)(int)v; int *pos = OUTI(n), *pos2 = OUTI(n); ::sort1d(IN(a), n, pos); ::sort1d_ascending(IN(a), n, pos2);
  DV s1(n), s2(n); for (int i = 0; i < n; i++) { s1[i] = pos[i] >= 0 && pos[i] < n ? a[pos[i]] : NAN; s2[i] = pos2[i] >= 0 && pos2[i] < n ? a[pos2[i]] : NAN; } X.dig("s1", s1.data(), n); X.dig("s2", s2.data(), n);
  double v[] = {::array_max_abs(IN(a), n), ::array_max(IN(a), n), ::array_min(IN(a), n), ::l2norm(IN(a), n), ::macheps()}; X.dig("v", v, 5); double *e = OUT((size_t)n * n); ::eye(e, n); X.dig("eye", e, (size_t)n * n); ::eye_scale(e, n, 2.5); X.dig("eyes", e, (size_t)n * n);
}
OP(ma_print, T_PURE | T_PRINT) { int m = X.A("m", 1, 4, 2), n = X.A("n", 1, 4, 2); auto a = mat(X, m, n, X.A("ds", 0, 9999, 1), 0); ::mdisplay(IN(a), m, n); }
