// A setting that was accepted takes effect: two fresh objects that differ in one setting only, run on the same data,
// must not publish the same results on every one of several data sets.
#include "ops.h"
#include "lib.h"
#include <math.h>
#include <string.h>
extern "C" void auto_arima_allowMean(auto_arima_object obj, int allowmean);
extern "C" void auto_arima_allowDrift(auto_arima_object obj, int allowdrift);
struct Eff { int want = 3, runs = 0, same = 0; };
static void effAdd(Eff &e, const DV &a, const DV &b) { e.runs++; if (a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(double))) e.same++; }
// an autocorrelated series with a seasonal component, a level and noise
static DV effSeries(int n, long seed, int f, bool walk) {
  DV e = noise(n + 60, seed * 31 + 7, 1.0), y(n); double a = 0, l = 0, w = 0; DV s(f > 1 ? f : 1, 0.0);
  for (int i = 0; i < n + 60; i++) { double x = e[i] + 0.45 * l; l = e[i]; a = 0.55 * a + x; w += 0.7 * x + 0.2; if (f > 1) s[i % f] = 0.6 * s[i % f] + 0.8 * x; if (i >= 60) y[i - 60] = (walk ? w : a) + (f > 1 ? s[i % f] : 0) + 11.5; }
  return y; }
static void put(DV &o, const double *v, int n) { if (v) for (int i = 0; i < n; i++) o.push_back(v[i]); }
// settings are given in the order (method, optimiser, third); -1 leaves one alone
static int preSet = -1, preWhat; // a value set before the one in question
static DV fitWith(int kind, const DV &y, int p, int q, int s, int P, int Q, int me, int om, int th, int *ok) {
  DV o; int n = (int)y.size(); *ok = 0;
  if (kind == 0) { auto a = ::arima_init(p, 0, q, n); if (!a) return o; if (preSet >= 0) { if (preWhat == 0) ::arima_setMethod(a, preSet); else if (preWhat == 1) ::arima_setOptMethod(a, preSet); else ::arima_setCSSML(a, preSet); } if (me >= 0) ::arima_setMethod(a, me); if (om >= 0) ::arima_setOptMethod(a, om); if (th >= 0) ::arima_setCSSML(a, th); ::arima_exec(a, IN(y)); *ok = a->retval == 1; put(o, a->phi, p); put(o, a->theta, q); o.push_back(a->mean); o.push_back(a->var); ::arima_free(a); }
  else if (kind == 1) { auto a = ::sarima_init(p, 0, q, s, P, 0, Q, n); if (!a) return o; if (preSet >= 0) { if (preWhat == 0) ::sarima_setMethod(a, preSet); else if (preWhat == 1) ::sarima_setOptMethod(a, preSet); else ::sarima_setCSSML(a, preSet); } if (me >= 0) ::sarima_setMethod(a, me); if (om >= 0) ::sarima_setOptMethod(a, om); if (th >= 0) ::sarima_setCSSML(a, th); ::sarima_exec(a, IN(y)); *ok = a->retval == 1; put(o, a->phi, p); put(o, a->theta, q); put(o, a->PHI, P); put(o, a->THETA, Q); o.push_back(a->mean); o.push_back(a->var); ::sarima_free(a); }
  else { auto a = ::sarimax_init(p, 0, q, P, 0, Q, s, 0, 1, n); if (!a) return o; if (preSet >= 0) { if (preWhat == 0) ::sarimax_setMethod(a, preSet); else ::sarimax_setOptMethod(a, preSet); } if (me >= 0) ::sarimax_setMethod(a, me); if (om >= 0) ::sarimax_setOptMethod(a, om); ::sarimax_exec(a, IN(y), nullptr); *ok = a->retval == 1; put(o, a->phi, p); put(o, a->theta, q); put(o, a->PHI, P); put(o, a->THETA, Q); o.push_back(a->mean); o.push_back(a->var); ::sarimax_free(a); }
  return o; }
static void judgeEff(const Eff &e, const char *cls, const char *who, const char *what, long a, long b) {
  if (e.runs == e.want) { sim_count(CN_REFCHECK); if (getenv("SIM_EFF")) fprintf(stderr, "EFF %s/%s %ld %ld: %d of %d the same\n", who, what, a, b, e.same, e.runs); if (e.same == e.runs) event("C16", cls, "%s %s: values %ld and %ld give bitwise the same results on %d data sets", who, what, a, b, e.runs); } }
// the last value set is the one that counts
static void judgeLast(const DV &b, const DV &ab, const char *who, const char *what, long x, long y) {
  if (b.size() != ab.size() || memcmp(b.data(), ab.data(), b.size() * sizeof(double))) event("C16", "setting-lost", "%s %s: value %ld gives another result when value %ld was set before it", who, what, y, x); sim_count(CN_REFCHECK);
}
OPW(e_fit, T_OBJ, 0) {
  static const char *K[] = {"arima", "sarima", "sarimax"}, *W[] = {"method", "optimiser", "CSS start"};
  int k = X.A("kind", 0, 2, 0), w = X.A("what", 0, 2, 0), n = X.A("n", 50, 90, 60), p = X.A("p", 0, 2, 1), q = X.A("q", 0, 2, 1), s = 4, P = 0, Q = 0; if (k == 2 && w == 2) w = 1;
  if (p + q < 2) p = q = 1; if (k > 0 && X.A("seas", 0, 1, 0)) { if (X.A("pq", 0, 1, 0)) P = 1; else Q = 1; if (p + q > 2) q = 1, p = 1; }
  int nv = w == 0 ? 3 : w == 1 ? 8 : 2, a = X.A("v1", 0, nv - 1, 0), b = X.A("v2", 0, nv - 1, 1), me = w == 0 ? -1 : X.A("me", 0, 1, 0); long ds = X.A("ds", 0, 99999, 1); if (a == b) b = (a + 1) % nv; if (w == 2) me = 0; if (w == 1 && a > 0 && a < 4 && b > 0 && b < 4) b = 5; // the Newton variants coincide while every full step is taken
  sim_budget(6000000000ULL, true); Eff e; X.noprint = true;
  for (int i = 0; i < e.want; i++) { DV y = effSeries(n, ds + i * 7717, P + Q ? s : 0, false); int o1, o2; DV r1 = fitWith(k, y, p, q, s, P, Q, w == 0 ? a : me, w == 1 ? a : -1, w == 2 ? a : -1, &o1), r2 = fitWith(k, y, p, q, s, P, Q, w == 0 ? b : me, w == 1 ? b : -1, w == 2 ? b : -1, &o2); if (o1 && o2) effAdd(e, r1, r2);
    if (!i) { preSet = a; preWhat = w; DV r3 = fitWith(k, y, p, q, s, P, Q, w == 0 ? b : me, w == 1 ? b : -1, w == 2 ? b : -1, &o2); preSet = -1; judgeLast(r2, r3, K[k], W[w], a, b); } }
  judgeEff(e, "setting-ignored", K[k], W[w], a, b);
}
OPW(e_auto, T_OBJ, 0) { // 0 method 1 optimiser 2 stationary 3 seasonal 5 mean 6 drift
  static const char *W[] = {"method", "optimiser", "stationary", "seasonal", "", "mean", "drift"}; int w = X.A("what", 0, 6, 0), n = X.A("n", 48, 64, 56), a = 0, b = 1; long ds = X.A("ds", 0, 99999, 1); if (w == 4) w = 0;
  if (w == 0) { a = X.A("v1", 0, 2, 0); b = X.A("v2", 0, 2, 1); if (a == b) b = (a + 1) % 3; } else if (w == 1) { a = X.A("v1", 0, 7, 0); b = X.A("v2", 0, 7, 5); if (a == b) b = (a + 1) % 8; }
  sim_budget(40000000000ULL, false); Eff e; e.want = w == 5 ? 7 : w == 0 || w == 2 ? 5 : 3; X.noprint = true;
  for (int i = 0; i < e.want; i++) {
    DV y = effSeries(n, ds + i * 7717, w == 3 ? 4 : 0, w == 2 || w == 6), r[3]; if (w == 3) for (int t = 0; t < n; t++) y[t] += (t % 4) * 6.0; if (w == 6) for (int t = 0; t < n; t++) y[t] += 2.5 * t; int ok[3];
    for (int j = 0; j < (i ? 2 : 3); j++) { int pq[3] = {1, 1, 1}, PQ[3] = {w == 3 ? 1 : 0, w == 3 ? 1 : 0, w == 3 ? 1 : 0}; auto o = ::auto_arima_init(pq, PQ, w == 3 ? 4 : 1, 0, n); ok[j] = 0; if (!o) continue; ::auto_arima_setApproximation(o, 0);
      for (int k = j == 2 ? 0 : 1; k < 2; k++) { int v = k ? (j ? b : a) : a; switch (w) { case 0: ::auto_arima_setMethod(o, v); break; case 1: ::auto_arima_setOptMethod(o, v); break; case 2: ::auto_arima_setStationary(o, v); break; case 3: ::auto_arima_setSeasonal(o, v); break; case 4: ::auto_arima_setApproximation(o, v); break; case 5: ::auto_arima_allowMean(o, v); break; default: ::auto_arima_allowDrift(o, v); } }
      ::auto_arima_exec(o, IN(y), nullptr); ok[j] = o->retval == 1; double h[] = {(double)o->p, (double)o->d, (double)o->q, (double)o->P, (double)o->D, (double)o->Q, (double)o->drift, o->mean, o->var, o->loglik}; put(r[j], h, 10); put(r[j], o->phi, o->p); put(r[j], o->theta, o->q); put(r[j], o->PHI, o->P); put(r[j], o->THETA, o->Q); ::auto_arima_free(o); }
    if (!i) judgeLast(r[1], r[2], "auto_arima", W[w], a, b);
    if (ok[0] && ok[1]) effAdd(e, r[0], r[1]); }
  judgeEff(e, "setting-ignored", "auto_arima", W[w], a, b);
}
OPW(e_reg, T_OBJ, 0) {
  static const char *m[] = {"qr", "normal", "svd"}; int w = X.A("what", 0, 1, 0), p = X.A("p", 2, 5, 3), n = X.A("n", 20, 40, 25), a = X.A("v1", 0, 2, 0), b = X.A("v2", 0, 2, 1); long ds = X.A("ds", 0, 99999, 1); if (w == 1) { a = 0; b = 1; } else if (a == b) b = (a + 1) % 3; Eff e; e.want = 6; X.noprint = true;
  for (int i = 0; i < e.want; i++) { DV y = noise(n, ds + i * 91 + 1, 2.0), x = noise((size_t)n * p, ds + i * 91 + 2, 1.0), r[2]; for (int t = 0; t < n; t++) y[t] += 3 + 1.5 * x[t];
    for (int j = 0; j < 2; j++) { int v = j ? b : a, ic = w == 1 ? v : 1, k = ic ? p - 1 : p; auto o = ::reg_init(n, p); if (!o) continue; if (w == 1) ::setIntercept(o, v); else ::setLLSMethod(o, buf_str(m[v])); DV xx(x.begin(), x.begin() + (size_t)n * k); double *res = OUT(n), *vc = OUT((size_t)p * p); ::regress(o, IN(xx), IN(y), res, vc, 0.05); put(r[j], res, n); put(r[j], vc, p * p); for (int t = 0; t < p; t++) { double q[] = {o->beta[t].value, o->beta[t].lower}; put(r[j], q, 2); } ::free_reg(o); }
    effAdd(e, r[0], r[1]); }
  judgeEff(e, "setting-ignored", "regression", w ? "intercept" : "least-squares method", a, b);
}
static double effFun(double *x, int n, void *) { double f = 0; for (int i = 0; i + 1 < n; i++) f += 100 * pow(x[i + 1] - x[i] * x[i], 2) + pow(1 - x[i], 2); return f; }
static void effMult(double *x, int m, int n, double *f, void *) { for (int i = 0; i < m; i++) { double t = 0.3 * (i + 1); f[i] = x[0] * exp(-x[1] * t) - 2.5 * exp(-0.7 * t) + 0.05 * sin(9 * t); if (n > 2) f[i] += 0.3 * x[2] * t; } }
OPW(e_opt, T_OBJ | T_CB, 0) { // 0 iteration limit 1 largest step 2 tolerances 3 method 4 least-squares tolerances
  static const char *W[] = {"iteration limit", "largest step", "tolerances", "method", "least-squares tolerances"}; int w = X.A("what", 0, 4, 0), m = X.A("method", 0, 7, 5), n = 2, a = 0, b = 1; long ds = X.A("ds", 0, 99999, 1); Eff e; X.noprint = true; sim_budget(2000000000ULL, true);
  if (w == 1) { static const int lm[] = {1, 4, 5, 7}; m = lm[m % 4]; } if (w == 3) { a = X.A("v1", 0, 7, 0); b = X.A("v2", 0, 7, 1); if (a == b) b = (a + 1) % 8; } if (w == 2 && m == 0) m = 5; // Nelder-Mead stops on its own criterion
  for (int i = 0; i < e.want; i++) { DV x0 = noise(3, ds + i * 57 + 3, 0.8), r[3]; x0[0] -= 2.2; x0[1] += 2; custom_function f = {effFun, nullptr};
    for (int j = 0; j < (i || w == 3 ? 2 : 3); j++) { int v = j ? b : a;
      if (w == 4) { int mm = 8; auto o = ::nls_init(mm, n); custom_funcmult g = {effMult, nullptr}; DV s(2); s[0] = 1 + 0.2 * x0[0]; s[1] = 0.2; if (j == 2) ::setnlsTOL(o, 1e-14, 1e-14, 1e-14); if (v) ::setnlsTOL(o, 1e-1, 1e-1, 1e-1); else ::setnlsTOL(o, 1e-14, 1e-14, 1e-14); ::nls(o, &g, nullptr, IN(s)); put(r[j], o->xopt, n); r[j].push_back(o->Iter); ::free_nls(o); continue; }
      auto o = ::opt_init(n); DV s(x0.begin(), x0.begin() + n); int mm = m; if (j == 2) { if (w == 0) ::setMaxIter(o, 4000); else if (w == 1) ::setMaxStep(o, 1000.0); else ::setTOL(o, 1e-9, 1e-13, 1e-13, 1e-15); } if (w == 0) ::setMaxIter(o, v ? 2 : 4000); else if (w == 1) ::setMaxStep(o, v ? 0.05 : 1000.0); else if (w == 2) { if (v) ::setTOL(o, 1e-1, 1e-1, 1e-1, 1e-1); else ::setTOL(o, 1e-9, 1e-13, 1e-13, 1e-15); } else mm = v; ::optimize(o, &f, nullptr, n, IN(s), mm); put(r[j], o->xopt, n); r[j].push_back(o->objfunc); ::free_opt(o); }
    effAdd(e, r[0], r[1]); if (!i && w != 3) judgeLast(r[1], r[2], "optimiser", W[w], a, b); }
  judgeEff(e, "setting-ignored", "optimiser", W[w], w == 3 ? a : m, w == 3 ? b : m);
}
OPW(e_wave, T_OBJ, 0) { // the signal extension of every transform, the convolution kind
  static const char *nm[] = {"db4", "sym5", "coif2", "bior2.4", "haar"}, *tm[] = {"dwt", "modwt"}; int k = X.A("kind", 0, 4, 0), n = 8 * X.A("n8", 3, 15, 6), J = X.A("J", 1, 2, 1), wn = X.A("wave", 0, 3, 0); long ds = X.A("ds", 0, 99999, 1); static const char *who[] = {"dwt", "modwt", "wtree", "dwpt", "modwt"}; Eff e; e.want = k == 3 ? 10 : 3; X.noprint = true; if ((k == 1 || k == 4) && wn == 3) wn = 0;
  for (int i = 0; i < e.want; i++) { DV y = noise(n, ds + i * 57 + 3, 1.8), r[3]; wave_object w = ::wave_init(buf_str(nm[wn]));
    for (int v = 0; v < (i ? 2 : 3); v++) { const char *ex = v ? "per" : "sym";
      if (k == 2) { auto o = ::wtree_init(w, n, J); if (v == 2) ::setWTREEExtension(o, buf_str("sym")); ::setWTREEExtension(o, buf_str(ex)); ::wtree(o, IN(y)); put(r[v], o->output, o->outlength); ::wtree_free(o); }
      else if (k == 3) { auto o = ::wpt_init(w, n, J); if (v == 2) ::setDWPTExtension(o, buf_str("sym")); ::setDWPTExtension(o, buf_str(ex)); ::dwpt(o, IN(y)); put(r[v], o->output, o->outlength); ::wpt_free(o); }
      else { auto o = ::wt_init(w, buf_str(tm[k == 1 || k == 4]), n, J); if (k == 4) { if (v == 2) ::setWTConv(o, buf_str("fft")); ::setWTConv(o, buf_str(v ? "direct" : "fft")); } else { if (k == 1) ::setWTConv(o, buf_str("fft")); if (v == 2) ::setDWTExtension(o, buf_str("sym")); ::setDWTExtension(o, buf_str(ex)); } if (k == 0) ::dwt(o, IN(y)); else ::modwt(o, IN(y)); put(r[v], o->output, o->outlength); ::wt_free(o); } }
    ::wave_free(w); effAdd(e, r[0], r[1]); if (!i) judgeLast(r[1], r[2], who[k], k == 4 ? "convolution" : "extension", 0, 1); }
  judgeEff(e, "setting-ignored", who[k], k == 4 ? "convolution" : "extension", 0, 1);
}
