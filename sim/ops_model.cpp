// Time-series model objects and regressions: constructors, setters, fits, queries, forecasts, and their oracles.
#include "ops.h"
#include "lib.h"
#include "ref.h"
#include <math.h>
#include <limits.h>
#include <algorithm>

extern "C" void auto_arima_allowMean(auto_arima_object obj, int allowmean);
extern "C" void auto_arima_allowDrift(auto_arima_object obj, int allowdrift);

// ---------------------------------------------------------------- what an object publishes
struct View {
  int N = 0, Nused = 0, p = 0, d = 0, q = 0, P = 0, D = 0, Q = 0, s = 0, M = 0, r = 0, nc = 0, lvcov = 0, retval = 0, method = 0, drift = 0, imean = 1;
  double *phi = nullptr, *theta = nullptr, *PHI = nullptr, *THETA = nullptr, *exog = nullptr, *vcov = nullptr, *res = nullptr;
  double mean = 0, var = 0, loglik = 0, aic = 0, bic = 0, aicc = 0, sigma2 = 0, ic = 0;
  bool hasLL = false, hasAic = false, hasIC = false, hasSel = false, seas = false;
};
static void fromSarimax(View &v, sarimax_object o) {
  v.N = o->N; v.Nused = o->Nused; v.p = o->p; v.d = o->d; v.q = o->q; v.P = o->P; v.D = o->D; v.Q = o->Q; v.s = o->s; v.M = o->M; v.r = o->r; v.nc = o->ncoeff; v.lvcov = o->lvcov; v.retval = o->retval; v.method = o->method; v.imean = o->imean;
  v.phi = o->phi; v.theta = o->theta; v.PHI = o->PHI; v.THETA = o->THETA; v.exog = o->exog; v.vcov = o->vcov; v.res = o->res; v.mean = o->mean; v.var = o->var; v.loglik = o->loglik; v.aic = o->aic; v.hasLL = true; v.hasAic = o->method != 2; v.seas = true;
}
static bool isModel(int k) { return k >= SK_ARIMA && k <= SK_AA; }
static bool view(Slot &s, View &v) {
  switch (s.kind) {
  case SK_ARIMA: { auto o = (arima_object)s.obj; v.N = o->N; v.Nused = o->Nused; v.p = o->p; v.d = o->d; v.q = o->q; v.M = o->M; v.nc = o->ncoeff; v.lvcov = o->lvcov; v.retval = o->retval; v.method = o->method; v.phi = o->phi; v.theta = o->theta; v.vcov = o->vcov; v.res = o->res; v.mean = o->mean; v.var = o->var; v.loglik = o->loglik; v.aic = o->aic; v.hasLL = o->method != 2; v.hasAic = o->method == 0; return true; }
  case SK_SARIMA: { auto o = (sarima_object)s.obj; v.N = o->N; v.Nused = o->Nused; v.p = o->p; v.d = o->d; v.q = o->q; v.P = o->P; v.D = o->D; v.Q = o->Q; v.s = o->s; v.M = o->M; v.nc = o->ncoeff; v.lvcov = o->lvcov; v.retval = o->retval; v.method = o->method; v.phi = o->phi; v.theta = o->theta; v.PHI = o->PHI; v.THETA = o->THETA; v.vcov = o->vcov; v.res = o->res; v.mean = o->mean; v.var = o->var; v.loglik = o->loglik; v.aic = o->aic; v.hasLL = o->method != 2; v.hasAic = o->method == 0; v.seas = true; return true; }
  case SK_SARIMAX: fromSarimax(v, (sarimax_object)s.obj); return true;
  case SK_AR: { auto o = (ar_object)s.obj; v.N = v.Nused = o->N; v.p = o->p; v.M = 1; v.retval = o->retval; v.method = o->method; v.phi = o->phi; v.res = o->res; v.mean = o->mean; v.var = o->var; v.aic = o->aic; v.hasAic = o->method == 2; return true; }
  case SK_AUTO: { auto o = (auto_arima_object)s.obj; v.N = o->N; v.Nused = o->Nused; v.p = o->p; v.d = o->d; v.q = o->q; v.P = o->P; v.D = o->D; v.Q = o->Q; v.s = o->s; v.M = o->M; v.r = o->r; v.nc = o->ncoeff; v.lvcov = o->lvcov; v.retval = o->retval; v.method = o->method; v.drift = o->drift; v.imean = o->imean;
    v.phi = o->phi; v.theta = o->theta; v.PHI = o->PHI; v.THETA = o->THETA; v.exog = o->exog; v.vcov = o->vcov; v.res = o->res; v.mean = o->mean; v.var = o->var; v.loglik = o->loglik; v.aic = o->aic; v.bic = o->bic; v.aicc = o->aicc; v.sigma2 = o->sigma2; v.ic = o->ic; v.hasSel = v.hasLL = v.hasIC = true; v.hasAic = o->method != 2; v.seas = true; return true; }
  case SK_WRAP: { auto o = (sarimax_wrapper_object)s.obj; fromSarimax(v, o->sarimax); v.drift = o->idrift == 1; v.aic = o->aic; v.bic = o->bic; v.aicc = o->aicc; v.sigma2 = o->sigma2; v.hasIC = true; return true; }
  case SK_MYARIMA: { auto o = (myarima_object)s.obj; fromSarimax(v, o->sarimax); v.drift = o->idrift == 1; v.aic = o->aic; v.bic = o->bic; v.aicc = o->aicc; v.sigma2 = o->sigma2; v.ic = o->ic; v.hasSel = v.hasIC = v.retval == 1; return true; }
  case SK_AA: { auto o = (aa_ret_object)s.obj; if (o->otype == 2) { auto a = o->Arima; fromSarimax(v, a->sarimax); v.drift = a->idrift == 1; v.aic = a->aic; v.bic = a->bic; v.aicc = a->aicc; v.sigma2 = a->sigma2; } else { auto a = o->myarima; fromSarimax(v, a->sarimax); v.drift = a->idrift == 1; v.aic = a->aic; v.bic = a->bic; v.aicc = a->aicc; v.sigma2 = a->sigma2; v.ic = a->ic; v.hasSel = v.retval == 1; } v.hasIC = v.retval == 1; return true; }
  }
  return false;
}
static bool outputsValid(int retval) { return retval == 1 || retval == 4; }

static void publish(Ctx &X, Slot &s) {
  View v; if (!view(s, v)) return;
  X.digInt("retval", v.retval); X.digInt("N", v.N);
  if (s.kind == SK_REG) return;
  if (!outputsValid(v.retval)) return;   // after a reported failure the numeric outputs carry no promise
  int ord[] = {v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.M, v.Nused, v.nc, v.lvcov, v.drift}; X.digI("orders", ord, 12);
  X.dig("phi", v.phi, v.p); X.dig("theta", v.theta, v.q); if (v.seas) { X.dig("PHI", v.PHI, v.P); X.dig("THETA", v.THETA, v.Q); }
  if (v.exog) X.dig("exog", v.exog, v.M);
  X.digD("mean", v.mean); X.digD("var", v.var);
  if (v.hasLL) X.digD("loglik", v.loglik); if (v.hasAic) X.digD("aic", v.aic);
  if (v.hasIC) { X.digD("bic", v.bic); X.digD("aicc", v.aicc); X.digD("sigma2", v.sigma2); }
  if (v.hasSel) X.digD("ic", v.ic);
  if (v.vcov && v.lvcov > 0) X.dig("vcov", v.vcov, v.lvcov);
  if (v.res && v.Nused > 0) X.dig("res", v.res, v.Nused);
}
static const char *kn(Slot &s) { return slotKindName[s.kind]; }

// ---------------------------------------------------------------- reference model of the published coefficients
static bool refModel(Slot &s, const View &v, const DV &y, const DV &xreg, int L, const DV &newx, RefModel &m, DV &W, DV &add) {
  int N = v.N; std::vector<double> ar{1.0}, ma{1.0};
  std::vector<double> a{1.0}, b{1.0}, A{1.0}, B{1.0};
  for (int i = 0; i < v.p; i++) a.push_back(-v.phi[i]);
  for (int i = 0; i < v.q; i++) b.push_back(-v.theta[i]);
  if (v.P > 0) { A.assign(v.P * v.s + 1, 0.0); A[0] = 1; for (int i = 0; i < v.P; i++) A[(i + 1) * v.s] = -v.PHI[i]; }
  if (v.Q > 0) { B.assign(v.Q * v.s + 1, 0.0); B[0] = 1; for (int i = 0; i < v.Q; i++) B[(i + 1) * v.s] = -v.THETA[i]; }
  ar = polymul(a, A); ma = polymul(b, B);
  m.ar.clear(); m.ma.clear(); for (size_t i = 1; i < ar.size(); i++) m.ar.push_back(-ar[i]); for (size_t i = 1; i < ma.size(); i++) m.ma.push_back(ma[i]);
  std::vector<double> dl{1.0}, s1{1.0, -1.0}, sD(v.s > 0 ? v.s + 1 : 1, 0.0); sD[0] = 1; if (v.s > 0) sD[v.s] = -1;
  for (int i = 0; i < v.d; i++) dl = polymul(dl, s1);
  for (int i = 0; i < v.D; i++) dl = polymul(dl, sD);
  m.delta = dl;
  W = y; add.assign(L, 0.0); int k = 0;
  double mu = (v.d + v.D == 0) ? v.mean : 0.0;
  for (auto &w : W) w -= mu; for (auto &w : add) w += mu;
  if (v.drift == 1) { if (!v.exog) return false; for (int i = 0; i < N; i++) W[i] -= v.exog[0] * (i + 1); for (int i = 0; i < L; i++) add[i] += v.exog[0] * (N + i + 1); k = 1; }
  int ur = (int)s.cfg["r"];
  if (ur > 0 && v.exog) for (int j = 0; j < ur; j++) { for (int i = 0; i < N; i++) W[i] -= v.exog[j + k] * xreg[(size_t)j * N + i]; for (int i = 0; i < L; i++) add[i] += v.exog[j + k] * newx[(size_t)j * L + i]; }
  return true;
}
static bool hasBad(const DV &v) { for (double x : v) if (!std::isfinite(x)) return true; return false; }

static void checkResiduals(Slot &s, const View &v) { // residuals of the conditional and unconditional least-squares fits follow the published recursion
  bool cond = ((s.kind == SK_ARIMA || s.kind == SK_SARIMA) && v.method >= 1) || ((s.kind == SK_SARIMAX || s.kind == SK_AUTO || s.kind == SK_WRAP || s.kind == SK_MYARIMA || s.kind == SK_AA) && v.method == 2);
  if (!cond || !v.res || v.Nused < 3 || s.kind == SK_AR) return;
  RefModel m; DV W, add; if (!refModel(s, v, s.yv, s.xv, 0, DV(), m, W, add)) return;
  double my = 0; for (double t : s.yv) my = std::max(my, fabs(t));
  int D = (int)m.delta.size() - 1, n = v.N - D; if (n != v.Nused || (int)W.size() != v.N) return;
  DV w(n); double sc = 0, ss = 0; for (int t = 0; t < n; t++) { double a = 0; for (int j = 0; j <= D; j++) a += m.delta[j] * W[t + D - j]; w[t] = a; sc = std::max(sc, fabs(a)); ss += v.res[t] * v.res[t]; }
  double cs = 1; for (double a : m.ar) cs += fabs(a); for (double a : m.ma) cs += fabs(a); if (!std::isfinite(ss) || cs > 1e4 || !(ss < 1e8 * sc * sc * n)) return;
  sim_count(CN_REFCHECK);
  for (int t = (int)std::max(m.ar.size(), m.ma.size()); t < n; t++) {
    double e = w[t]; for (size_t j = 0; j < m.ar.size(); j++) e -= m.ar[j] * w[t - 1 - j]; for (size_t j = 0; j < m.ma.size(); j++) e -= m.ma[j] * v.res[t - 1 - j];
    if (!(fabs(e - v.res[t]) <= 1e-7 * (cs * sc + sqrt(ss)) + 1e-13 * cs * my)) { event("C08", "residual-recursion", "%s (%d,%d,%d)(%d,%d,%d)%d method %d: residual %d is %.12g, the published coefficients and mean give %.12g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.method, t, v.res[t], e); return; }
  }
}
static void checkFit(Ctx &X, Slot &s) {
  View v; if (!view(s, v)) return;
  if (X.env->flags & EF_NO_ORACLE) return;
  bool badData = hasBad(s.yv) || hasBad(s.xv);
  bool fin = finiteAll(v.phi, v.p) && finiteAll(v.theta, v.q) && std::isfinite(v.mean) && std::isfinite(v.var) && (!v.seas || (finiteAll(v.PHI, v.P) && finiteAll(v.THETA, v.Q))) && (!v.exog || finiteAll(v.exog, v.M)) && (!v.hasLL || std::isfinite(v.loglik));
  if (badData) { if (v.retval == 1 && fin) event("C15", "nonfinite-data-clean-success", "%s fit on a series containing NaN or infinity reports success with finite results", kn(s)); return; }
  if (v.retval != 1) return;
  double mx = 0; for (double y : s.yv) mx = std::max(mx, fabs(y)); for (double y : s.xv) mx = std::max(mx, fabs(y));
  if (mx > 1e12) return; // squares leave the range where the identities are meaningful
  sim_count(CN_REFCHECK);
  if (!fin && v.var == 0 && v.hasLL && v.loglik == INFINITY && finiteAll(v.phi, v.p) && finiteAll(v.theta, v.q) && std::isfinite(v.mean) && (!v.seas || (finiteAll(v.PHI, v.P) && finiteAll(v.THETA, v.Q))) && (!v.exog || finiteAll(v.exog, v.M))) return; // the data are reproduced exactly: their likelihood is infinite
  if (!fin) { event("C08", "success-nonfinite", "%s method %d reports success with non-finite coefficients, variance or log-likelihood", kn(s), v.method); return; }
  auto close = [](double a, double b, double rel, double abs_) { return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + abs_; };
  int nco = v.p + v.q + v.P + v.Q + v.M;
  if (s.kind != SK_AR && (v.nc != nco || v.lvcov != nco * nco)) event("C08", "counts", "%s publishes %d coefficients and %d covariances, orders imply %d and %d", kn(s), v.nc, v.lvcov, nco, nco * nco);
  if (s.kind != SK_AR && v.Nused != v.N - v.d - v.s * v.D) event("C08", "nused", "%s Nused %d is not N-d-s*D", kn(s), v.Nused);
  if (v.hasAic && v.hasLL && !(s.kind == SK_MYARIMA && s.cfg["approx"])) { double want = -2 * v.loglik + 2.0 * nco + 2.0; if (!close(v.aic, want, 1e-9, 1e-9)) event("C08", "aic", "%s method %d: aic %.17g, log-likelihood and parameter count give %.17g", kn(s), v.method, v.aic, want); }
  if (v.hasIC) {
    int n1 = nco + 1; double wb = v.aic + n1 * (log((double)v.Nused) - 2.0), wc = v.aic + 2.0 * n1 * (n1 + 1) / (double)(v.Nused - n1 - 1);
    if (!close(v.bic, wb, 1e-9, 1e-9)) event("C08", "bic", "%s: bic %.17g, aic, parameter count and sample size give %.17g", kn(s), v.bic, wb);
    if (v.Nused - n1 - 1 > 0 && !close(v.aicc, wc, 1e-9, 1e-9)) event("C08", "aicc", "%s: aicc %.17g, aic, parameter count and sample size give %.17g", kn(s), v.aicc, wc);
    double ss = 0; for (int i = 0; i < v.Nused; i++) ss += v.res[i] * v.res[i]; ss /= (double)(v.Nused - n1 + 1);
    if (v.Nused - n1 + 1 > 0 && !close(v.sigma2, ss, 1e-9, 1e-300)) event("C08", "sigma2", "%s: sigma2 %.17g, residuals give %.17g", kn(s), v.sigma2, ss);
  }
  if (v.var < 0) event("C08", "negative-variance", "%s: variance %.17g", kn(s), v.var);
  checkResiduals(s, v);
  // the residuals, variance and sample size
  if (v.res && s.kind != SK_AR && v.Nused > 0) {
    double ss = 0; bool rf = finiteAll(v.res, v.Nused); for (int i = 0; i < v.Nused; i++) ss += v.res[i] * v.res[i];
    if (!rf) event("C08", "residuals-nonfinite", "%s method %d reports success with non-finite residuals", kn(s), v.method);
    else X.digD("ssres", ss);
    double lo = ss / v.Nused * 0.98, hi = ss / std::max(1, v.Nused - nco - 1 - (v.p + v.s * v.P)) * 1.02;
    bool bj = (s.kind == SK_ARIMA || s.kind == SK_SARIMA) && v.method == 2; // Box-Jenkins: the sum of squares also contains the back-forecast residuals
    if (rf && !(v.var >= lo - 1e-300 && (bj || v.var <= hi + 1e-300))) event("C08", "variance-residuals", "%s method %d: variance %.10g, sum of squared residuals %.10g over %d observations", kn(s), v.method, v.var, ss, v.Nused);
  }
  if (v.vcov && v.lvcov > 0) {
    int n = nco; double md = 0; for (int i = 0; i < n * n; i++) if (std::isfinite(v.vcov[i])) md = std::max(md, fabs(v.vcov[i]));
    double mn = md; for (int i = 0; i < n; i++) mn = std::isfinite(v.vcov[i * n + i]) ? std::min(mn, fabs(v.vcov[i * n + i])) : 0; // a singular Hessian has no covariance
    if (mn > 1e-8 * md) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double a = v.vcov[i * n + j], b = v.vcov[j * n + i]; if (std::isfinite(a) != std::isfinite(b) || (std::isfinite(a) && fabs(a - b) > 1e-5 * md + 1e-300)) { event("C08", "vcov-asymmetric", "%s method %d: covariance (%d,%d) %.12g but (%d,%d) %.12g", kn(s), v.method, i, j, a, j, i, b); i = n; break; } }
  }
}

static uint64_t xregSeed(Ctx &X) { return (uint64_t)X.A("xs", 0, 99999, 7); }
static DV makeX(int n, int r, uint64_t xs, int from = 0) { // column-major n x r; deterministic extension past the sample
  DV x((size_t)n * r); for (int j = 0; j < r; j++) { Rng g(xs * 17 + j + 5); double a = g.u() * 2, ph = g.u() * 6; uint64_t key = g.next(); for (int i = 0; i < n; i++) { Rng h(key + (uint64_t)(i + from) * 7919); x[(size_t)j * n + i] = a * sin(0.37 * (i + from) * (j + 1) + ph) + 0.7 * h.gauss() + 0.01 * j * (i + from); } } return x;
}

// ---------------------------------------------------------------- constructors
static Slot &slotOf(Ctx &X) { return X.st->s[X.A("slot", 0, NSLOT - 1, 0)]; }
static void readyNew(Ctx &X, Slot &s, int kind) { slotFree(X, s); s = Slot(); s.kind = kind; }
OPW(m_new, T_OBJ, 0) { // kind: which model object
  Slot &s = slotOf(X); int k = X.A("kind", 0, 4, 0);
  int big = X.A("big", 0, 1, 0);
  int n = X.A("n", 30, big ? 140 : 90, 50), p = X.A("p", 0, big ? 5 : 3, 1), d = X.A("d", 0, 2, 0), q = X.A("q", 0, big ? 4 : 2, 1), P = 0, D = 0, Q = 0, sp = 0, r = 0, im = 1;
  if (k == 1 || k == 2) { sp = X.A("s", 2, 12, 4); P = X.A("P", 0, 2, 0); D = X.A("D", 0, 1, 0); Q = X.A("Q", 0, 1, 1); if (X.A("nonseas", 0, 3, 1) == 0) P = D = Q = 0; if (d + D > 2) d = 1; int lim = X.A("wide", 0, 15, 0) == 1 ? 13 : 8; while (P && p + sp * P > lim) P--; while (Q && q + sp * Q + 1 > lim) Q--; int need = 3 * sp * (P + D + Q + 1) + 14; if (n < need) n = need; if (n > 160) n = 160; }
  if (k == 2) { r = X.A("r", 0, 3, 0); im = X.A("imean", 0, 1, 1); }
  readyNew(X, s, SK_NONE);
  if (k == 0) { s.obj = ::arima_init(p, d, q, n); s.kind = SK_ARIMA; }
  else if (k == 1) { s.obj = ::sarima_init(p, d, q, sp, P, D, Q, n); s.kind = SK_SARIMA; }
  else if (k == 2) { s.obj = ::sarimax_init(p, d, q, P, D, Q, sp, r, im, n); s.kind = SK_SARIMAX; }
  else if (k == 3) { int am = X.A("armethod", 0, 2, 0); if (am == 2 && n > 60) n = 40 + n / 8; s.obj = ::ar_init(am, n); s.kind = SK_AR; }
  else {
    int nul = X.A("nul", 0, 2, 1), pq[3] = {X.A("pmax", 0, 3, 2), X.A("dmax", 0, 2, 1), X.A("qmax", 0, 3, 2)}, PQ[3] = {X.A("Pmax", 0, 1, 1), X.A("Dmax", 0, 1, 1), X.A("Qmax", 0, 1, 1)};
    if (X.has("Px")) { PQ[0] = 2; s.cfg["Px"] = 1; }
    long wk = X.has("walk") ? X.A("walk", 0, 15, 0) : -1; if (wk >= 0) { pq[0] = wk & 1; pq[2] = wk >> 1 & 1; PQ[0] = PQ[2] = 2; nul = 2; }
    sp = X.A("s", 1, 6, 4); r = X.A("r", 0, 2, 0); if (wk >= 0) { sp = 3 + (wk >> 2 & 1); if (wk & 8) r = 0; } if (nul == 0 && sp > 3) sp -= 3; n = std::max(n, 8 * sp + 20); if (n > 76) n = 76;
    s.obj = ::auto_arima_init(nul == 0 ? nullptr : pq, nul == 0 ? nullptr : PQ, sp, r, n); s.kind = SK_AUTO;
    s.cfg["pmax"] = nul ? pq[0] : 5; s.cfg["dmax"] = nul ? pq[1] : 2; s.cfg["qmax"] = nul ? pq[2] : 5; s.cfg["Pmax"] = nul ? PQ[0] : 2; s.cfg["Dmax"] = nul ? PQ[1] : 1; s.cfg["Qmax"] = nul ? PQ[2] : 2;
    s.cfg["stationary"] = 0; s.cfg["seasonal"] = 1; s.cfg["imean"] = 1; s.cfg["idrift"] = 1; s.cfg["approx"] = 0; s.cfg["stepwise"] = 1; s.cfg["ordermax"] = 5; s.cfg["nmodels"] = 94;
  }
  s.cfg["n"] = n; s.cfg["r"] = r; s.cfg["s"] = sp; s.cfg["d"] = d; s.cfg["D"] = D; s.cfg["P"] = P; s.cfg["Q"] = Q; s.cfg["p"] = p; s.cfg["q"] = q;
  if (!s.obj) { s.kind = SK_NONE; X.status(0, 0); return; }
  X.status(1, 1);
  View v; view(s, v); int o[] = {v.N, v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.M, v.r}; X.digI("cfg", o, 10);
}

// ---------------------------------------------------------------- setters
// what: 0 method 1 optimiser 2 cssml 3 approximation 4 stepwise 5 stationary 6 seasonal 7 stationarity test 8 seasonal test 9 mean 10 drift 11 verbose
OPW(m_set, T_OBJ, 0) {
  Slot &s = slotOf(X); if (!isModel(s.kind) || s.kind > SK_AUTO || s.kind == SK_AR) { X.skipped = true; return; }
  int w = X.A("what", 0, 11, 0); bool bad = X.has("bad"); long val;
  static const long bv[] = {-1, 3, 8, 99, -7, INT_MIN, INT_MAX, 1000000, 9, -2, 17, 256};
  if (s.kind == SK_SARIMAX && w == 2) w = 1; if (s.kind != SK_AUTO && w > 2) w %= (s.kind == SK_SARIMAX ? 2 : 3);
  if (bad) { val = bv[X.A("val", 0, 11, 0)]; if (w == 1 && val == 3) val = 8; if (w == 1 && val >= 0 && val <= 7) val = 77; if (w >= 2 && (val == 0 || val == 1)) val = 5; if (w == 2 && s.kind == SK_AUTO) { w = 3; } sim_count(CN_BADSET); }
  else val = X.A("val", 0, w == 0 ? 2 : w == 1 ? 7 : w == 7 ? 11 : w == 8 ? 3 : 1, 0);
  size_t osz = s.kind == SK_ARIMA ? sizeof(*(arima_object)0) : s.kind == SK_SARIMA ? sizeof(*(sarima_object)0) : s.kind == SK_SARIMAX ? sizeof(*(sarimax_object)0) : sizeof(*(auto_arima_object)0);
  std::string was; if (bad) was.assign((const char *)s.obj, osz);
  int v = (int)val, got = v; bool check = !bad;
  static const char *T[] = {"kpss", "pp", "df", "adf"}, *L[] = {"level", "trend"}, *S[] = {"seas", "ocsb"};
  switch (s.kind) {
  case SK_ARIMA: { auto o = (arima_object)s.obj; if (w == 0) { ::arima_setMethod(o, v); got = o->method; } else if (w == 1) { ::arima_setOptMethod(o, v); got = o->optmethod; } else { ::arima_setCSSML(o, v); got = o->cssml; } break; }
  case SK_SARIMA: { auto o = (sarima_object)s.obj; if (w == 0) { ::sarima_setMethod(o, v); got = o->method; } else if (w == 1) { ::sarima_setOptMethod(o, v); got = o->optmethod; } else { ::sarima_setCSSML(o, v); got = o->cssml; } break; }
  case SK_SARIMAX: { auto o = (sarimax_object)s.obj; if (w == 0) { ::sarimax_setMethod(o, v); got = o->method; } else { ::sarimax_setOptMethod(o, v); got = o->optmethod; } break; }
  case SK_AUTO: { auto o = (auto_arima_object)s.obj;
    switch (w) {
    case 0: ::auto_arima_setMethod(o, v); got = o->method; break;
    case 1: ::auto_arima_setOptMethod(o, v); got = o->optmethod; break;
    case 2: case 3: ::auto_arima_setApproximation(o, v); got = o->approximation; if (!bad) s.cfg["approx"] = v; break;
    case 4: ::auto_arima_setStepwise(o, v); got = o->stepwise; if (!bad) s.cfg["stepwise"] = v; break;
    case 5: ::auto_arima_setStationary(o, v); got = o->stationary; if (!bad) s.cfg["stationary"] = v; break;
    case 6: ::auto_arima_setSeasonal(o, v); got = o->seasonal; if (!bad) s.cfg["seasonal"] = v; break;
    case 7: if (bad) { const char *bt[] = {"nope", "kps", ""}; bool inTest = v & 1; double keep = o->alpha_test; ::auto_arima_setStationarityParameters(o, buf_str(inTest ? bt[(unsigned)v % 3] : "pp"), 0.5, buf_str(inTest ? "level" : bt[(unsigned)v % 3])); (void)keep; }
      else { double al = v < 6 ? 0.05 : 0.1; const char *t = T[v % 3], *ty = L[(v / 3) % 2]; ::auto_arima_setStationarityParameters(o, buf_str(t), al, buf_str(ty)); if (strcmp(o->test, t) || strcmp(o->type, ty) || o->alpha_test != al) event("C16", "no-effect", "stationarity settings %s/%s not taken over", t, ty); check = false; } break;
    case 8: if (bad) ::auto_arima_setSeasonalParameters(o, buf_str("none"), 0.3); else { const char *t = S[v % 2]; double al = v < 2 ? 0.05 : 0.1; ::auto_arima_setSeasonalParameters(o, buf_str(t), al); if (strcmp(o->seas, t) || o->alpha_seas != al) event("C16", "no-effect", "seasonal test setting %s not taken over", t); check = false; } break;
    case 9: ::auto_arima_allowMean(o, v); got = o->imean; if (!bad) s.cfg["imean"] = v; break;
    case 10: ::auto_arima_allowDrift(o, v); got = o->idrift; if (!bad) s.cfg["idrift"] = v; break;
    default: ::auto_arima_setVerbose(o, v); got = o->verbose; break;
    } break; }
  }
  X.noprint = true;
  if (bad && memcmp(was.data(), s.obj, osz)) event("C16", "rejected-changes", "%s setting %d: rejected value %ld changes the object", kn(s), w, val);
  if (check && got != v) event("C16", "no-effect", "%s setting %d: value %d accepted but the object holds %d", kn(s), w, v, got);
}

// ---------------------------------------------------------------- fits
static void runFit(Ctx &X, Slot &s) {
  sim_budget(s.kind == SK_AUTO ? 20000000000ULL : 6000000000ULL, s.kind != SK_AUTO);
  switch (s.kind) {
  case SK_ARIMA: ::arima_exec((arima_object)s.obj, s.y); break;
  case SK_SARIMA: ::sarima_exec((sarima_object)s.obj, s.y); break;
  case SK_SARIMAX: ::sarimax_exec((sarimax_object)s.obj, s.y, s.xreg); break;
  case SK_AR: ::ar_exec((ar_object)s.obj, s.y); break;
  case SK_AUTO: ::auto_arima_exec((auto_arima_object)s.obj, s.y, s.xreg); break;
  }
}
static void loadData(Ctx &X, Slot &s) {
  int n = (int)s.cfg["n"], r = (int)s.cfg["r"]; int f = (int)s.cfg["s"]; if (f < 2) f = 4;
  long ds = X.A("ds", 0, 999999, 1), dk = X.A("dk", 0, 15, 0); if (X.has("sar2")) dk = 16; if (X.has("smix")) { dk = 17; ds = X.A("smix", 0, 99999, 1); }
  s.yv = makeSeries(n, ds, dk, f);
  if (X.has("ck") && !X.env->skipFaults && X.A("cx", 0, 3, 3) != 0) corruptSeries(s.yv, X.A("cp", 0, 100000, 0), X.A("ck", 0, 7, 0), X.A("cc", 1, 30, 1));
  uint64_t xs = xregSeed(X); s.cfg["xs"] = (long)xs; s.xv = makeX(n, r, xs);
  if (r > 0 && X.has("xdup")) { if (X.A("xdup", 0, 1, 0) && r > 1) for (int i = 0; i < n; i++) s.xv[n + i] = 2 * s.xv[i]; else for (int i = 0; i < n; i++) s.xv[i] = 4.0; }
  if (r > 0 && X.has("ck") && !X.env->skipFaults && X.A("cx", 0, 3, 3) == 0) corruptSeries(s.xv, X.A("cp", 0, 100000, 0), X.A("ck", 0, 7, 0), X.A("cc", 1, 30, 1));
  for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) if (std::isfinite(s.yv[i]) && fabs(s.yv[i]) < 1e5 && std::isfinite(s.xv[(size_t)j * n + i]) && fabs(s.xv[(size_t)j * n + i]) < 100) s.yv[i] += (j == 0 ? 1.5 : -0.8) * s.xv[(size_t)j * n + i];
  buf_keep(s.y, false); buf_keep(s.xreg, false); s.y = IN(s.yv); s.xreg = r > 0 ? IN(s.xv) : nullptr; buf_keep(s.y); buf_keep(s.xreg); s.fc.clear(); s.fa.clear();
}
// what a constructor and the setters said about an object: a fit leaves it alone
static std::string configText(Slot &s) {
  char b[400]; b[0] = 0;
  switch (s.kind) {
  case SK_ARIMA: { auto o = (arima_object)s.obj; snprintf(b, sizeof b, "N=%d p=%d d=%d q=%d method=%d optmethod=%d cssml=%d", o->N, o->p, o->d, o->q, o->method, o->optmethod, o->cssml); } break;
  case SK_SARIMA: { auto o = (sarima_object)s.obj; snprintf(b, sizeof b, "N=%d p=%d d=%d q=%d s=%d P=%d D=%d Q=%d method=%d optmethod=%d cssml=%d", o->N, o->p, o->d, o->q, o->s, o->P, o->D, o->Q, o->method, o->optmethod, o->cssml); } break;
  case SK_SARIMAX: { auto o = (sarimax_object)s.obj; snprintf(b, sizeof b, "N=%d p=%d d=%d q=%d s=%d P=%d D=%d Q=%d r=%d method=%d optmethod=%d imean=%d", o->N, o->p, o->d, o->q, o->s, o->P, o->D, o->Q, o->r, o->method, o->optmethod, o->imean); } break;
  case SK_AR: { auto o = (ar_object)s.obj; snprintf(b, sizeof b, "N=%d method=%d optmethod=%d ordermax=%d", o->N, o->method, o->optmethod, o->ordermax); } break;
  case SK_AUTO: { auto o = (auto_arima_object)s.obj; snprintf(b, sizeof b, "N=%d s=%d r=%d pmax=%d dmax=%d qmax=%d Pmax=%d Dmax=%d Qmax=%d method=%d optmethod=%d imean=%d idrift=%d stationary=%d seasonal=%d Order_max=%d start=%d,%d,%d,%d ic=%.9s stepwise=%d num_models=%d approximation=%d verbose=%d test=%.9s type=%.9s seas=%.9s alpha=%g,%g", o->N, o->s, o->r, o->pmax, o->dmax, o->qmax, o->Pmax, o->Dmax, o->Qmax, o->method, o->optmethod, o->imean, o->idrift, o->stationary, o->seasonal, o->Order_max, o->p_start, o->q_start, o->P_start, o->Q_start, o->information_criteria, o->stepwise, o->num_models, o->approximation, o->verbose, o->test, o->type, o->seas, o->alpha_test, o->alpha_seas); } break;
  case SK_REG: { auto o = (reg_object)s.obj; snprintf(b, sizeof b, "N=%d p=%d lls=%.9s intercept=%d", o->N, o->p, o->lls, o->intercept); } break;
  }
  return b;
}
static void configCheck(Slot &s, const std::string &before) { std::string a = configText(s); if (a != before) event("C02", "config", "a fit of %s changed its configuration from [%s] to [%s]", kn(s), before.c_str(), a.c_str()); }
static void checkAuto(Ctx &X, Slot &s);
static void fitDone(Ctx &X, Slot &s) {
  View v; view(s, v); s.fitted = true; s.fitok = v.retval == 1;
  sim_count(v.retval == 1 ? CN_FITOK : CN_FITFAIL);
  X.status(v.retval, v.retval == 1 ? 1 : 0);
  publish(X, s); checkFit(X, s); if (s.kind == SK_AUTO || s.kind == SK_AA) checkAuto(X, s);
}
OPW(m_fit, T_OBJ, 0) {
  Slot &s = slotOf(X); if (!isModel(s.kind) || s.kind > SK_AUTO) { X.skipped = true; return; }
  loadData(X, s); s.fitted = s.fitok = false; std::string cf = configText(s); runFit(X, s); configCheck(s, cf); X.noprint = s.kind == SK_AUTO; fitDone(X, s);
}
OPW(m_wrap, T_OBJ | T_STATUS | T_DATA, 8) { // sarimax_wrapper / myarima / auto_arima1: construct and fit in one call
  Slot &s = slotOf(X); int w = X.A("which", 0, 2, 0); int sp = X.A("s", 2, 6, 4), o[3] = {X.A("p", 0, 2, 1), X.A("d", 0, 2, 0), X.A("q", 0, 2, 1)}, se[4] = {X.A("P", 0, 1, 0), X.A("D", 0, 1, 0), X.A("Q", 0, 1, 0), sp};
  int n = X.A("n", 40, 80, 50), r = X.A("r", 0, 2, 0), nos = X.A("nos", 0, 1, 0); if (nos) se[0] = se[1] = se[2] = 0; if (n < 8 * sp + 20) n = 8 * sp + 20;
  if (o[1] + se[1] > 2) o[1] = 1;
  readyNew(X, s, SK_NONE); s.cfg["n"] = n; s.cfg["r"] = r; s.cfg["s"] = sp; loadData(X, s);
  sim_budget(w == 2 ? 20000000000ULL : 6000000000ULL, w != 2);
  if (w == 0) { int dr = X.A("drift", 0, 1, 0), mn = X.A("mean", 0, 1, 1); s.obj = ::sarimax_wrapper(nullptr, s.y, n, buf_in_int(o, 3), nos ? nullptr : buf_in_int(se, 4), s.xreg, r, dr, mn, nullptr, 0, 0); s.kind = SK_WRAP; }
  else if (w == 1) { int c = X.A("const", 0, 1, 1), ap = X.A("approx", 0, 1, 0), m = X.A("meth", 0, 2, 0), mn = X.A("mnul", 0, 1, 1); static const char *ic[] = {"aic", "bic", "aicc"}; if (!mn) ap = m == 2; s.cfg["approx"] = ap;
    s.obj = ::myarima(s.y, n, buf_in_int(o, 3), nos ? nullptr : buf_in_int(se, 4), c, buf_str(ic[X.A("ic", 0, 2, 0)]), 0, ap, 0.0, s.xreg, r, mn ? nullptr : &m); s.kind = SK_MYARIMA; s.cfg["const"] = c; }
  else {
    int om[3] = {X.A("pmax", 0, 2, 2), X.A("dmax", 0, 2, 1), X.A("qmax", 0, 2, 2)}, sm[3] = {X.A("Pmax", 0, 1, 1), X.A("Dmax", 0, 1, 1), X.A("Qmax", 0, 1, 1)}, st[4] = {X.A("p0", 0, 2, 1), X.A("q0", 0, 2, 1), X.A("P0", 0, 1, 0), X.A("Q0", 0, 1, 0)}, stat = X.A("stat", 0, 1, 0), sea = X.A("seas", 0, 1, 1), stw = X.A("stw", 0, 1, 1), nm = 94, ap = X.A("approx", 0, 1, 0), me = 0, mc = X.A("maxc", 1, 5, 5), ad = X.A("ad", 0, 1, 1), am = X.A("am", 0, 1, 1); double ta = 0.05, sa = 0.05;
    int nul = X.A("nul", 0, 1, 0);
    s.obj = nul ? ::auto_arima1(s.y, n, buf_in_int(om, 3), buf_in_int(sm, 3), nullptr, sp, nullptr, nullptr, nullptr, nullptr, nullptr, "aicc", nullptr, nullptr, nullptr, nullptr, s.xreg, r, "kpss", "level", nullptr, "seas", nullptr, nullptr, nullptr, 0, nullptr)
      : ::auto_arima1(s.y, n, buf_in_int(om, 3), buf_in_int(sm, 3), &mc, sp, nullptr, nullptr, st, &stat, &sea, "aicc", &stw, &nm, &ap, &me, s.xreg, r, "kpss", "level", &ta, "seas", &sa, &ad, &am, 0, nullptr);
    s.kind = SK_AA; s.cfg["pmax"] = om[0]; s.cfg["dmax"] = om[1]; s.cfg["qmax"] = om[2]; s.cfg["Pmax"] = sm[0]; s.cfg["Dmax"] = sm[1]; s.cfg["Qmax"] = sm[2]; s.cfg["stationary"] = nul ? 0 : stat; s.cfg["seasonal"] = nul ? 1 : sea; s.cfg["imean"] = nul ? 1 : am; s.cfg["idrift"] = nul ? 0 : ad; s.cfg["ordermax"] = nul ? 5 : mc; s.cfg["approx"] = nul ? 0 : ap; s.cfg["stepwise"] = nul ? 1 : stw; s.cfg["nmodels"] = 94;
  }
  if (!s.obj) { s.kind = SK_NONE; X.status(0, 0); return; }
  X.noprint = true; fitDone(X, s);
}
static void checkAuto(Ctx &X, Slot &s) {
  if ((X.env->flags & EF_NO_ORACLE)) return;
  View v; view(s, v); auto c = [&](const char *k) { return (int)s.cfg[k]; };
  if (v.retval != 1 && v.retval != 4) return;
  bool seasonalOn = c("seasonal") && c("s") > 1;
  if (v.p > c("pmax") || v.q > c("qmax") || v.d > c("dmax")) event("C17", "order-limit", "%s selected (p,d,q)=(%d,%d,%d) beyond the limits (%d,%d,%d)", kn(s), v.p, v.d, v.q, c("pmax"), c("dmax"), c("qmax"));
  if (v.P > c("Pmax") || v.Q > c("Qmax") || v.D > c("Dmax")) event("C17", "seasonal-limit", "%s selected (P,D,Q)=(%d,%d,%d) beyond the limits (%d,%d,%d)", kn(s), v.P, v.D, v.Q, c("Pmax"), c("Dmax"), c("Qmax"));
  if (!seasonalOn && v.P + v.D + v.Q > 0) event("C17", "seasonal-off", "%s selected seasonal orders (%d,%d,%d) with seasonal models switched off or period %d", kn(s), v.P, v.D, v.Q, c("s"));
  if (c("stationary") && v.d + v.D > 0) event("C17", "stationary-only", "%s selected differencing d=%d D=%d although restricted to stationary models", kn(s), v.d, v.D);
  if (!c("stepwise") && v.p + v.q + v.P + v.Q > c("ordermax")) event("C17", "order-total", "%s selected p+q+P+Q=%d+%d+%d+%d in a search over all models with at most %d coefficients", kn(s), v.p, v.q, v.P, v.Q, c("ordermax"));
  if (v.p < 0 || v.q < 0 || v.P < 0 || v.Q < 0 || v.d < 0 || v.D < 0) event("C17", "negative-order", "%s selected a negative order", kn(s));
  int ur = c("r"), extra = v.M - ur;
  if (extra < 0 || extra > 1) event("C17", "regressor-count", "%s publishes %d regression terms for %d regressors", kn(s), v.M, ur);
  if (!c("imean") && v.d + v.D == 0 && extra != 0) event("C17", "mean-disallowed", "%s returned a mean term although a mean is disallowed", kn(s));
  if (!c("imean") && v.d + v.D == 0 && v.mean != 0) event("C17", "mean-disallowed", "%s returned mean %g although a mean is disallowed", kn(s), v.mean);
  if (!c("idrift") && v.d + v.D == 1 && extra != 0) event("C17", "drift-disallowed", "%s returned a drift term although drift is disallowed", kn(s));
  if (v.d + v.D > 1 && extra != 0) event("C17", "drift-order", "%s returned a drift term with %d differences", kn(s), v.d + v.D);
  if (v.Nused != v.N - v.d - v.s * v.D) event("C17", "nused", "%s publishes Nused %d", kn(s), v.Nused);
  sim_count(CN_REFCHECK);
  if (v.retval == 1 && v.hasSel && v.N > 3 && v.ic != DBL_MAX && v.ic != v.aicc) event("C17", "criterion-value", "%s publishes %.17g as the criterion it selected by, the AICc it publishes is %.17g", kn(s), v.ic, v.aicc);
}
// One other model the search had to consider, fitted on its own: exhaustive search without the approximation promises that
// none is better, the stepwise search (not stopped by its model limit) that no neighbour of the selected model is better.
OPW(m_better, T_OBJ, 0) {
  Slot &s = slotOf(X); if ((s.kind != SK_AUTO && s.kind != SK_AA) || !s.fitok || (X.env->flags & EF_NO_ORACLE)) { X.skipped = true; return; }
  View v; view(s, v); auto c = [&](const char *k) { return (int)s.cfg[k]; };
  int N = v.N, r = c("r"), per = c("s"), m = c("seasonal") && per > 1 ? per : 1, n3 = N / 3, n3m = n3 / m, extra = v.M - r;
  if (c("approx") || extra < 0 || extra > 1) { X.skipped = true; return; }
  for (double t : s.yv) if (!std::isfinite(t)) { X.skipped = true; return; }
  for (double t : s.xv) if (!std::isfinite(t)) { X.skipped = true; return; }
  { DV t = s.yv; for (int i = 0; i < v.D; i++) { for (size_t k = t.size() - 1; k >= (size_t)per; k--) t[k] -= t[k - per]; t.erase(t.begin(), t.begin() + per); } for (int i = 0; i < v.d; i++) { for (size_t k = t.size() - 1; k >= 1; k--) t[k] -= t[k - 1]; t.erase(t.begin()); }
    double mx = 0, my = 0; for (double a : t) { mx = std::max(mx, fabs(a - t[0])); my = std::max(my, fabs(a)); } if (mx <= 1e-7 * my) { X.skipped = true; return; } }
  int pm = std::min(c("pmax"), n3), qm = std::min(c("qmax"), n3), Pm = m > 1 ? std::min(c("Pmax"), n3m) : 0, Qm = m > 1 ? std::min(c("Qmax"), n3m) : 0;
  if (m > 1) { if (Pm > 0) pm = std::min(pm, m - 1); if (Qm > 0) qm = std::min(qm, m - 1); }
  int maxK = (c("idrift") && v.d + v.D == 1) || (c("imean") && v.d + v.D == 0); bool step = c("stepwise");
  if (extra > maxK) { X.skipped = true; return; }
  struct Cd { int p, q, P, Q, K; }; std::vector<Cd> cs;
  if (!step) { for (int p = 0; p <= pm; p++) for (int q = 0; q <= qm; q++) for (int P = 0; P <= Pm; P++) for (int Q = 0; Q <= Qm; Q++) if (p + q + P + Q <= c("ordermax")) for (int K = 0; K <= maxK; K++) cs.push_back({p, q, P, Q, K}); }
  else {
    if ((pm + 1) * (qm + 1) * (Pm + 1) * (Qm + 1) * (maxK + 1) + 5 > c("nmodels")) { X.skipped = true; return; }   // the limit may end the search early
    if (v.p + v.q + v.P + v.Q == 0 && maxK && !extra) { X.skipped = true; return; }                                 // the search goes on from this one with the constant kept
    auto add = [&](int p, int q, int P, int Q, int K) { if (p >= 0 && q >= 0 && P >= 0 && Q >= 0 && p <= pm && q <= qm && P <= Pm && Q <= Qm && K <= maxK) cs.push_back({p, q, P, Q, K}); };
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (a || b) { add(v.p + a, v.q + b, v.P, v.Q, extra); add(v.p, v.q, v.P + a, v.Q + b, extra); }
    add(v.p, v.q, v.P, v.Q, 1 - extra);
  }
  if (cs.empty()) { X.skipped = true; return; }
  Cd own{v.p, v.q, v.P, v.Q, extra}, cd = cs[(size_t)X.A("ci", 0, 100000, 0) % cs.size()]; int me = v.method;
  sim_budget(6000000000ULL, true);
  auto fit = [&](const Cd &k) { int o[3] = {k.p, v.d, k.q}, se[4] = {k.P, v.D, k.Q, m > 1 ? per : 0}; if (!step && !(k.P + k.Q + v.D)) se[3] = 0;
    int mm = s.kind == SK_AUTO ? me : 0; myarima_object f = ::myarima(s.y, N, buf_in_int(o, 3), buf_in_int(se, 4), k.K, "aicc", 0, 0, 0.0, s.xreg, r, mm == 0 ? nullptr : &mm); double ic = f->ic; ::myarima_free(f); return ic; };
  double a = fit(own), b = fit(cd);
  X.digD("own", a); X.digD("other", b); sim_count(CN_REFCHECK);
  if (b < a - 1e-6 * (1 + fabs(a))) event("C17", "not-best", "%s (%s search over p<=%d q<=%d P<=%d Q<=%d, total<=%d) selected (%d,%d,%d)(%d,%d,%d)[%d] constant %d with criterion %.10g; (%d,%d,%d)(%d,%d,%d)[%d] constant %d has %.10g", kn(s), step ? "stepwise" : "exhaustive", pm, qm, Pm, Qm, c("ordermax"), v.p, v.d, v.q, v.P, v.D, v.Q, per, extra, a, cd.p, v.d, cd.q, cd.P, v.D, cd.Q, per, cd.K, b);
}

// ---------------------------------------------------------------- queries
OPW(m_show, T_OBJ, 0) { Slot &s = slotOf(X); if (!isModel(s.kind) || !s.fitted) { X.skipped = true; return; } publish(X, s); }
OPW(m_vcov, T_OBJ, 0) {
  Slot &s = slotOf(X); if (!s.fitok || s.kind > SK_SARIMAX || !isModel(s.kind)) { X.skipped = true; return; }
  View v; view(s, v); double *o = OUT(v.lvcov);
  if (s.kind == SK_ARIMA) ::arima_vcov((arima_object)s.obj, o); else if (s.kind == SK_SARIMA) ::sarima_vcov((sarima_object)s.obj, o); else ::sarimax_vcov((sarimax_object)s.obj, o);
  X.dig("vcov", o, v.lvcov);
}
OPW(m_summary, T_OBJ | T_PRINT, 0) {
  Slot &s = slotOf(X); if (!isModel(s.kind) || !s.fitted) { X.skipped = true; return; }
  View v; view(s, v); if (!outputsValid(v.retval)) { X.skipped = true; return; }
  switch (s.kind) {
  case SK_ARIMA: ::arima_summary((arima_object)s.obj); break; case SK_SARIMA: ::sarima_summary((sarima_object)s.obj); break; case SK_SARIMAX: ::sarimax_summary((sarimax_object)s.obj); break; case SK_AR: ::ar_summary((ar_object)s.obj); break;
  case SK_AUTO: ::auto_arima_summary((auto_arima_object)s.obj); break; case SK_WRAP: ::sarimax_wrapper_summary((sarimax_wrapper_object)s.obj); break; case SK_MYARIMA: ::myarima_summary((myarima_object)s.obj); break; case SK_AA: ::aa_ret_summary((aa_ret_object)s.obj); break;
  }
}
OPW(m_forecast, T_OBJ, 0) {
  Slot &s = slotOf(X); if (!isModel(s.kind) || !s.fitok) { X.skipped = true; return; }
  View v; view(s, v); int L = X.A("L", 1, 24, 6), N = v.N, r = (int)s.cfg["r"]; if (X.has("Lx")) L += X.A("Lx", 0, 150, 0);
  if (s.kind == SK_MYARIMA) { X.skipped = true; return; }
  DV nx = makeX(L, r, (uint64_t)s.cfg["xs"], N); double *newx = r > 0 ? IN(nx) : nullptr, *o = OUT(L), *a = OUT(L); double *y = s.y, *xr = s.xreg;
  switch (s.kind) {
  case SK_ARIMA: ::arima_predict((arima_object)s.obj, y, L, o, a); break;
  case SK_SARIMA: ::sarima_predict((sarima_object)s.obj, y, L, o, a); break;
  case SK_SARIMAX: ::sarimax_predict((sarimax_object)s.obj, y, xr, L, newx, o, a); break;
  case SK_AR: ::ar_predict((ar_object)s.obj, y, L, o, a); break;
  case SK_AUTO: ::auto_arima_predict((auto_arima_object)s.obj, y, xr, L, newx, o, a); break;
  case SK_WRAP: ::sarimax_wrapper_predict((sarimax_wrapper_object)s.obj, y, xr, L, newx, o, a); break;
  case SK_AA: { auto ao = (aa_ret_object)s.obj; if (ao->otype == 2) ::sarimax_wrapper_predict(ao->Arima, y, xr, L, newx, o, a); else { X.skipped = true; return; } } break;
  }
  sim_count(CN_PREDICT);
  X.dig("fc", o, L); X.dig("mse", a, L);
  if (X.env->flags & EF_NO_ORACLE) return;
  // prefix property against the longest forecast seen since the fit
  size_t k = std::min(s.fc.size(), (size_t)L);
  for (size_t i = 0; i < k; i++) if (hashD(&s.fc[i], 1) != hashD(&o[i], 1) || hashD(&s.fa[i], 1) != hashD(&a[i], 1)) { event("C06", "prefix", "%s: forecast %zu of a length-%d forecast is %.17g (mse %.17g), an earlier forecast gave %.17g (mse %.17g)", kn(s), i + 1, L, o[i], a[i], s.fc[i], s.fa[i]); break; }
  if ((size_t)L > s.fc.size()) { s.fc.assign(o, o + L); s.fa.assign(a, a + L); }
  // conditional expectation under the published model
  if (hasBad(s.yv) || hasBad(s.xv)) return;
  double mx = 0; for (double t : s.yv) mx = std::max(mx, fabs(t)); if (mx > 1e9) return;
  RefModel m; DV W, add; RefOut ro;
  if (!refModel(s, v, s.yv, s.xv, L, nx, m, W, add)) return;
  if (!refForecast(m, W, L, ro)) return;
  sim_count(CN_REFCHECK);
  double spread = 0; for (double w : W) spread = std::max(spread, fabs(w)); 
  double amp = 0; for (double dd : m.delta) amp += fabs(dd); amp = m.delta.size() > 1 ? amp * (1 + L) * (1 + L) : 1;
  for (int i = 0; i < L; i++) {
    double w = ro.fc[i] + add[i], tol = 1e-6 * (fabs(w) + spread + sqrt(ro.mse[i])) + 1e-9 * amp * spread;
    if (!(fabs(w - o[i]) <= tol)) { event("C07", "forecast-mean", "%s (%d,%d,%d)(%d,%d,%d)%d r=%d method %d: forecast %d is %.12g, conditional mean %.12g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, r, v.method, i + 1, o[i], w); break; }
    double mt = 1e-5 * fabs(ro.mse[i]) + 1e-12 * amp * spread * spread;
    if (!(fabs(ro.mse[i] - a[i]) <= mt)) { event("C07", "forecast-mse", "%s (%d,%d,%d)(%d,%d,%d)%d r=%d method %d: mse of forecast %d is %.12g, conditional variance %.12g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, r, v.method, i + 1, a[i], ro.mse[i]); break; }
  }
  // the published log-likelihood is the one of the published coefficients
  bool exact = (s.kind == SK_ARIMA && v.method == 0) || (s.kind == SK_SARIMA && v.method == 0) || ((s.kind == SK_SARIMAX || s.kind == SK_WRAP || s.kind == SK_AUTO) && v.method != 2 && v.hasAic);
  if (exact && s.kind == SK_AUTO && s.cfg["approx"]) exact = false;
  if (ro.sigma2 <= 1e-16 * spread * spread) exact = false; // numerically exact fits: residuals are rounding errors
  if (exact && v.res && v.Nused == ro.n) {
    double sd = sqrt(ro.sigma2); for (int i = 0; i < ro.n; i++) if (!(fabs(ro.inn[i] - v.res[i]) <= 1e-5 * (sd + fabs(ro.inn[i])) + 1e-9 * spread)) { event("C08", "residual-innovation", "%s (%d,%d,%d)(%d,%d,%d)%d method %d: residual %d is %.12g, the standardised innovation under the published coefficients is %.12g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.method, i, v.res[i], ro.inn[i]); break; }
    if (!(fabs(v.var - ro.sigma2) <= 1e-5 * ro.sigma2)) event("C08", "variance-innovations", "%s (%d,%d,%d)(%d,%d,%d)%d method %d: innovation variance %.12g, published coefficients give %.12g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.method, v.var, ro.sigma2);
  }
  if (exact && v.hasLL && v.N == (int)W.size()) { double tol = 1e-4 + 1e-6 * fabs(ro.loglik); if (!(fabs(v.loglik - ro.loglik) <= tol)) event("C08", "loglik", "%s (%d,%d,%d)(%d,%d,%d)%d method %d: log-likelihood %.10g, published coefficients give %.10g", kn(s), v.p, v.d, v.q, v.P, v.D, v.Q, v.s, v.method, v.loglik, ro.loglik); }
}
OPW(obj_free, T_OBJ, 0) { Slot &s = slotOf(X); slotFree(X, s); s = Slot(); }
OPW(freeall, T_OBJ, 0) { for (auto &s : X.st->s) { slotFree(X, s); s = Slot(); } }

// ---------------------------------------------------------------- regression objects
OPW(r_new, T_OBJ, 0) {
  Slot &s = slotOf(X); int p = X.A("p", 1, 5, 2), n = X.A("n", p + 6, 40, 20); readyNew(X, s, SK_NONE); s.obj = ::reg_init(n, p); if (!s.obj) { X.status(0, 0); return; } s.kind = SK_REG; s.cfg["n"] = n; s.cfg["p"] = p; s.cfg["int"] = 1; X.status(1, 1);
}
OPW(r_set, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_REG) { X.skipped = true; return; } auto o = (reg_object)s.obj; int w = X.A("what", 0, 1, 0), v = X.A("val", 0, 2, 1); X.noprint = true;
  static const char *m[] = {"qr", "normal", "svd"}, *b[] = {"lu", "QR", "qrx"};
  if (X.has("bad")) { sim_count(CN_BADSET); if (w == 0) ::setIntercept(o, v == 0 ? -1 : v + 1); else ::setLLSMethod(o, buf_str(b[v])); return; }
  if (w == 0) { if (s.cfg["p"] < 2) v = 1; ::setIntercept(o, v % 2); s.cfg["int"] = v % 2; if (o->intercept != v % 2) event("C16", "no-effect", "intercept %d not taken over", v % 2); }
  else { ::setLLSMethod(o, buf_str(m[v])); if (strcmp(o->lls, m[v])) event("C16", "no-effect", "least-squares method %s not taken over", m[v]); }
}
static void regPublish(Ctx &X, Slot &s) {
  auto o = (reg_object)s.obj; for (int i = 0; i < o->p; i++) { double b[4] = {o->beta[i].value, o->beta[i].lower, o->beta[i].upper, o->beta[i].stdErr}; X.dig("beta", b, 4); }
  double v[] = {o->alpha, o->sigma, o->sigma_lower, o->sigma_upper, o->r2, o->r2adj, o->R2[0], o->R2[1], o->TSS, o->ESS, o->RSS, o->FStat, o->PVal, o->loglik, o->aic, o->bic, o->aicc}; X.dig("stats", v, 17);
  int d[] = {o->df, o->intercept, o->df_ESS, o->df_RSS, strcmp(o->lls, "qr") ? 0 : o->rank}; X.digI("df", d, 5); // the rank is documented for method "qr" only
}
OPW(r_fit, T_OBJ, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_REG) { X.skipped = true; return; } auto o = (reg_object)s.obj; int n = (int)s.cfg["n"], p = (int)s.cfg["p"], k = s.cfg["int"] ? p - 1 : p;
  int poly = X.A("poly", 0, 4, 1) == 0 && k >= 1; DV y = X.series(n), x = makeX(n, poly ? 1 : k, xregSeed(X)); if (X.has("xdup") && k > 1 && !poly) for (int i = 0; i < n; i++) x[n + i] = x[i]; if (poly) for (auto &v : x) v = (double)(int)(3 * v);
  s.yv = y; s.xv = x; s.fitted = s.fitok = false; buf_keep(s.res, false); buf_keep(s.varcovar, false); s.res = OUT(n); s.varcovar = OUT((size_t)p * p); buf_keep(s.res); buf_keep(s.varcovar);
  std::string cf = configText(s); if (poly) ::regress_poly(o, IN(x), IN(y), s.res, s.varcovar, 0.05); else ::regress(o, k > 0 ? IN(x) : nullptr, IN(y), s.res, s.varcovar, 0.05);
  configCheck(s, cf); s.fitted = s.fitok = true; regPublish(X, s); X.dig("res", s.res, n); X.dig("varcovar", s.varcovar, (size_t)p * p); X.noprint = true;
  if (X.env->flags & EF_NO_ORACLE) return;
  bool bad = hasBad(y) || hasBad(x); bool fin = std::isfinite(o->sigma); for (int i = 0; i < o->p; i++) fin = fin && std::isfinite(o->beta[i].value);
  if (bad) { if (fin && finiteAll(s.res, n) && hasBad(y)) event("C15", "nonfinite-data-clean-success", "regression on NaN or infinity publishes only finite results"); return; }
  double mx = 0; for (double t : y) mx = std::max(mx, fabs(t)); if (mx > 1e12 || !fin || (o->rank < o->p && !strcmp(o->lls, "qr")) || X.has("xdup") || poly) return;
  double ss = 0; for (int i = 0; i < n; i++) ss += s.res[i] * s.res[i]; double sy = 0; for (double t : y) sy += t * t;
  auto close = [](double a, double b, double rel, double ab) { return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + ab; };
  sim_count(CN_REFCHECK);
  if (!close(o->RSS, ss, 1e-6, 1e-9 * sy)) event("C08", "reg-rss", "regression RSS %.12g, residuals give %.12g", o->RSS, ss);
  if (!close(o->sigma * (n - p), ss, 1e-6, 1e-9 * sy)) event("C08", "reg-sigma", "regression residual variance %.12g times %d degrees of freedom is not the residual sum of squares %.12g", o->sigma, n - p, ss);
  if (ss > 1e-12 * sy) { double ll = -n / 2.0 * (log(2 * 3.141592653589793) + log(ss / n) + 1); if (!close(o->loglik, ll, 1e-8, 1e-8)) event("C08", "reg-loglik", "regression log-likelihood %.12g, residuals give %.12g", o->loglik, ll); }
  if (std::isfinite(o->loglik)) if (!close(o->aic, -2 * o->loglik + 2.0 * p, 1e-9, 1e-9) || !close(o->bic, -2 * o->loglik + log((double)n) * p, 1e-9, 1e-9)) event("C08", "reg-ic", "regression information criteria do not follow from the log-likelihood");
  for (int i = 0; i < p; i++) for (int j = 0; j < i; j++) if (!close(s.varcovar[i * p + j], s.varcovar[j * p + i], 1e-6, 1e-9 * (fabs(s.varcovar[i * p + i]) + fabs(s.varcovar[j * p + j])))) { event("C08", "reg-vcov", "regression covariance matrix is not symmetric"); i = p; break; }
}
OPW(r_query, T_OBJ | T_PRINT, 0) {
  Slot &s = slotOf(X); if (s.kind != SK_REG || !s.fitok) { X.skipped = true; return; } auto o = (reg_object)s.obj; int p = (int)s.cfg["p"];
  switch (X.A("which", 0, 4, 0)) {
  case 0: ::summary(o); break; case 1: ::anova(o); break; case 2: ::confint(o); break;
  case 3: { double *t = OUT(p), *pv = OUT(p); ::zerohyp_val(o, t, pv); X.dig("t", t, p); X.dig("pv", pv, p); } break;
  default: { if (o->intercept != 1) break; DV in = noise(p > 1 ? p - 1 : 1, 5, 1.0); double *v = OUT(2); double f = ::fitted(o, IN(in), buf_in(s.varcovar, (size_t)p * p), v); X.digD("fit", f); X.dig("var", v, 2); }
  }
}
OPW(r_show, T_OBJ, 0) { Slot &s = slotOf(X); if (s.kind != SK_REG || !s.fitok) { X.skipped = true; return; } regPublish(X, s); X.dig("res", s.res, s.cfg["n"]); }
