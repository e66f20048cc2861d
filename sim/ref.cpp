#include "ref.h"
#include <math.h>
typedef long double LD;
typedef std::vector<LD> LV;
std::vector<double> polymul(const std::vector<double> &a, const std::vector<double> &b) {
  std::vector<double> c(a.size() + b.size() - 1, 0.0);
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j];
  return c;
}
static bool solve(LV &A, LV &b, int n) { // Gaussian elimination with partial pivoting
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (fabsl(A[i * n + k]) > fabsl(A[p * n + k])) p = i;
    if (!(fabsl(A[p * n + k]) > 1e-12L)) return false;
    if (p != k) { for (int j = 0; j < n; j++) std::swap(A[p * n + j], A[k * n + j]); std::swap(b[p], b[k]); }
    for (int i = k + 1; i < n; i++) { LD f = A[i * n + k] / A[k * n + k]; if (f == 0) continue; for (int j = k; j < n; j++) A[i * n + j] -= f * A[k * n + j]; b[i] -= f * b[k]; }
  }
  for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) b[i] -= A[i * n + j] * b[j]; b[i] /= A[i * n + i]; }
  return true;
}
static bool stationary(const std::vector<double> &ar) { // step-down recursion, margin kept from the unit circle
  LV a(ar.begin(), ar.end());
  for (int k = (int)a.size(); k > 0; k--) {
    LD r = a[k - 1]; if (!(fabsl(r) < 0.995L)) return false;
    LV b(a); LD d = 1 - r * r; for (int j = 0; j < k - 1; j++) b[j] = (a[j] + r * a[k - 2 - j]) / d; a = b;
  }
  return true;
}
bool refForecast(const RefModel &m, const std::vector<double> &y, int L, RefOut &o) {
  for (double v : m.ar) if (!std::isfinite(v)) return false;
  for (double v : m.ma) if (!std::isfinite(v) || fabs(v) > 1e3) return false;
  for (double v : y) if (!std::isfinite(v)) return false;
  if (!stationary(m.ar)) return false;
  int D = (int)m.delta.size() - 1, N = (int)y.size(), n = N - D, p = (int)m.ar.size(), q = (int)m.ma.size();
  if (n < 2) return false;
  LV w(n + L); LD scale = 0;
  for (int t = 0; t < n; t++) { LD s = 0; for (int j = 0; j <= D; j++) s += (LD)m.delta[j] * y[t + D - j]; w[t] = s; scale += s * s; }
  if (!(scale > 0)) return false;
  // autocovariances with unit innovation variance
  LV psi(q + 1, 0.0L); psi[0] = 1;
  for (int j = 1; j <= q; j++) { psi[j] = m.ma[j - 1]; for (int k = 1; k <= p && k <= j; k++) psi[j] += m.ar[k - 1] * psi[j - k]; }
  auto rhs = [&](int k) { LD s = 0; for (int j = k; j <= q; j++) s += (j == 0 ? 1.0L : (LD)m.ma[j - 1]) * psi[j - k]; return s; };
  int M = n + L; LV g(M + 1, 0.0L);
  { int k = p + 1; LV A(k * k, 0.0L), b(k);
    for (int i = 0; i < k; i++) { b[i] = rhs(i); A[i * k + i] += 1; for (int j = 1; j <= p; j++) { int t = i - j; if (t < 0) t = -t; A[i * k + t] -= m.ar[j - 1]; } }
    if (!solve(A, b, k)) return false;
    for (int i = 0; i < k && i <= M; i++) g[i] = b[i]; }
  for (int i = p + 1; i <= M; i++) { LD s = i <= q ? rhs(i) : 0; for (int j = 1; j <= p; j++) s += m.ar[j - 1] * g[i - j]; g[i] = s; }
  if (!(g[0] > 0.5L) || g[0] > 1e5L) return false;
  // Durbin-Levinson
  o.inn.resize(n); LV phi, old; LD v = g[0], ssq = 0, logdet = 0; std::vector<LV> fut(L); LV fv(L);
  for (int t = 0; t < n + L; t++) {
    // phi predicts w[t] from w[t-1..0]; v is its variance
    LD pr = 0; for (int j = 0; j < t; j++) pr += phi[j] * w[t - 1 - j];
    if (!(v > 1e-9L)) return false;
    if (t < n) { LD e = w[t] - pr; ssq += e * e / v; logdet += logl(v); o.inn[t] = (double)(e / sqrtl(v)); }
    else { w[t] = pr; int h = t - n; fut[h].assign(phi.begin(), phi.begin() + h); fv[h] = v; }
    if (t + 1 < n + L) {
      LD s = g[t + 1]; for (int j = 0; j < t; j++) s -= phi[j] * g[t - j];
      LD k = s / v; old = phi; phi.push_back(k); for (int j = 0; j < t; j++) phi[j] = old[j] - k * old[t - 1 - j];
      v *= (1 - k * k);
    }
  }
  o.n = n; o.sigma2 = (double)(ssq / n); o.loglik = (double)(-0.5L * (n * (logl(2 * acosl(-1.0L) * ssq / n) + 1) + logdet));
  // errors of the future values in terms of independent innovations
  std::vector<LV> ew(L, LV(L, 0.0L)), ey(L, LV(L, 0.0L)); LV yf(L);
  o.fc.resize(L); o.mse.resize(L);
  for (int h = 0; h < L; h++) {
    ew[h][h] = 1; for (int j = 0; j < h; j++) for (int k = 0; k < L; k++) ew[h][k] += fut[h][j] * ew[h - 1 - j][k];
    LD s = w[n + h]; LV e = ew[h];
    for (int j = 1; j <= D; j++) { int t = h - j; if (t >= 0) { s -= (LD)m.delta[j] * yf[t]; for (int k = 0; k < L; k++) e[k] -= (LD)m.delta[j] * ey[t][k]; } else s -= (LD)m.delta[j] * y[N + t]; }
    yf[h] = s; ey[h] = e; LD a = 0; for (int k = 0; k < L; k++) a += e[k] * e[k] * fv[k];
    o.fc[h] = (double)s; o.mse[h] = (double)(a * ssq / n);
  }
  return true;
}
