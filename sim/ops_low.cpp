// Lower layers that callers reach directly: alternative decompositions, innovations estimates, simple regression,
// strided and padded matrix kernels, special functions, difference Hessians.
#include "ops.h"
#include "lib.h"
#include <cmath>
static DV lmat(Ctx &X, int m, int n, long seed, int kind) {
  DV a = noise((size_t)m * n, seed + 991, 1.0);
  if (kind == 1) for (int i = 0; i < m && i < n; i++) a[(size_t)i * n + i] += 4;
  else if (kind == 2 && m > 1) for (int j = 0; j < n; j++) a[(size_t)(m - 1) * n + j] = a[j];
  else if (kind == 3) for (auto &v : a) v = (double)(int)(v * 2);
  if (X.has("ck") && !X.env->skipFaults) corruptSeries(a, X.A("cp", 0, 100000, 0), X.A("ck", 0, 7, 0), X.A("cc", 1, 30, 1));
  return a; }
OP(lo_svd, T_PURE | T_MAT) {
  int n = X.A("n", 1, 8, 3), m = n + X.A("dm", 0, 6, 2), w = X.A("which", 0, 1, 0); auto a = lmat(X, m, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 3, 0));
  double *U = OUT((size_t)m * n), *V = OUT((size_t)n * n), *q = OUT(n); int f = w ? ::svd_gr2(IN(a), m, n, U, V, q) : ::svd_gr(IN(a), m, n, U, V, q);
  X.status(f, f == 0); if (f == 0) { X.dig("U", U, (size_t)m * n); X.dig("V", V, (size_t)n * n); X.dig("q", q, n); }
}
OP(lo_house, T_PURE | T_MAT) {
  int n = X.A("n", 1, 12, 4); auto a = lmat(X, 1, n, X.A("ds", 0, 99999, 1), X.A("kind", 0, 3, 0) == 3 ? 3 : 0); double *v = OUT(n), *H = OUT((size_t)n * n);
  double b = X.A("which", 0, 1, 0) ? ::house_2(IN(a), n, v) : ::house(IN(a), n, v); DV vv(v, v + n); ::housemat(IN(vv), n, b, H); X.digD("beta", b); X.dig("v", v, n); X.dig("H", H, (size_t)n * n);
}
OP(lo_ichol, T_PURE | T_MAT) {
  int n = X.A("n", 1, 12, 4); auto b = lmat(X, n, n, X.A("ds", 0, 99999, 1), 0); DV a((size_t)n * n, 0.0); bool drop = X.A("drop", 0, 1, 0), neg = X.A("neg", 0, 5, 1) == 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { for (int k = 0; k < n; k++) a[(size_t)i * n + j] += b[(size_t)i * n + k] * b[(size_t)j * n + k]; if (i == j) a[(size_t)i * n + j] += neg ? -0.3 * n : 2; }
  if (drop) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (i + j) % 3 == 0) a[(size_t)i * n + j] = 0;
  double *A = IO(a); int f = ::ichol(A, n); X.status(f, f == 0); if (f == 0) X.dig("L", A, (size_t)n * n);
}
OP(lo_stride, T_PURE | T_MAT) {
  int m = X.A("m", 1, 9, 3), n = X.A("n", 1, 9, 3), sa = n + X.A("sa", 0, 3, 1), sb = n + X.A("sb", 0, 3, 0), sc = n + X.A("sc", 0, 3, 2); long ds = X.A("ds", 0, 99999, 1);
  auto a = lmat(X, m, sa, ds, 0), b = lmat(X, m, sb, ds + 1, 0), c = noise((size_t)m * sc, ds + 2, 1); double *C = IO(c), *D = IO(c), *E = IO(c);
  ::madd_stride(IN(a), IN(b), C, m, n, sa, sb, sc); ::msub_stride(IN(a), IN(b), D, m, n, sa, sb, sc); X.dig("C", C, (size_t)m * sc); X.dig("D", D, (size_t)m * sc);
  ::rmadd_stride(IN(a), IN(b), E, m, n, n, sa, sb, sc); X.dig("E", E, (size_t)m * sc);
  int zr = X.A("zr", 0, 3, 1), zc = X.A("zc", 0, 3, 2); DV d(a.begin(), a.begin() + (size_t)m * n); double *Y = OUT((size_t)(m + zr) * (n + zc)), *Z = OUT((size_t)m * n);
  ::add_zero_pad(IN(d), m, n, zr, zc, Y); DV yv(Y, Y + (size_t)(m + zr) * (n + zc)); ::remove_zero_pad(IN(yv), m + zr, n + zc, zr, zc, Z); X.dig("Y", Y, (size_t)(m + zr) * (n + zc)); X.dig("Z", Z, (size_t)m * n);
}
OP(lo_vec, T_PURE | T_DATA) {
  int n = X.A("n", 2, 60, 17); auto x = X.series(n); double *s = IO(x), *r = OUT(n), *q = OUT(n), *w = OUT(n), *c = OUT(n); ::spectrum_shift(s, n); ::copy_reverse(IN(x), n, r); ::qmf_even(IN(x), n, q); ::qmf_wrev(IN(x), n, w); ::copy(IN(x), n, c);
  X.dig("s", s, n); X.dig("r", r, n); X.dig("q", q, n); X.dig("w", w, n); X.dig("c", c, n);
}
OP(lo_inn, T_PURE | T_DATA) {
  int n = X.A("n", 30, 150, 60), w = X.A("which", 0, 4, 0), k = X.A("k", 2, 17, 8), q = X.A("q", 1, 5, 1), p = X.A("p", 1, 4, 2); auto x = X.series(n); if (q > k) q = k;
  if (w == 0) { double *v = OUT(k + 1), *t = OUT((size_t)(k + 1) * (k + 1)); ::innalg(IN(x), n, k, v, t); X.dig("v", v, k + 1); X.dig("t", t, (size_t)(k + 1) * (k + 1)); }
  else if (w == 1) { double *t = OUT(q); ::ma_inn(IN(x), n, q, t, k); X.dig("t", t, q); }
  else { double *phi = OUT(p), *v = OUT(1); if (w == 2) ::ywalg(IN(x), n, p, phi); else if (w == 3) ::ywalg2(IN(x), n, p, phi, v); else ::burgalg(IN(x), n, p, phi, v); X.dig("phi", phi, p); if (w > 2) X.dig("v", v, 1); }
}
OP(lo_linreg, T_PURE | T_DATA | T_PRINT) {
  int n = X.A("n", 5, 80, 30); auto x = X.series(n, "ds2", "dk2", false), y = X.series(n); double *b = OUT(2), *v = OUT(5), *res = OUT(n), *an = OUT(7), *lo = OUT(3), *hi = OUT(3), *t = OUT(2), *p = OUT(2);
  static const double al[] = {0.05, 0.1, 0.01}; ::linreg_clrm(IN(x), IN(y), n, b, v, res, al[X.A("alpha", 0, 2, 0)], an, lo, hi); DV bv(b, b + 2), vv(v, v + 5);
  X.dig("b", b, 2); X.dig("v", v, 5); X.dig("res", res, n); X.dig("an", an, 7); X.dig("lo", lo, 3); X.dig("hi", hi, 3);
  ::zerohyp_clrm(n, IN(bv), IN(vv), t, p); X.dig("t", t, 2); X.dig("p", p, 2);
  DV cov = {vv[1], vv[3], vv[3], vv[2]}; double *t2 = OUT(2), *p2 = OUT(2); ::zerohyp_multi(n, IN(bv), 2, IN(cov), t2, p2); X.dig("t2", t2, 2); X.dig("p2", p2, 2);
}
OP(lo_spec, T_PURE) {
  double x = X.A("x", -900, 1800, 50) / 10.0 + 0.013, a = X.A("a", 1, 60, 7) / 5.0, b = X.A("b", 1, 60, 9) / 5.0, pr = X.A("p", 1, 999, 500) / 1000.0;
  double v[] = {::gamma(x), ::beta(a, b), ::ibetad(pr, a, b), ::ibetac(pr, a, b), ::normf(x), ::eps(x), ::log1p(pr - 1), ::erf(x / 10), ::erfc(x / 10)}; X.dig("v", v, sizeof v / 8);
}
OP(lo_factor, T_PURE) {
  int m = X.A("m", 1, 5000, 60), d = X.A("d", 2, 53, 3); X.digInt("f2", ::factorf(m)); X.digInt("dv", ::divideby(m, d)); X.digInt("nx", ::findnext(m)); X.digInt("nx2", ::findnexte(m));
  int a = m % 700 + 1, b = d * 7, c = (m * 3) % 500 + 1; X.digInt("rec", ::findrec(&a, &b, &c)); X.digInt("a", a); X.digInt("b", b); X.digInt("c", c);
}
