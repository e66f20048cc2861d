// Independent reference: conditional mean/variance and likelihood of an ARMA process on differences,
// by the Toeplitz (Durbin-Levinson) route in long double. Shares nothing with the library's Kalman filter.
#pragma once
#include <vector>
struct RefModel {
  std::vector<double> ar, ma;      // w_t = sum ar_j w_{t-j} + e_t + sum ma_j e_{t-j}
  std::vector<double> delta;       // differencing polynomial, delta[0] = 1
};
struct RefOut { std::vector<double> fc, mse, inn; /* standardised one-step errors */ double sigma2, loglik; int n; };
// false: the model is too close to the boundary for a meaningful comparison (or not stationary)
bool refForecast(const RefModel &m, const std::vector<double> &y, int L, RefOut &o);
std::vector<double> polymul(const std::vector<double> &a, const std::vector<double> &b);
