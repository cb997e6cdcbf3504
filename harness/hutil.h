// Helpers shared by the harnesses: reference quadrature etc. written from
// textbook definitions, independent of the code under test.
#pragma once
#include "sym.h"
#include <Eigen/Dense>
#include <Matrix.h>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
typedef Eigen::MatrixXd MatD;
typedef Eigen::VectorXd VecD;
inline std::string S(const char *f, int a = 0, int b = 0, int c = 0, int d = 0) { char buf[200]; snprintf(buf, sizeof buf, f, a, b, c, d); return buf; }

// n-point Gauss-Legendre rule (Newton on P_n), exact to degree 2n-1
inline void ref_gauss(int n, std::vector<double> &x, std::vector<double> &w) {
  x.resize(n); w.resize(n);
  for (int i = 0; i < n; i++) {
    long double z = cosl(3.14159265358979323846264338L * (i + 0.75L) / (n + 0.5L)), pp = 0;
    for (int it = 0; it < 100; it++) {
      long double p1 = 1, p2 = 0;
      for (int j = 0; j < n; j++) { long double p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
      pp = n * (z * p1 - p2) / (z * z - 1);
      long double z1 = z; z = z1 - p1 / pp;
      if (fabsl(z - z1) < 1e-19L) break;
    }
    x[n - 1 - i] = (double)z; w[n - 1 - i] = (double)(2 / ((1 - z * z) * pp * pp));
  }
}
inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
inline double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
inline VecD vec1(double x) { VecD v(1); v(0) = x; return v; }
