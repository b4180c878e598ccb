// Index transformations of one- and two-electron tables (P19).
#include "common.hpp"
#include <limits>
#include <macis/util/transform.hpp>
using namespace vh;
static Out out;
static Rng rnd(19);
static int fX(int k, int a, int b, int c, int d) { return ((a * 5 + b * 11 + c * 17 + d * 3 + a * b * 7 + c * d + a * d * 2 + b * c * 3 + k) % 13) - 6; }
static std::vector<long> L(const std::vector<double>& v) { return I(v); }
// larger tables with few entries, matrices with at most two entries a column
static void sparse(int four) {
  int n = rnd(8, four ? 24 : 80), m = rnd(8, four ? 24 : 80); if(rnd(0, 2) == 0) m = n;
  int lx = n + rnd(0, 2), ly = m + rnd(0, 2), lc = n + rnd(0, 3);
  std::vector<double> C((size_t)lc * m, 0.); std::vector<std::vector<int>> cs, xs;
  for(int j = 0; j < m; ++j) for(int e = 0; e < 2; ++e) { int i = rnd(0, n - 1), v = rnd(1, 2) * (rnd.coin() ? 1 : -1); if(C[i + (size_t)j * lc] == 0) { C[i + (size_t)j * lc] = v; cs.push_back({i, j, v}); } }
  int r4 = four ? 4 : 2; size_t sx = n, sy = m; for(int q = 1; q < r4; ++q) { sx *= lx; sy *= ly; }
  std::vector<double> X(sx, 0.), Y(sy, 777.);
  const double u = std::ldexp(1., std::vector<int>{0, -40, 20}[rnd(0, 2)]);
  for(int e = 0; e < 12; ++e) { std::vector<int> c; size_t at = 0, st = 1; for(int q = 0; q < r4; ++q) { int i = rnd(0, 3) ? rnd(0, n - 1) : n - 1; c.push_back(i); at += st * i; st *= lx; } if(X[at] != 0) continue; int v = rnd(1, 9) * (rnd.coin() ? 1 : -1); X[at] = u * v; c.push_back(v); xs.push_back(c); }
  if(four) macis::four_index_transform(n, m, X.data(), lx, C.data(), lc, Y.data(), ly); else macis::two_index_transform(n, m, X.data(), lx, C.data(), lc, Y.data(), ly);
  std::vector<std::vector<long>> ys; bool pad = true;
  for(size_t q = 0; q < sy; ++q) { std::vector<long> c; size_t t = q; bool in = true; for(int k = 0; k < r4; ++k) { long i = k + 1 < r4 ? t % ly : t; t /= ly; in = in && i < m; c.push_back(i); }
    if(!in) pad = pad && Y[q] == 777.; else if(Y[q] != 0) { c.push_back(I(Y[q] / u)); ys.push_back(c); } }
  Rec r("sparse"); r("n", n)("m", m)("x", xs)("cs", cs)("ys", ys)("pad", pad); out(r);
}
int main() {
  out.open("");
  for(int t = 0; t < (thorough() ? 60 : 10); ++t) { sparse(1); sparse(0); sparse(0); }
  const double NaN = std::numeric_limits<double>::quiet_NaN();
  const int NR = thorough() ? 1500 : 220;
  for(int t = 0; t < NR; ++t) {
    int big = rnd(0, 29) == 0;
    int n = rnd(1, big ? 6 : 4), m = rnd(1, big ? 6 : 4);
    int four = rnd(0, 2) > 0;
    int kind = rnd(0, 5);
    if(kind <= 1) m = n;
    if(kind == 2) m = rnd(1, n);
    // coefficients: identity, permutation/selection, general
    std::vector<double> C(n * m);
    // the unit of the table: a power of two
    static const int ex[] = {0, 0, -40, 20}; const double u = std::ldexp(1., ex[t % 4]);
    if(kind == 0) for(int i = 0; i < n; ++i) C[i + i * n] = 1;
    else if(kind == 1 || kind == 2) {
      std::vector<int> p(n); for(int i = 0; i < n; ++i) p[i] = i;
      for(int i = n; i-- > 1;) std::swap(p[i], p[rnd(0, i)]);
      for(int j = 0; j < m; ++j) C[p[j] + j * n] = rnd(0, 3) ? 1 : -1;
    } else for(auto& x : C) x = rnd(-2, 2);
    int ldx = n + (rnd.coin() ? rnd(1, 3) : 0), ldc = n + (rnd.coin() ? rnd(1, 3) : 0), ldy = m + (rnd.coin() ? rnd(1, 2) : 0);
    bool inplace = m <= n && rnd(0, 3) == 0;
    if(inplace) ldy = ldx = n + rnd(0, 1);
    int k = rnd(0, 12);
    std::vector<double> Cs(ldc * m, NaN);
    for(int j = 0; j < m; ++j) for(int i = 0; i < n; ++i) Cs[i + j * ldc] = C[i + j * n];
    Rec r(four ? "four" : "two");
    r("n", n)("m", m)("k", k)("c", L(C))("ldx", ldx)("ldy", ldy)("ldc", ldc)("inplace", inplace);
    std::vector<double> y; bool pad = true;
    if(!four) {
      std::vector<double> X(ldx * n, NaN), Y(ldy * m, 777);
      for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) X[i + j * ldx] = u * fX(k, i, j, 0, 0);
      double* Yp = inplace ? X.data() : Y.data();
      macis::two_index_transform(n, m, X.data(), ldx, Cs.data(), ldc, Yp, ldy);
      for(int j = 0; j < m; ++j) for(int i = 0; i < ldy; ++i) { if(i < m) y.push_back(Yp[i + j * ldy]); else if(!inplace) pad = pad && Yp[i + j * ldy] == 777; }
    } else {
      size_t lx = ldx, ly = ldy;
      std::vector<double> X(lx * lx * lx * n, NaN), Y(ly * ly * ly * m, 777);
      for(int d = 0; d < n; ++d) for(int c = 0; c < n; ++c) for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a)
        X[a + lx * (b + lx * (c + lx * d))] = u * fX(k, a, b, c, d);
      double* Yp = inplace ? X.data() : Y.data();
      macis::four_index_transform(n, m, X.data(), ldx, Cs.data(), ldc, Yp, ldy);
      for(int d = 0; d < m; ++d) for(int c = 0; c < ldy; ++c) for(int b = 0; b < ldy; ++b) for(int a = 0; a < ldy; ++a) {
        double v = Yp[a + ly * (b + ly * (c + ly * d))];
        if(a < m && b < m && c < m) y.push_back(v); else if(!inplace) pad = pad && v == 777;
      }
    }
    for(auto& v : y) v /= u;
    r("y", L(y))("pad", pad); out(r);
  }
}
