// P23: histories of additions and extrapolations of the DIIS accelerator.
// The t-th vector is the t-th unit vector, so that the extrapolated vector
// is the list of weights.
#include <macis/util/diis.hpp>
#include <spdlog/sinks/null_sink.h>
#include "common.hpp"
using namespace vh;
typedef std::vector<long> IV;

// largest weight of the exact solution for the last m error vectors (or -1
// when the equations are singular): keeps ill-conditioned histories out.
// ks: exponents of two by which the vectors were scaled; the weights are counted in those scales
static double spread(const std::vector<IV>& e, const std::vector<int>& ks = {}) {
  size_t m = e.size(), n = m + 1;
  std::vector<std::vector<double>> A(n, std::vector<double>(n + 1, 0));
  for(size_t i = 0; i < m; ++i) {
    for(size_t j = 0; j < m; ++j)
      for(size_t d = 0; d < e[i].size(); ++d) A[i][j] += e[i][d] * e[j][d];
    A[i][m] = A[m][i] = 1;
  }
  A[m][n] = 1;
  for(size_t k = 0; k < n; ++k) {
    size_t p = k;
    for(size_t i = k; i < n; ++i) if(std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
    if(std::abs(A[p][k]) < 1e-9) return -1;
    std::swap(A[p], A[k]);
    for(size_t i = 0; i < n; ++i) if(i != k) {
      double f = A[i][k] / A[k][k];
      for(size_t j = k; j <= n; ++j) A[i][j] -= f * A[k][j];
    }
  }
  double w = 0; int k0 = ks.empty() ? 0 : *std::min_element(ks.begin(), ks.end());
  for(size_t i = 0; i < m; ++i) w = std::max(w, std::ldexp(std::abs(A[i][n] / A[i][i]), ks.empty() ? 0 : ks[i] - k0));
  return w;
}

int main() {
  spdlog::null_logger_mt("diis");
  Out out("");
  Rng R(23);
  int N = thorough() ? 12000 : 1500;
  for(int h = 0; h < N; ++h) {
    int nmax = R(1, 6), adds = R(1, 12), dim = R(2, 7), amp = R(1, 9);
    if(R(0, 9) == 0) { nmax = R(7, 11); adds = R(8, 18); dim = R(12, 16); amp = R(1, 3); }   // longer memories
    double unit = R.coin() ? 1. : std::ldexp(1., R(-20, 20));   // the weights do not depend on it
    int kind = R(0, 5);   // 0: repeated errors, 1: zero errors now and then
    macis::DIIS<std::vector<double>> D(nmax);
    std::vector<IV> es; std::vector<int> ks;
    Out* o = &out;
    std::string ev = "[";
    bool any = false;
    for(int t = 0; t < adds; ++t) {
      IV e(dim); bool ok = false;
      for(int tries = 0; tries < 40 && !ok; ++tries) {
        const int am = kind == 2 ? std::max(1, 48 >> (t / 2 * 2)) : amp;   // errors that shrink, as in a converging history
        for(auto& x : e) x = R(-am, am);
        if(kind == 0 && t && R.coin()) e = es[R(0, t - 1)];
        if(kind == 1 && !R(0, 3)) std::fill(e.begin(), e.end(), 0);
        int kk = kind == 3 ? std::max(0, R(8, 12) - 4 * t) : 0;   // far apart in size
        if(kind == 3) { for(auto& x : e) x = std::max(-3l, std::min(3l, x)); }
        IV big = e; for(auto& x : big) x <<= kk;
        es.push_back(big); ks.push_back(kk);
        int m = std::min((int)es.size(), nmax);
        double w = spread(std::vector<IV>(es.end() - m, es.end()), std::vector<int>(ks.end() - m, ks.end()));
        ok = kind == 0 || (w >= 0 && w < 20);
        // repeated errors: exactly equal ones are fine, near-dependence is not
        if(kind == 0) {
          std::set<IV> u(es.end() - m, es.end());
          w = spread(std::vector<IV>(u.begin(), u.end()));
          ok = w >= 0 && w < 20;
        }
        if(!ok) { es.pop_back(); ks.pop_back(); }
      }
      if(!ok) break;
      std::vector<double> v(adds, 0.), ed(e.begin(), e.end());
      v[t] = 1;
      for(auto& x : ed) x *= std::ldexp(unit, ks[t]);
      D.add_vector(v, ed);
      ev += std::string(ev.size() > 1 ? "," : "") + "{\"a\":1,\"e\":" + js(e) + ",\"k\":" + std::to_string(ks[t]) + "}";
      int k = (R(0, 2) == 0 || t + 1 == adds) ? R(1, 2) : 0;
      while(k--) {
        auto x = D.extrapolate();
        auto u = x; int k0 = *std::min_element(ks.end() - std::min((int)ks.size(), nmax), ks.end());
        for(size_t i = 0; i < u.size() && i < ks.size(); ++i) u[i] = std::ldexp(u[i], std::max(0, ks[i] - k0));
        ev += ",{\"a\":0,\"x\":" + js(F(x, 1000)) + ",\"u\":" + js(F(u, 1000)) + "}";
        any = true;
      }
    }
    if(any) (*o)(Rec("hist")("max", nmax)("dim", dim)("adds", adds).raw("ev", ev + "]"));
  }
}
