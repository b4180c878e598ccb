// P28: line searches and quasi-Newton minimisation.
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <vector>
#include <algorithm>
#include <cmath>
#include "common.hpp"
#include <spdlog/sinks/null_sink.h>
#include <bfgs/bfgs.hpp>
using namespace vh;
typedef std::vector<double> DV;
typedef std::vector<long> LV;
static Out out;
// f(x) = x'Ax/2 - b'x + sum c_i x_i^4 / 4, or one of two curved valleys
struct Fun {
  using argument_type = DV;
  using return_type = double;
  int n = 0, kind = 0;             // 0 polynomial, 1 valley, 2 waves
  std::vector<DV> A; DV b, c;
  double tol = 1e-5;
  std::vector<DV> seen, at, gat;   // evaluated points, points and gradients handed to the convergence test
  std::vector<int> conv;
  double f(const DV& x) const {
    double v = 0;
    if(kind == 1) { for(int i = 0; i + 1 < n; ++i) v += 3 * (x[i+1] - x[i]*x[i]) * (x[i+1] - x[i]*x[i]) + (1 - x[i]) * (1 - x[i]); return v; }
    if(kind == 2) { for(int i = 0; i < n; ++i) v += .1 * x[i] * x[i] - std::cos(2 * x[i] + i); return v; }
    for(int i = 0; i < n; ++i) { double s = 0; for(int j = 0; j < n; ++j) s += A[i][j] * x[j]; v += .5 * x[i] * s - b[i] * x[i] + .25 * c[i] * x[i] * x[i] * x[i] * x[i]; }
    return v;
  }
  DV g(const DV& x) const {
    DV v(n, 0.);
    if(kind == 1) { for(int i = 0; i + 1 < n; ++i) { double d = x[i+1] - x[i]*x[i]; v[i+1] += 6 * d; v[i] += -12 * d * x[i] - 2 * (1 - x[i]); } return v; }
    if(kind == 2) { for(int i = 0; i < n; ++i) v[i] = .2 * x[i] + 2 * std::sin(2 * x[i] + i); return v; }
    for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) v[i] += A[i][j] * x[j]; v[i] += -b[i] + c[i] * x[i] * x[i] * x[i]; }
    return v;
  }
  double eval(const DV& x) { seen.push_back(x); return f(x); }
  DV grad(const DV& x) { return g(x); }
  bool converged(const DV& x, const DV& gr) { at.push_back(x); gat.push_back(gr); conv.push_back(norm(gr) < tol); return conv.back(); }
  static double norm(const DV& x) { return std::sqrt(dot(x, x)); }
  static double dot(const DV& x, const DV& y) { double s = 0; for(size_t i = 0; i < x.size(); ++i) s += x[i] * y[i]; return s; }
  static void axpy(double a, const DV& x, DV& y) { for(size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; }
  static void scal(double a, DV& x) { for(auto& v : x) v *= a; }
  static DV subtract(const DV& x, const DV& y) { DV z = x; axpy(-1., y, z); return z; }
};
static std::vector<std::vector<long>> mat(const std::vector<DV>& A) { std::vector<LV> r; for(auto& a : A) { LV v; for(auto x : a) v.push_back((long)x); r.push_back(v); } return r; }
static LV ints(const DV& a) { LV v; for(auto x : a) v.push_back(I(x, 1, 1e-9)); return v; }
static double diff(const DV& a, const DV& b) { double d = 0; for(size_t i = 0; i < a.size(); ++i) d = std::max(d, std::abs(a[i] - b[i])); return a.size() == b.size() ? d : 1e9; }
static void random_fun(Rng& R, Fun& fn, int n, int shape) {   // 0 convex, 1 any quadratic, 2 quartic, 3 valley, 4 waves
  fn.n = n; fn.kind = shape < 3 ? 0 : shape - 2;
  fn.A.assign(n, DV(n, 0.)); fn.b.assign(n, 0.); fn.c.assign(n, 0.);
  for(int i = 0; i < n; ++i) { fn.b[i] = R(-9, 9); for(int j = 0; j < i; ++j) fn.A[i][j] = fn.A[j][i] = R(-2, 2); }
  for(int i = 0; i < n; ++i) {
    double s = 0; for(int j = 0; j < n; ++j) if(j != i) s += std::abs(fn.A[i][j]);
    fn.A[i][i] = shape == 0 ? s + R(1, 6) : R(-6, 9);
    if(shape == 2) fn.c[i] = R(1, 4);
  }
}
int main(int argc, char** argv) {
  for(auto nm : {"bfgs", "line_search"}) spdlog::register_logger(std::make_shared<spdlog::logger>(nm, std::make_shared<spdlog::sinks::null_sink_mt>()));
  out.open("");
  Rng R(28);
  std::string mode = argv[1];
  if(mode == "line") {
    int NT = thorough() ? 40000 : 5000;
    for(int t = 0; t < NT; ++t) {
      Fun fn; int n = R(1, 4), shape = R(0, 4); if(shape == 3 && n == 1) n = 2;
      random_fun(R, fn, n, shape);
      int which = R(0, 2);                      // backtracking, Wolfe, grid
      DV x0(n), p(n);
      for(auto& v : x0) v = R(-3, 3);
      DV g0 = fn.g(x0);
      int dir = R(0, 5);                        // mostly downhill
      for(int i = 0; i < n; ++i) p[i] = R(-4, 4);
      if(dir < 4 && Fun::dot(p, g0) > 0) Fun::scal(-1., p);
      if(dir == 5) { p = g0; Fun::scal(shape < 2 ? -1. : -.125, p); }
      if(R(0, 9) == 0 && shape < 2) { p.assign(n, 0.); for(int i = 0; i < n; ++i) if(std::abs(g0[i]) == 1) { p[i] = g0[i]; break; } if(R.coin()) Fun::scal(-1., p); }   // nearly level
      if(which < 2 && shape < 2 && R(0, 7) == 0) Fun::scal(R.coin() ? 16. : 64., p);   // far too long a direction
      if(shape == 4 && R.coin()) Fun::scal(R(2, 6), p);                                 // across many waves
      double f0 = fn.f(x0), dg0 = Fun::dot(p, g0);
      int se = R(0, 7); double st0 = se == 0 ? 0. : se == 1 ? -R(1, 3) : se == 2 ? .25 : se == 3 ? 4. : se == 4 ? .0625 : 1.;
      double step = st0, fx = which == 1 ? f0 : -12345., fin = fx;
      DV x, gx = which == 1 ? g0 : DV(n, 5.), gin = gx;
      const DV x00 = x0, p00 = p;
      std::string oc = "ok";
      try {
        if(which == 0) bfgs::backtracking_line_search(fn, x0, p, step, x, fx, gx);
        else if(which == 1) bfgs::nocedal_wright_line_search(fn, x0, p, step, x, fx, gx);
        else bfgs::discrete_line_search(fn, x0, p, step, x, fx, gx);
      } catch(std::exception&) { oc = "error"; }
      DV xl = x0; Fun::axpy(step, p, xl);
      int k = 0; while(k < 12 && std::ldexp(step, k) != std::floor(std::ldexp(step, k))) ++k;
      bool unit = oc == "ok" && std::ldexp(step, k) == 1.;
      Rec r("line");
      double s1 = step; bool ok = oc == "ok";
      LV grid; if(which == 2) for(int i = 1; i <= 100; ++i) { DV y = x0; Fun::axpy(i / 100., p, y); grid.push_back(F(fn.f(y), 1e5)); }
      DV xw = x0; Fun::axpy(st0, p, xw); bool wild = fn.f(xw) - f0 > 20 * std::abs(st0 * dg0);
      bool big = !ok || std::abs(f0) > 2000 || std::abs(fx) > 2000 || std::abs(dg0) > 2000;
      r("which", which)("shape", shape)("A", mat(fn.A))("b", ints(fn.b))("x0", ints(x0))("p", shape < 2 ? ints(p) : LV())("st", (int)(st0 * 16))("out", oc)("unit", unit)("k", unit ? k : -1)
       ("sgn", dg0 > 0 ? 1 : dg0 < 0 ? -1 : 0)("pos", ok && step > 0)("on", ok ? F(std::min(diff(x, xl), 1.), 1e9) : 0)("fd", ok ? F(std::min(std::abs(fx - fn.f(x)) / (1 + std::abs(fx)), 1.), 1e9) : 0)("gd", ok ? F(std::min(diff(gx, fn.g(x)) / (1 + Fun::norm(gx)), 1.), 1e9) : 0)
       ("same", x0 == x00 && p == p00)("big", big)("wild", wild)("f0", big ? 0 : F(f0, 1e5))("f", big ? 0 : F(fx, 1e5))("sd", big ? 0 : F(std::min(std::abs(s1 * dg0), 2e4), 1e5))("dg0", big ? 0 : F(dg0, 1e4))("dg", big ? 0 : F(std::max(std::min(Fun::dot(p, fn.g(x)), 2e4), -2e4), 1e4))("grid", grid);
      bool ex = ok && unit && k <= 6 && shape < 2; double sc = std::ldexp(1., k);
      r("ex", ex)("f2", ex ? I(2 * fx * sc * sc, 1, 1e-6) : 0)("gk", [&] { LV v; if(ex) for(auto z : gx) v.push_back(I(z * sc, 1, 1e-6)); return v; }());
      out(r);
    }
  } else if(mode == "hess") {
    int NT = thorough() ? 20000 : 2000;
    for(int t = 0; t < NT; ++t) {
      int n = R(1, 4), nu = R(0, 3), hk = R(0, 4);
      std::unique_ptr<bfgs::BFGSHessian<Fun>> B;
      DV D(n); LV h0;                            // diagonal of H0, times 4
      for(auto& d : D) { int e = R(0, 2); d = 1 << e; h0.push_back(4 >> e); }
      if(hk == 0) { B = bfgs::make_identity_hessian<Fun>(); h0.assign(n, 4); }
      if(hk == 1) B = bfgs::make_updated_scaled_hessian<Fun>();
      if(hk == 2) B = bfgs::make_static_scaled_hessian<Fun>();
      if(hk == 3) B = std::make_unique<bfgs::DiagInitializedBFGSHessian<Fun>>(n, D.data());
      if(hk == 4) B = std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fun>>([D](DV& q) { for(size_t i = 0; i < q.size(); ++i) q[i] /= D[i]; });
      std::vector<DV> ss, ys;
      for(int u = 0; u < nu; ++u) for(int tries = 0; tries < 1000; ++tries) {
        DV s(n), y(n); for(auto& v : s) v = R(-2, 2); for(auto& v : y) v = R(-2, 2);
        double r = Fun::dot(s, y); if(r != 1 && r != 2 && r != -1) continue;
        if(r < 0 && R(0, 3)) continue;
        B->update(s, y); ss.push_back(s); ys.push_back(y); break;
      }
      if(hk == 1 || hk == 2) h0.assign(n, 4);
      DV x(n), x2(n); for(auto& v : x) v = R(-2, 2); for(auto& v : x2) v = R(-2, 2);
      const DV xx = x;
      DV q = B->apply(x), q2 = B->apply(x2), qs = ss.empty() ? DV() : B->apply(ys.back());
      DV again = B->apply(x);
      std::vector<LV> S, Y; for(auto& s : ss) S.push_back(ints(s)); for(auto& y : ys) Y.push_back(ints(y));
      LV q6, z6; for(auto v : q) q6.push_back(F(v, 1e4)); for(auto v : qs) z6.push_back(F(v, 1e6));
      out(Rec("hess")("n", n)("hk", hk)("S", S)("Y", Y)("h0", h0)("x", ints(x))("z", ints(x2))("q", q6)("secant", z6)("sym", F(std::min(std::abs(Fun::dot(x2, q) - Fun::dot(x, q2)), 1.), 1e8))("same", x == xx && again == q));
    }
  } else {
    int NT = thorough() ? 6000 : 800;
    for(int t = 0; t < NT; ++t) {
      Fun fn; int n = R(1, 5), shape = R(0, 4); if(shape == 3 && n == 1) n = 2;
      random_fun(R, fn, n, shape);
      fn.tol = R.coin() ? 1e-3 : 1e-5;
      DV x0(n); for(auto& v : x0) v = R(-30, 30) / 10.;
      if(R(0, 15) == 0 && shape == 0) { x0.assign(n, 0.); fn.b.assign(n, 0.); }   // starts at the minimum
      int hk = R(0, 5);
      DV D(n); for(int i = 0; i < n; ++i) D[i] = shape == 0 ? fn.A[i][i] : R(1, 4);
      std::unique_ptr<bfgs::BFGSHessian<Fun>> B;
      if(hk <= 1) B = bfgs::make_identity_hessian<Fun>();
      if(hk == 2) B = bfgs::make_updated_scaled_hessian<Fun>();
      if(hk == 3) B = bfgs::make_static_scaled_hessian<Fun>();
      if(hk == 4) B = std::make_unique<bfgs::DiagInitializedBFGSHessian<Fun>>(n, D.data());
      if(hk == 5) B = std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fun>>([D](DV& q) { for(size_t i = 0; i < q.size(); ++i) q[i] /= D[i]; });
      bfgs::BFGSSettings s; s.max_iter = R(0, 3) ? 200 : R(0, 6);
      DV x; std::string oc = "ok"; const DV x00 = x0;
      try { x = hk == 0 ? bfgs::bfgs(fn, x0, s) : bfgs::bfgs(fn, x0, *B, s); }
      catch(std::exception& e) { oc = std::string(e.what()).find("Converge") != std::string::npos ? "notconv" : "error"; }
      int m = fn.at.size();
      LV fs; bool bounded = std::abs(fn.f(x0)) < 10000;
      fs.push_back(bounded ? F(fn.f(x0), 1e5) : 0);
      for(auto& y : fn.at) fs.push_back(std::abs(fn.f(y)) < 10000 ? F(fn.f(y), 1e5) : bounded ? 1000000000 * (fn.f(y) < 0 ? -1 : 1) : 0);
      double gd = 0, sd = 0, sec = 0; for(int i = 0; i < m; ++i) gd = std::max(gd, diff(fn.gat[i], fn.g(fn.at[i])));
      if(hk > 0) {
        for(size_t i = 0; i < B->sk.size() && (int)i < m; ++i) {
          DV a = Fun::subtract(fn.at[i], i ? fn.at[i-1] : x0), y = Fun::subtract(fn.gat[i], i ? fn.gat[i-1] : fn.g(x0));
          sd = std::max({sd, diff(a, B->sk[i]), diff(y, B->yk[i]), std::abs(B->rhok[i] * Fun::dot(a, y) - 1)});
        }
        if(B->sk.size() && std::isfinite(B->rhok.back())) { DV z = B->apply(B->yk.back()); sec = diff(z, B->sk.back()) / Fun::norm(B->sk.back()); }
        if(std::abs(sd) > 1 || sd != sd) sd = 1;
        if(!(sec < 1)) sec = 1;
      }
      double cmin = 1e300; if(hk > 0) for(size_t i = 0; i < B->sk.size(); ++i) cmin = std::min(cmin, Fun::dot(B->sk[i], B->yk[i]) / (1e-300 + Fun::norm(B->sk[i]) * Fun::norm(B->yk[i])));
      LV xe; if(oc == "ok") for(auto v : x) xe.push_back(F(v, 1e6));
      LV cv; for(auto c : fn.conv) cv.push_back(c);
      out(Rec("bfgs")("n", n)("shape", shape)("hk", hk)("A", mat(fn.A))("b", ints(fn.b))("max", (int)s.max_iter)("te", fn.tol < 1e-4)("out", oc)("f", fs)("conv", cv)("gd", F(std::min(gd, 1.), 1e9))("sd", F(sd, 1e9))("sec", F(sec, 1e9))
          ("bent", cmin < 1e-4)("nk", hk > 0 ? (int)B->sk.size() : -1)("last", oc != "ok" || (m > 0 && x == fn.at.back()))("x", xe)("same", x0 == x00)("gn", m ? F(std::min(Fun::norm(fn.g(fn.at.back())) / fn.tol, 1e5), 1e4) : 0));
    }
  }
}
