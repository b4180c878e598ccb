#include <omp.h>
#include <cmath>
// Drives the legacy solver (attic/): determinants, pair lists, Hamiltonian
// matrices and density matrices of cmz::ed.  Spec: spec/LegacyTrace.tla.
#include <bit>
#include <iostream>
#include <sstream>
#include "cmz_ed/slaterdet.h++"
#include "cmz_ed/integrals.h++"
#include "cmz_ed/hamil.h++"
#include "cmz_ed/rdms.h++"
#include "common.hpp"
using namespace cmz::ed;
using namespace vh;
namespace {
using u64 = uint64_t;
int fT(int k, int p, int q) { int i = std::min(p, q), j = std::max(p, q); return ((i * 7 + j * 13 + i * j * 3 + k * 5) % 11) - 4; }
int pairix(int p, int q) { int i = std::min(p, q), j = std::max(p, q); return j * (j + 1) / 2 + i; }
int fV(int k, int p, int q, int r, int s) {
  int a = pairix(p, q), b = pairix(r, s);
  if(a > b) std::swap(a, b);
  return ((a * 5 + b * 3 + a * b + k) % 7) - 3;
}
// zt / zv: which orbital pairs carry integrals (sparse Hamiltonians)
bool keepT(int z, int p, int q) { return z == 0 || (z == 1 ? p == q : (p + q) % 2 == 0); }
bool keepV(int z, int p, int q, int r, int s) {
  return z == 0 || (z == 1 ? (p == q && r == s) || (p == r && q == s) || (p == s && q == r) : (pairix(p, q) + pairix(r, s)) % 3 == 0);
}
intgrls::integrals make(int n, int k, int z) {
  std::vector<double> t(n * n), u((size_t)n * n * n * n);
  intgrls::integrals g(n);
  for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) t[g.indexer(i, a)] = keepT(z, i, a) ? fT(k, i, a) : 0;
  for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) for(int j = 0; j < n; ++j) for(int b = 0; b < n; ++b)
    u[g.indexer(i, j, a, b)] = keepV(z, i, a, j, b) ? fV(k, i, a, j, b) : 0;
  g.t = t; g.u = u;
  return g;
}
std::vector<int> bits(u64 s) { std::vector<int> o; for(int i = 0; i < 64; ++i) if(s >> i & 1) o.push_back(i); return o; }
std::vector<int> L(const std::vector<u64>& v) { return {v.begin(), v.end()}; }
std::vector<std::vector<int>> dets(const SetSlaterDets& s) { std::vector<std::vector<int>> o; for(auto& d : s) o.push_back(bits(d.GetState())); return o; }
template <class C> std::vector<std::vector<int>> detsv(const C& s) { std::vector<std::vector<int>> o; for(auto& d : s) o.push_back(bits(d.GetState())); return o; }
u64 strg(vh::Rng& g, int n, int k) { u64 s = 0; while(std::popcount(s) < k) s |= u64(1) << g(0, n - 1); return s; }
// run f with everything it prints to std::cout dropped
template <class Fn> auto quiet(Fn f) {
  std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf());
  struct R { std::streambuf* b; ~R() { std::cout.rdbuf(b); } } r{b};
  return f();
}
Out* out;
void combs() {
  for(int n = 1; n <= 8; ++n) for(int k = 0; k <= n; ++k) {
    auto c = BuildCombs(n, k);
    std::vector<std::vector<int>> o; for(u64 x : c) o.push_back(bits(x));
    Rec r("combs"); r("n", n)("k", k)("c", o); (*out)(r);
  }
  std::vector<std::pair<int, int>> big = {{16, 1}, {16, 2}, {16, 15}, {20, 2}, {31, 1}, {32, 1}, {32, 2}, {32, 31}, {40, 1}};
  if(thorough()) { big.push_back({16, 3}); big.push_back({32, 0}); big.push_back({33, 2}); big.push_back({63, 1}); big.push_back({64, 1}); }
  for(auto [n, k] : big) {
    auto c = BuildCombs(n, k);
    std::vector<std::vector<int>> o; for(u64 x : c) o.push_back(bits(x));
    Rec r("combs"); r("n", n)("k", k)("c", o); (*out)(r);
  }
}
void space(int n, int neff, int a, int b) {
  SetSlaterDets s = neff == n ? BuildFullHilbertSpace(n, a, b) : BuildShiftHilbertSpace(n, neff, a, b);
  SetSlaterDets s2 = BuildShiftHilbertSpace(n, neff, a, b);
  bool f = true; for(auto& d : s) f = f && (int)d.GetNorbs() == n && (int)d.GetNup() == a && (int)d.GetNdo() == b;
  Rec r("space"); r("n", n)("e", neff)("a", a)("b", b)("d", dets(s))("d2", dets(s2))("f", f); (*out)(r);
}
void spaces(vh::Rng& g) {
  for(int n = 1; n <= (thorough() ? 5 : 4); ++n) for(int e = 1; e <= n; ++e) for(int a = 0; a <= e; ++a) for(int b = 0; b <= e; ++b) space(n, e, a, b);
  space(16, 16, 1, 1); space(16, 16, 0, 2); space(16, 16, 15, 0); space(20, 20, 1, 1); space(32, 32, 0, 1); space(32, 4, 2, 2); space(32, 32, 1, 0);
}
void det(const slater_det& d, int n, vh::Rng& g) {
  Rec r("det"); r("n", n)("s", bits(d.GetState()));
  std::vector<int> up, dn;
  for(int i = 0; i < n; ++i) { if(d.IsOccUp(i)) up.push_back(i); if(d.IsOccDo(i)) dn.push_back(i); }
  std::vector<u64> ou, vu, od, vd; d.GetOccsAndVirtsUp(ou, vu); d.GetOccsAndVirtsDo(od, vd);
  r("up", up)("dn", dn)("ou", L(d.GetOccOrbsUp()))("od", L(d.GetOccOrbsDo()))("vu", L(vu))("vd", L(vd))("ou2", L(ou))("od2", L(od));
  auto cs = [](const std::string& s) { std::vector<std::string> o; for(char c : s) o.push_back(std::string(1, c)); return o; };
  r("str", cs(d.ToStr()))("bra", cs(d.ToStrBra()));
  // single excitations, with sign
  std::vector<std::vector<long>> ex;
  std::vector<std::vector<int>> exs;
  std::vector<bool> same;
  auto one = [&](int sp, u64 v, u64 o) {
    double sg = 0, sg2 = 0; slater_det x, y(d);
    if(sp == 0) { x = d.GetSingExUpSt(v, o, sg); sg2 = y.SingleExcUp(v, o); } else { x = d.GetSingExDoSt(v, o, sg); sg2 = y.SingleExcDo(v, o); }
    ex.push_back({sp, (long)o, (long)v, vh::I(sg), vh::I(sg2)}); exs.push_back(bits(x.GetState()));
    same.push_back(x == y && !(x < y) && !(y < x));
  };
  for(auto o : ou) for(auto v : vu) if(n <= 8 || g(0, (int)(ou.size() * vu.size() + od.size() * vd.size()) / 12) == 0) one(0, v, o);
  for(auto o : od) for(auto v : vd) if(n <= 8 || g(0, (int)(ou.size() * vu.size() + od.size() * vd.size()) / 12) == 0) one(1, v, o);
  r("ex", ex)("exs", exs)("same", same);
  // flips
  std::vector<std::vector<int>> fl; slater_det w(d);
  int m = std::min(2 * n, 12);
  std::vector<int> fi; for(int i = 0; i < m; ++i) { int b = n <= 6 ? i : g(0, 2 * n - 1); fi.push_back(b); w.Flip(b); fl.push_back(bits(w.GetState())); }
  r("fi", fi)("fl", fl);
  (*out)(r);
}
void pairrec(const slater_det& a, const slater_det& b, int n) {
  u64 A = a.GetState(), B = b.GetState(), lo = n == 64 ? ~0ull : ((u64(1) << n) - 1);
  auto fi = [&](u64 m, u64 x) { return x ? (long)m : -1L; };
  u64 d = A & ~B;
  Rec r("cmp"); r("n", n)("a", bits(A))("b", bits(B))("c", (int)a.CountExc(b))("cu", (int)a.CountExcUp(b))("cd", (int)a.CountExcDo(b))
    ("lt", a < b)("eq", a == b)
    ("f", d ? (long)a.GetFlippedOccIndx(b) : -1L)("fu", (d & lo) ? (long)a.GetFlippedOccIndxUp(b) : -1L)("fd", (d & ~lo) ? (long)a.GetFlippedOccIndxDo(b) : -1L);
  (*out)(r);
}
slater_det rdet(vh::Rng& g, int n, int a, int b) { return slater_det(strg(g, n, a) | (strg(g, n, b) << n), n, a, b); }
// A determinant at most two substitutions away (mostly)
slater_det near(vh::Rng& g, const slater_det& d, int n) {
  slater_det x(d); std::vector<u64> o, v; double s;
  int k = g(0, 3);
  for(int i = 0; i < k; ++i) {
    int sp = g(0, 1);
    if(sp == 0) { x.GetOccsAndVirtsUp(o, v); if(o.size() && v.size()) x = x.GetSingExUpSt(v[g(0, v.size() - 1)], o[g(0, o.size() - 1)], s); }
    else { x.GetOccsAndVirtsDo(o, v); if(o.size() && v.size()) x = x.GetSingExDoSt(v[g(0, v.size() - 1)], o[g(0, o.size() - 1)], s); }
  }
  return x;
}
void sd(const slater_det& d, int n, int k, int z) {
  auto g = make(n, k, z);
  auto s = d.GetSinglesAndDoubles(), t = d.GetSinglesAndDoubles(&g);
  Rec r("sd"); r("n", n)("k", k)("z", z)("s", bits(d.GetState()))("sd", detsv(s))("si", detsv(t)); (*out)(r);
}
void row(const slater_det& bra, const std::vector<slater_det>& kets, int n, int k, int z) {
  auto g = make(n, k, z); FermionHamil H(g);
  std::vector<long> h, ht; for(auto& x : kets) { h.push_back(vh::I(H.GetHmatel(bra, x))); ht.push_back(vh::I(H.GetHmatel(x, bra))); }
  Rec r("row"); r("n", n)("k", k)("z", z)("bra", bits(bra.GetState()))("kets", detsv(kets))("h", h)("ht", ht)("no", (int)H.GetNorbs()); (*out)(r);
}
std::vector<std::vector<long>> coo(const SpMatD& m) {
  std::vector<std::vector<long>> o;
  for(int i = 0; i < m.outerSize(); ++i) for(SpMatD::InnerIterator it(m, i); it; ++it) o.push_back({(long)it.row(), (long)it.col(), vh::I(it.value())});
  return o;
}
std::vector<std::vector<long>> pr(const std::vector<std::pair<size_t, size_t>>& p) { std::vector<std::vector<long>> o; for(auto& x : p) o.push_back({(long)x.first, (long)x.second}); return o; }
void block(const SetSlaterDets& s, int n, int k, int z) {
  auto g = make(n, k, z); FermionHamil H(g);
  Rec r("block"); r("n", n)("k", k)("z", z)("d", dets(s));
  r("ps", pr(GetSingDoublPairs(s)));
  auto p1 = quiet([&] { return H.GetHpairs(s); });
  r("p1", pr(p1))("p2", pr(quiet([&] { return H.GetHpairs_dloop(s); })));
  auto m = quiet([&] { return GetHmat(&H, s, false); });
  auto m1 = quiet([&] { return GetHmat_FromPairs(&H, s, p1); });
  r("rows", (long)m.rows())("cols", (long)m.cols())("m", coo(m))("rows1", (long)m1.rows())("cols1", (long)m1.cols())("m1", coo(m1));
  (*out)(r);
}
void rdmrec(const SetSlaterDets& s, int n, const std::vector<int>& c, int k) {
  VectorXd v(c.size()); for(size_t i = 0; i < c.size(); ++i) v(i) = c[i];
  cmz::ed::rdm::rdms d(n, v, s);
  std::vector<long> o1, o2;
  for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) o1.push_back(vh::I(d.get(p, q)));
  // <p r | q s>: physicists' order of getPhys; written as (pq|rs), p fastest
  for(int t = 0; t < n; ++t) for(int r = 0; r < n; ++r) for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) o2.push_back(vh::I(d.getPhys(p, r, q, t), 2));
  auto g = make(n, k, 0);
  double e = 0; for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) { e += d.get(p, q) * g.get(p, q); for(int r = 0; r < n; ++r) for(int t = 0; t < n; ++t) e += d.getPhys(p, r, q, t) * g.getPhys(p, r, q, t); }
  Rec r("rdm"); r("n", n)("k", k)("d", dets(s))("c", c)("o1", o1)("o2", o2)("e", vh::I(e)); (*out)(r);
}
// what comes out with several threads is what one thread makes of it
template <class Fn> void threadsrec(const char* what, int rep, Fn fn) {
  omp_set_num_threads(1); std::vector<double> one = fn(); std::vector<long> d;
  for(int r = 0; r < rep; ++r) for(int t : {1, 2, 8}) {
    omp_set_num_threads(t); std::vector<double> x = fn(); double m = x.size() == one.size() ? 0 : 1e3;
    for(size_t i = 0; i < x.size() && i < one.size(); ++i) { double e = std::abs(x[i] - one[i]); if(!(e <= m)) m = e == e ? e : 1e3; }
    d.push_back((long)std::llround(std::min(m, 1e3) * 1e6)); }
  omp_set_num_threads(1); Rec r("threads"); r("what", what)("size", (long)one.size())("d", d); (*out)(r);
}
}
int main(int argc, char** argv) {
  Out o(""); out = &o; vh::Rng g(30);
  std::string mode = argc > 1 ? argv[1] : "all";
  if(mode == "det" || mode == "all") {
    combs(); spaces(g);
    for(int n = 1; n <= 4; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(auto& d : BuildFullHilbertSpace(n, a, b)) det(d, n, g);
    std::vector<int> ns = {8, 15, 16, 17, 24, 31, 32};
    for(int n : ns) for(int i = 0; i < (thorough() ? 20 : 4); ++i) { auto d = rdet(g, n, g(0, n), g(0, n)); det(d, n, g); }
    for(int n : {2, 3}) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) { auto S = BuildFullHilbertSpace(n, a, b); for(auto& x : S) for(auto& y : S) pairrec(x, y, n); }
    for(int n : ns) for(int i = 0; i < (thorough() ? 60 : 12); ++i) { auto d = rdet(g, n, g(0, n), g(0, n)); pairrec(d, near(g, d, n), n); pairrec(d, rdet(g, n, d.GetNup(), d.GetNdo()), n); }
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(auto& d : BuildFullHilbertSpace(n, a, b)) sd(d, n, g(0, 9), g(0, 2));
    for(int i = 0; i < 6; ++i) { auto d = rdet(g, 4, g(1, 3), g(1, 3)); sd(d, 4, g(0, 9), g(0, 2)); }
    sd(rdet(g, 6, 3, 2), 6, 3, 1); sd(rdet(g, 6, 2, 3), 6, 4, 2); sd(rdet(g, 16, 1, 2), 16, 4, 1); 
    if(thorough()) sd(rdet(g, 17, 1, 1), 17, 4, 2);
  }
  if(mode == "ham" || mode == "all") {
    for(int t = 0; t < (thorough() ? 8 : 3); ++t) {
      auto S = BuildFullHilbertSpace(5, 2 + t % 2, 3); auto gg = make(5, g(0, 30), t % 3); FermionHamil H(gg);
      auto flat = [](const SpMatD& m) { std::vector<double> v{(double)m.rows(), (double)m.cols()}; for(auto& x : coo(m)) v.insert(v.end(), x.begin(), x.end()); return v; };
      auto pairs = quiet([&] { return H.GetHpairs(S); });
      threadsrec("hmat", 3, [&] { return flat(quiet([&] { return GetHmat(&H, S, false); })); });
      threadsrec("hmatp", 3, [&] { return flat(quiet([&] { return GetHmat_FromPairs(&H, S, pairs); })); });
    }
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) {
      auto S = BuildFullHilbertSpace(n, a, b); std::vector<slater_det> v(S.begin(), S.end());
      int k = g(0, 20), z = g(0, 3) % 3; for(auto& x : v) row(x, v, n, k, z);
    }
    for(int n : {4, 5, 6}) for(int i = 0; i < (thorough() ? 20 : 6); ++i) {
      int a = g(0, n), b = g(0, n); auto d = rdet(g, n, a, b); std::vector<slater_det> v; for(int j = 0; j < 30; ++j) v.push_back(near(g, d, n)); row(d, v, n, g(0, 30), g(0, 3) % 3);
    }
    for(int n : {12, 16, 17, 20, 32}) for(int i = 0; i < (thorough() ? 4 : 2); ++i) {
      if(n == 32 && i > 0 && !thorough()) continue;
      int a = g(1, 5), b = g(1, 5); auto d = rdet(g, n, a, b); std::vector<slater_det> v; for(int j = 0; j < 40; ++j) v.push_back(near(g, d, n)); row(d, v, n, g(0, 30), 0);
    }
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int z = 0; z < 3; ++z) block(BuildFullHilbertSpace(n, a, b), n, g(0, 30), z);
    for(int n : {4, 5, 17}) for(int i = 0; i < (thorough() ? 12 : 3); ++i) {
      if(n == 17 && i > 0) continue;
      auto d = rdet(g, n, g(1, n > 5 ? 3 : n - 1), g(1, n > 5 ? 3 : n - 1)); SetSlaterDets S; S.insert(d); for(int j = 0; j < 14; ++j) S.insert(near(g, d, n));
      if(n != 17) for(int j = 0; j < 3; ++j) S.insert(rdet(g, n, d.GetNup(), d.GetNdo()));
      block(S, n, g(0, 30), i % 3);
    }
  }
  if(mode == "rdm" || mode == "all") {
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) {
      auto S = BuildFullHilbertSpace(n, a, b); std::vector<int> c; for(size_t i = 0; i < S.size(); ++i) c.push_back(g(-3, 3)); rdmrec(S, n, c, g(0, 30));
    }
    for(auto [a, b] : std::vector<std::pair<int, int>>{{0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 3}, {3, 2}}) {
      auto S = BuildFullHilbertSpace(4, a, b); std::vector<int> c; for(size_t i = 0; i < S.size(); ++i) c.push_back(g(-3, 3)); rdmrec(S, 4, c, g(0, 30));
    }
    for(int i = 0; i < (thorough() ? 20 : 8); ++i) {
      int n = 4; auto d = rdet(g, n, g(0, 4), g(0, 4)); SetSlaterDets S; S.insert(d); for(int j = 0; j < 6; ++j) S.insert(near(g, d, n));
      std::vector<int> c; for(size_t j = 0; j < S.size(); ++j) c.push_back(g(-3, 3)); rdmrec(S, n, c, g(0, 30));
    }
  }
}
