// Histories of sparse-matrix operations, products and files (P14-P17).
#include "common.hpp"
#include <functional>
#include <numeric>
#include <cmath>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <sstream>
#include <omp.h>
#include <unistd.h>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/graph.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
using namespace vh;
using namespace sparsexx;
static Out out;
static Rng rnd(14);

// Values are small integers times Q, which may have a full mantissa where values are only moved:
// the integer comes back only from exactly that number.
static double Q = 1;
static long dec(double x) {
  if(Q == 1) return I(x);
  double r = std::nearbyint(x / Q); return std::abs(r) < 1.9e9 && r * Q == x ? (long)r : BAD;
}
static double mantissa() { return rnd(0, 3) ? (1 + rnd(0, 999999999) / 1e9 + rnd(0, 999999999) / 1e18) * std::ldexp(1., rnd(-60, 60)) : 1.; }
static double binary() { return rnd.coin() ? 1. : std::ldexp(1., rnd(-40, 40)); }
template <class V> std::vector<long> L(const V& v) { std::vector<long> o; for(auto x : v) o.push_back((long)x); return o; }
template <class V> std::vector<long> LI(const V& v) { std::vector<long> o; for(auto x : v) o.push_back(dec((double)x)); return o; }
template <class T, class X> std::string rep(const coo_matrix<T, X>& A) {
  return "{\"f\":\"coo\",\"m\":" + js(A.m()) + ",\"n\":" + js(A.n()) + ",\"nnz\":" + js(A.nnz()) + ",\"x\":" + js(A.indexing()) + ",\"r\":" + js(L(A.rowind())) +
         ",\"c\":" + js(L(A.colind())) + ",\"v\":" + js(LI(A.nzval())) + ",\"p\":[],\"rs\":" + js(A.is_sorted_by_row_index()) + ",\"cs\":" + js(A.is_sorted_by_col_index()) + "}";
}
template <class T, class X> std::string rep(const csr_matrix<T, X>& A) {
  return "{\"f\":\"csr\",\"m\":" + js(A.m()) + ",\"n\":" + js(A.n()) + ",\"nnz\":" + js(A.nnz()) + ",\"x\":" + js(A.indexing()) + ",\"p\":" + js(L(A.rowptr())) +
         ",\"c\":" + js(L(A.colind())) + ",\"v\":" + js(LI(A.nzval())) + ",\"r\":[]}";
}
template <class T, class X> std::string rep(const csc_matrix<T, X>& A) {
  return "{\"f\":\"csc\",\"m\":" + js(A.m()) + ",\"n\":" + js(A.n()) + ",\"nnz\":" + js(A.nnz()) + ",\"x\":" + js(A.indexing()) + ",\"p\":" + js(L(A.colptr())) +
         ",\"r\":" + js(L(A.rowind())) + ",\"v\":" + js(LI(A.nzval())) + ",\"c\":[]}";
}
struct Pat { int m, n; std::vector<std::pair<int, int>> at; };
static std::vector<double> distinct(size_t k, bool zeros) {
  std::vector<double> v(k); for(size_t i = 0; i < k; ++i) v[i] = (i % 2 ? -1. : 1.) * (double)(i + 1);
  for(size_t i = k; i-- > 1;) std::swap(v[i], v[rnd(0, i)]);
  if(zeros && k) v[rnd(0, k - 1)] = 0;
  for(auto& x : v) x *= Q;
  return v;
}
template <class T, class X> coo_matrix<T, X> make_coo(const Pat& p, int base, bool shuffle) {
  auto at = p.at;
  if(shuffle) for(size_t i = at.size(); i-- > 1;) std::swap(at[i], at[rnd(0, i)]);
  auto vals = distinct(at.size(), rnd(0, 5) == 0);
  if(rnd.coin()) {
    coo_matrix<T, X> A(p.m, p.n, at.size(), base);
    for(size_t k = 0; k < at.size(); ++k) { A.rowind()[k] = at[k].first + base; A.colind()[k] = at[k].second + base; A.nzval()[k] = (T)vals[k]; }
    return A;
  }
  std::vector<X> r, c; std::vector<T> v;
  for(size_t k = 0; k < at.size(); ++k) { r.push_back(at[k].first + base); c.push_back(at[k].second + base); v.push_back((T)vals[k]); }
  return coo_matrix<T, X>(p.m, p.n, std::move(c), std::move(r), std::move(v), base);
}
template <class X> csr_matrix<double, X> make_csr(const Pat& p, int base) {   // rows ascending, without using the conversions
  auto at = p.at; std::sort(at.begin(), at.end());
  auto vals = distinct(at.size(), rnd(0, 5) == 0);
  std::vector<X> rp(p.m + 1, base), ci;
  for(auto& a : at) { rp[a.first + 1]++; ci.push_back(a.second + base); }
  for(int i = 0; i < p.m; ++i) rp[i + 1] += rp[i] - base;
  return csr_matrix<double, X>(p.m, p.n, std::move(rp), std::move(ci), std::move(vals));
}
static Pat random_pat(int m, int n, int dens) {
  Pat p{m, n, {}};
  for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) if(rnd(0, 99) < dens) p.at.push_back({i, j});
  if(rnd(0, 3) == 0 && m > 1) { int z = rnd(0, m - 1); p.at.erase(std::remove_if(p.at.begin(), p.at.end(), [&](auto a) { return a.first == z; }), p.at.end()); }
  if(rnd(0, 3) == 0 && n > 1) { int z = rnd(0, n - 1); p.at.erase(std::remove_if(p.at.begin(), p.at.end(), [&](auto a) { return a.second == z; }), p.at.end()); }
  if(rnd(0, 3) == 0) { bool up = rnd.coin(); p.at.erase(std::remove_if(p.at.begin(), p.at.end(), [&](auto a) { return up ? a.first > a.second : a.first < a.second; }), p.at.end()); }
  return p;
}
static std::vector<int> random_perm(int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for(int i = n; i-- > 1;) std::swap(p[i], p[rnd(0, i)]); return p; }

template <class T, class X> struct Hist {
  using COO = coo_matrix<T, X>; using CSR = csr_matrix<T, X>; using CSC = csc_matrix<T, X>;
  COO a; CSR b; CSC c; char f = 'o';
  std::string init; std::vector<std::string> steps;
  std::string cur() { return f == 'o' ? rep(a) : f == 'r' ? rep(b) : rep(c); }
  void step(const std::string& o, const std::string& extra = "") { steps.push_back("{\"o\":\"" + o + "\"" + extra + ",\"out\":" + cur() + "}"); }
  template <class M> void dense(const M& A) {
    int ld = A.m() + rnd(0, 2);
    std::vector<T> D((size_t)ld * A.n() + 1, (T)(777 * Q));
    for(int j = 0; j < A.n(); ++j) for(int i = 0; i < A.m(); ++i) D[i + j * ld] = 0;
    convert_to_dense(A, D.data(), ld);
    step("dense", ",\"ld\":" + js(ld) + ",\"d\":" + js(LI(D)));
  }
  template <class M> void copies(M& A) {   // value semantics
    M cp(A); M as; as = A; M mv(std::move(cp)); A = M(); A = std::move(as); M z(A); (void)mv;
    auto keep = rep(A); if(z.nnz()) { z.nzval()[0] = (T)555; }
    step("copy", ",\"same\":" + js(keep == rep(mv)));
  }
  void run(int len) {
    init = rep(a);
    for(int s = 0; s < len; ++s) {
      int k = rnd(0, 7);
      if(f == 'o') {
        if(k == 0) { a.sort_by_row_index(); step("sortrow"); }
        else if(k == 1) { a.sort_by_col_index(); step("sortcol"); }
        else if(k <= 3) { try { CSR t(a); b = t; f = 'r'; step("tocsr"); } catch(std::exception&) { step("tocsr!"); } }
        else if(k == 4) { try { CSC t(a); c = t; f = 'c'; step("tocsc"); } catch(std::exception&) { step("tocsc!"); } }
        else if(k == 5) { a.expand_from_triangle(); step("expand"); }
        else if(k == 6) {
          bool z = a.indexing() == 1; for(auto x : a.rowind()) z |= x == 0; for(auto x : a.colind()) z |= x == 0;
          if(z) { a.determine_indexing_from_adj(); step("detidx"); } else copies(a);
        } else dense(a);
      } else if(f == 'r') {
        if(k <= 1) { COO t(b); a = t; f = 'o'; step("tocoo"); }
        else if(k <= 3) { int x = rnd(0, 1); b.set_indexing(x); step("setidx", ",\"arg\":" + js(x)); }
        else if(k == 4) dense(b);
        else if(k == 5) copies(b);
        else if(k == 6) { b.shrink_storage_to_fit(); step("shrink", ",\"mem\":" + js(b.mem_footprint() >= (long)(b.nnz() * (sizeof(T) + sizeof(X)) + (b.m() + 1) * sizeof(X)))); }
        else {
          CSR d(b); bool e0 = d == b, e1 = !(d != b), e2 = true, e3 = true;
          if(d.nnz()) { auto q = d; q.nzval()[rnd(0, d.nnz() - 1)] += (T)Q; e2 = q != b; }
          { auto q = d; q.set_indexing(1 - q.indexing()); e3 = q != b; }
          step("equal", ",\"res\":" + js(std::vector<bool>{e0, e1, e2, e3}));
        }
      } else {
        if(k <= 5) { CSR t(c); b = t; f = 'r'; step("tocsr"); }
        else copies(c);
      }
    }
  }
  void emit(const char* ty) {
    Rec r("hist"); r("t", ty).raw("init", init);
    std::string s = "["; for(size_t i = 0; i < steps.size(); ++i) { if(i) s += ","; s += steps[i]; } r.raw("steps", s + "]");
    out(r);
  }
};
// storage of a given shape, and what copying and moving a container hands on
template <class Mtx> static void shape(Out& o, const char* kind, Mtx M, std::function<std::string(const Mtx&)> rp) {
  Mtx C(M), D; D = M; std::string c = rp(C), d = rp(D);
  Mtx E(std::move(C)), G; G = std::move(D);
  Rec r("own"); r("k", kind).raw("in", rp(M)).raw("copy", c).raw("assign", d).raw("moved", rp(E)).raw("movea", rp(G)); o(r);
}
template <class X> static void shapes() {
  for(int m : {1, 3}) for(int n : {1, 4}) for(int z : {0, 2, 5}) for(int b : {-1, 0, 1}) {
    auto go = [&](const char* k, auto mk, int ptr, auto len) {
      auto A = b < 0 ? mk(0) : mk(1);
      Rec r("shape"); r("k", k)("b", b)("want", std::vector<int>{m, n, z})("got", std::vector<int>{(int)A.m(), (int)A.n(), (int)A.nnz(), (int)A.indexing()})("len", len(A))("ptr", ptr); out(r);
    };
    go("csr", [&](int q) { return q ? csr_matrix<double, X>(m, n, z, b) : csr_matrix<double, X>(m, n, z); }, m + 1, [](const auto& A) { return std::vector<int>{(int)A.nzval().size(), (int)A.colind().size(), (int)A.rowptr().size()}; });
    go("csc", [&](int q) { return q ? csc_matrix<double, X>(m, n, z, b) : csc_matrix<double, X>(m, n, z); }, n + 1, [](const auto& A) { return std::vector<int>{(int)A.nzval().size(), (int)A.rowind().size(), (int)A.colptr().size()}; });
    go("coo", [&](int q) { return q ? coo_matrix<double, X>(m, n, z, b) : coo_matrix<double, X>(m, n, z); }, z, [](const auto& A) { return std::vector<int>{(int)A.nzval().size(), (int)A.rowind().size(), (int)A.colind().size()}; });
  }
  for(int it = 0; it < 20; ++it) {
    auto p = random_pat(rnd(1, 5), rnd(1, 5), rnd(10, 80));
    auto A = make_coo<double, X>(p, rnd(0, 1), false); A.sort_by_row_index();
    csr_matrix<double, X> R(A); A.sort_by_col_index(); csc_matrix<double, X> S(A);
    shape<decltype(A)>(out, "coo", A, [](const auto& x) { return rep(x); });
    shape<decltype(R)>(out, "csr", R, [](const auto& x) { return rep(x); });
    shape<decltype(S)>(out, "csc", S, [](const auto& x) { return rep(x); });
  }
}


template <class T, class X> void hist(const Pat& p, int base, bool sh, int len, const char* ty) { Q = std::is_same_v<T, double> ? mantissa() : binary(); Hist<T, X> h; h.a = make_coo<T, X>(p, base, sh); h.run(len); h.emit(ty); Q = 1; }

static void conv() {
  // every pattern of the small shapes
  for(auto sh : std::vector<std::pair<int, int>>{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 1}, {4, 2}, {2, 4}}) {
    int m = sh.first, n = sh.second, cells = m * n;
    for(int bits = 0; bits < (1 << cells); ++bits) {
      if(cells == 9 && !thorough() && bits % 3 != (int)seed() % 3) continue;
      if(cells == 8 && !thorough() && bits % 2 != (int)seed() % 2) continue;
      Pat p{m, n, {}}; for(int c = 0; c < cells; ++c) if(bits >> c & 1) p.at.push_back({c / n, c % n});
      int base = rnd(0, 1);
      switch(rnd(0, 2)) {
        case 0: hist<double, int32_t>(p, base, rnd.coin(), 5, "d32"); break;
        case 1: hist<double, int64_t>(p, base, rnd.coin(), 5, "d64"); break;
        default: hist<float, int32_t>(p, base, rnd.coin(), 5, "f32");
      }
    }
  }
  for(int it = 0; it < (thorough() ? 3000 : 500); ++it) {
    bool large = it % 100 < 3;
    int m = large ? rnd(15, 48) : rnd(1, 7), n = large ? it % 100 == 2 ? m = 48 : m : rnd(0, 2) ? rnd(1, 7) : m;
    auto p = random_pat(m, n, it % 100 == 2 ? 95 : large ? rnd(3, 40) : rnd(10, 80));
    if(it % 100 == 2) { bool up = rnd.coin(); p.at.erase(std::remove_if(p.at.begin(), p.at.end(), [&](auto a) { return up ? a.first > a.second : a.first < a.second; }), p.at.end()); }
    if(it % 2) hist<double, int32_t>(p, rnd(0, 1), rnd.coin(), rnd(4, 12), "d32"); else hist<double, int64_t>(p, rnd(0, 1), rnd.coin(), rnd(4, 12), "d64");
  }
  shapes<int32_t>(); shapes<int64_t>();
  // constructor argument checking
  for(int a = 0; a < 3; ++a) for(int b = 0; b < 3; ++b) for(int c = 0; c < 3; ++c) {
    std::vector<int> ci(a, 1), ri(b, 1); std::vector<double> v(c, 1.); bool thrown = false; long nnz = -1;
    try { coo_matrix<double, int> A(1, 1, std::move(ci), std::move(ri), std::move(v)); nnz = A.nnz(); } catch(std::exception&) { thrown = true; }
    out(Rec("cooctor")("len", std::vector<int>{a, b, c})("thrown", thrown)("nnz", nnz));
  }
  for(int ld = 0; ld < 5; ++ld) {   // leading dimension too small is refused
    Pat p{3, 2, {{2, 1}}}; auto A = make_coo<double, int>(p, 0, false); csr_matrix<double, int> B(A); std::vector<double> D(20); int t = 0;
    try { convert_to_dense(A, D.data(), ld); } catch(std::exception&) { t |= 1; }
    try { convert_to_dense(B, D.data(), ld); } catch(std::exception&) { t |= 2; }
    out(Rec("densld")("m", 3)("ld", ld)("thrown", t));
  }
}

template <class X> void part1(const Pat& p, int base) {
  Q = binary();
  auto A = make_csr<X>(p, base);
  int m = p.m, n = p.n;
  auto rec = [&](const char* o) { Rec r("part"); r("o", o).raw("in", rep(A)); return r; };
  { int a = rnd(0, m), b = rnd(a, m), c = rnd(0, n), d = rnd(c, n);
    auto S = extract_submatrix(A, {a, c}, {b, d}); out(rec("sub")("lo", std::vector<int>{a, c})("up", std::vector<int>{b, d}).raw("out", rep(S)));
    auto E = extract_submatrix_inclrow_exclcol(A, {a, c}, {b, d}); out(rec("subx")("lo", std::vector<int>{a, c})("up", std::vector<int>{b, d}).raw("out", rep(E))); }
  out(rec("upper").raw("out", rep(extract_upper_triangle(A))));
  out(rec("diag")("res", LI(extract_diagonal_elements(A))));
  out(rec("trace")("res", dec(trace(A))));
  auto pr = random_perm(m), pc = random_perm(n);
  std::vector<X> prx(pr.begin(), pr.end()), pcx(pc.begin(), pc.end());
  out(rec("permr")("p", pr).raw("out", rep(permute_rows(A, prx))));
  out(rec("permc")("p", pc).raw("out", rep(permute_cols(A, pcx))));
  out(rec("permrc")("p", pr)("q", pc).raw("out", rep(permute_rows_cols(A, prx, pcx))));
  if(m == n) { for(int ri : {0, 1, -1}) { auto [rp, ci] = ri < 0 ? extract_adjacency(A) : extract_adjacency(A, ri); if(ri < 0) ri = 0; out(rec("adj")("x", ri)("rp", L(rp))("ci", L(ci))); } }
  // a chain: permute, cut, permute back, as the distributed drivers do
  auto B = permute_rows_cols(A, prx, pcx);
  { int a = rnd(0, m), b = rnd(a, m), c = rnd(0, n), d = rnd(c, n);
    out(rec("chain")("p", pr)("q", pc)("lo", std::vector<int>{a, c})("up", std::vector<int>{b, d}).raw("out", rep(extract_submatrix(B, {a, c}, {b, d})))); }
  auto C = permute_rows_cols(B, invert_perm(prx), invert_perm(pcx));
  out(rec("back")("p", pr)("q", pc).raw("out", rep(C)));
  Q = 1;
}
static void threads_part();
static void part() {
  threads_part();
  for(auto sh : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}})
    for(int bits = 0; bits < (1 << (sh.first * sh.second)); ++bits) {
      Pat p{sh.first, sh.second, {}}; for(int c = 0; c < sh.first * sh.second; ++c) if(bits >> c & 1) p.at.push_back({c / sh.second, c % sh.second});
      if(rnd.coin()) part1<int32_t>(p, rnd(0, 1)); else part1<int64_t>(p, rnd(0, 1));
    }
  for(int it = 0; it < (thorough() ? 2500 : 300); ++it) {
    bool large = it % 60 < 2;
    int m = large ? rnd(20, 40) : rnd(1, 9), n = rnd(0, 2) && !(large && it % 2) ? large ? rnd(20, 40) : rnd(1, 9) : m; auto p = random_pat(m, n, large ? rnd(5, 70) : rnd(10, 90));
    if(it % 2) part1<int32_t>(p, rnd(0, 1)); else part1<int64_t>(p, rnd(0, 1));
  }
  for(int it = 0; it < 150; ++it) {   // partitions and permutations of vectors
    int n = rnd(0, 9), np = rnd(1, 4); std::vector<int32_t> pt(n); for(auto& x : pt) x = rnd(0, np - 1);
    auto [perm, ptr] = perm_from_part<int32_t>(np, pt);
    out(Rec("frompart")("np", np)("part", L(pt))("perm", L(perm))("ptr", L(ptr)));
    auto p = random_perm(n); std::vector<int64_t> px(p.begin(), p.end()); std::vector<double> v(n), f(n), b(n), fi, bi; for(auto& x : v) x = rnd(-9, 9);
    permute_vector(n, v.data(), px.data(), f.data(), PermuteDirection::Forward);
    permute_vector(n, v.data(), px.data(), b.data(), PermuteDirection::Backward);
    fi = v; permute_vector(n, fi.data(), px.data(), PermuteDirection::Forward);
    bi = v; permute_vector(n, bi.data(), px.data(), PermuteDirection::Backward);
    out(Rec("permvec")("p", p)("v", I(v))("f", I(f))("b", I(b))("fi", I(fi))("bi", I(bi))("inv", L(invert_perm(px))));
  }
}

static std::vector<std::vector<long>> cols(const std::vector<double>& v, int m, int k, int ld) {
  std::vector<std::vector<long>> o(k); for(int j = 0; j < k; ++j) for(int i = 0; i < m; ++i) o[j].push_back(I(v[i + (size_t)j * ld])); return o;
}
static bool guard(const std::vector<double>& a, const std::vector<double>& b, int m, int k, int ld) {   // outside the block nothing changed
  for(size_t q = 0; q < a.size(); ++q) { bool in = (int)(q % ld) < m && (int)(q / ld) < k; if(!in && a[q] != b[q]) return false; } return true;
}
template <class M> void prod1(const M& A, const char* fmt) {
  int m = A.m(), n = A.n(), K = rnd(0, 4), ldv = n + rnd(0, 3), ldw = m + rnd(0, 3);
  double al = rnd(-2, 2), be = rnd(-2, 2);
  std::vector<double> V((size_t)ldv * (K + 1)), W((size_t)ldw * (K + 1)); for(auto& x : V) x = rnd(-5, 5); for(auto& x : W) x = rnd(-5, 5);
  auto V0 = V, W0 = W;
  const auto in = rep(A); M S(A);               // the operands in other units
  double u = rnd.coin() ? 1. : std::ldexp(1., rnd(-40, 20)), w = rnd.coin() ? 1. : std::ldexp(1., rnd(-40, 20));
  for(auto& x : S.nzval()) x *= u; for(auto& x : V) x *= w; for(auto& x : W) x *= u * w; const auto Vs = V;
  if(rnd.coin()) spblas::gespmbv(K, al, S, V.data(), ldv, be, W.data(), ldw);
  else spblas::gespmbv(K, (int)al, S, V.data(), ldv, (int)be, W.data(), ldw);
  bool vs = V == Vs; for(auto& x : W) x /= u * w;
  out(Rec("prod").raw("in", in)("al", I(al))("be", I(be))("V", cols(V0, n, K, ldv))("W", cols(W0, m, K, ldw))("R", cols(W, m, K, ldw))("ok", vs && guard(W, W0, m, K, ldw)));
}
static void threads_prod();
static void prod() {
  threads_prod();
  for(int it = 0; it < (thorough() ? 6000 : 900); ++it) {
    bool large = rnd(0, 39) == 0;
    int m = large ? rnd(15, 40) : rnd(1, 8), n = large ? rnd(15, 40) : rnd(1, 8); auto p = random_pat(m, n, large ? rnd(3, 40) : rnd(5, 90)); int base = rnd(0, 1);
    omp_set_num_threads(rnd(1, 4));
    switch(it % 4) {
      case 0: prod1(make_csr<int32_t>(p, base), "csr"); break;
      case 1: prod1(make_csr<int64_t>(p, base), "csr"); break;
      case 2: prod1(make_coo<double, int32_t>(p, base, true), "coo"); break;
      default: prod1(make_coo<double, int64_t>(p, base, true), "coo");
    }
  }
}

// larger operands, so that threads really work side by side: what comes out is
// compared with what one thread makes of it
static long digest(const std::vector<double>& v) { unsigned long h = 7; for(double x : v) h = (h * 31 + (unsigned long)(I(x) + 100000007)) % 1000000007; return (long)h; }
template <class Fn> static void threads1(const char* what, int rep, Fn fn) {
  std::vector<long> d; omp_set_num_threads(1); d.push_back(digest(fn()));
  for(int r = 0; r < rep; ++r) for(int t : {2, 3, 8}) { omp_set_num_threads(t); d.push_back(digest(fn())); }
  omp_set_num_threads(2); out(Rec("threads")("what", what)("d", d));
}
template <class T, class X> static std::vector<double> flat(const csr_matrix<T, X>& A) {
  std::vector<double> r; for(auto x : A.rowptr()) r.push_back(x); for(auto x : A.colind()) r.push_back(x); for(auto x : A.nzval()) r.push_back(x); return r; }
static Pat big_pat(int m, int n, int shape) {
  Pat p{m, n, {}};
  for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j)
    if(shape == 0 ? rnd(0, 9) == 0 : shape == 1 ? i % 41 == 3 : shape == 2 ? j % 37 == 5 : (i == j || i + 1 == j || i % 60 == 0)) p.at.push_back({i, j});
  return p;
}
static void threads_prod() {
  int rep = thorough() ? 40 : 6;
  for(int sh = 0; sh < 4; ++sh) {
    int m = rnd(150, 260), n = rnd(150, 260), K = rnd(1, 4); auto p = big_pat(m, n, sh);
    auto A = make_csr<int32_t>(p, sh % 2); auto C = make_coo<double, int64_t>(p, 1 - sh % 2, true);
    std::vector<double> V((size_t)n * K), W((size_t)m * K); for(auto& x : V) x = rnd(-5, 5); for(auto& x : W) x = rnd(-5, 5);
    threads1("csr", rep, [&] { auto R = W; spblas::gespmbv(K, 2., A, V.data(), n, -1., R.data(), m); return R; });
    threads1("coo", rep, [&] { auto R = W; spblas::gespmbv(K, 2., C, V.data(), n, -1., R.data(), m); return R; });
    threads1("dense", rep, [&] { std::vector<double> D((size_t)m * n, 0.); convert_to_dense(A, D.data(), m); return D; });
  }
}
static void threads_part() {
  int rep = thorough() ? 40 : 6;
  for(int sh = 0; sh < 4; ++sh) {
    int m = rnd(150, 260), n = sh % 2 ? m : rnd(150, 260); auto A = make_csr<int32_t>(big_pat(m, n, sh), sh / 2);
    auto pr = random_perm(m), pc = random_perm(n); std::vector<int32_t> prx(pr.begin(), pr.end()), pcx(pc.begin(), pc.end());
    threads1("permr", rep, [&] { return flat(permute_rows(A, prx)); });
    threads1("permc", rep, [&] { return flat(permute_cols(A, pcx)); });
    threads1("permrc", rep, [&] { return flat(permute_rows_cols(A, prx, pcx)); });
    threads1("sub", rep, [&] { return flat(extract_submatrix(A, {3, 5}, {m - 2, n - 1})); });
  }
}
// ------------------------------------------------------------------- files
static std::string dir;
static std::vector<std::vector<long>> body(const std::string& f, bool& hdr, std::vector<long>& dims) {   // an independent reading of the text
  std::ifstream in(f); std::string l; std::getline(in, l); hdr = l.rfind("%%MatrixMarket matrix coordinate real general", 0) == 0;
  std::vector<std::vector<long>> o; bool first = true; double a, b, c;
  while(std::getline(in, l)) { if(l.size() && l[0] == '%') continue; std::istringstream s(l); std::vector<long> t; double x; while(s >> x) t.push_back(t.size() == 2 && !first ? dec(x) : I(x)); if(first) { dims = t; first = false; } else o.push_back(t); }
  return o;
}
template <class M> std::string readmm(const std::string& f) { try { return rep(read_mm<M>(f)); } catch(std::exception&) { return "{\"f\":\"throw\"}"; } }
// a file cut short: anywhere, or after a whole line
template <class Rd> void cut(const char* what, const std::string& f, bool lines, Rd read) {
  std::string t; { std::ifstream i(f, std::ios::binary); t.assign(std::istreambuf_iterator<char>(i), {}); }
  size_t n = rnd(0, (int)t.size() - 1);
  if(lines) { while(n && t[n - 1] != '\n') --n; }
  { std::ofstream o(f + "u", std::ios::binary); o << t.substr(0, n); }
  bool th = false; try { read(f + "u"); } catch(std::exception&) { th = true; }
  unlink((f + "u").c_str());
  out(Rec("refuse")("what", what)("at", (int)n)("thrown", th));
}
template <class X> void files1(int it) {
  Q = mantissa();
  int m = rnd(1, 7), n = rnd(1, 7); if(it % 3 == 0) n = m;
  auto p = random_pat(m, n, rnd(10, 80)); int base = rnd(0, 1);
  std::string f = dir + "/m" + std::to_string(it);
  auto A = make_csr<X>(p, base);
  {  // coordinate text written by the library
    int forced = rnd(-1, 1); write_mm(f, A, false, forced);
    bool hdr; std::vector<long> dims; auto b = body(f, hdr, dims);
    out(Rec("wmm").raw("in", rep(A))("forced", forced)("hdr", hdr)("dims", dims)("body", b).raw("csr", readmm<csr_matrix<double, X>>(f)).raw("csc", readmm<csc_matrix<double, X>>(f)).raw("coo", readmm<coo_matrix<double, X>>(f)));
  }
  if(it % 5 == 0) cut("text cut short", f, true, [](std::string g) { read_mm<csr_matrix<double, X>>(g); });
  {  // binary triplets, from either format
    auto C = make_coo<double, X>(p, base, true);
    write_binary_triplet(A, f + "b"); write_binary_triplet(C, f + "c");
    out(Rec("bin").raw("in", rep(A)).raw("csr", rep(read_binary_triplet<csr_matrix<double, X>>(f + "b"))).raw("coo", rep(read_binary_triplet<coo_matrix<double, X>>(f + "b"))));
    out(Rec("bin").raw("in", rep(C)).raw("csr", rep(read_binary_triplet<csr_matrix<double, X>>(f + "c"))).raw("coo", rep(read_binary_triplet<coo_matrix<double, X>>(f + "c"))));
  }
  if(it % 5 == 1) cut("triplets cut short", f + "b", false, [](std::string g) { read_binary_triplet<csr_matrix<double, X>>(g); });
  {  // coordinate text written here: any order, comments, symmetric, pattern
    bool sym = it % 3 == 0, pat = rnd(0, 4) == 0, low = rnd.coin(); int b0 = rnd(0, 3) ? 1 : 0;
    auto at = p.at; if(sym) at.erase(std::remove_if(at.begin(), at.end(), [&](auto a) { return low ? a.first < a.second : a.first > a.second; }), at.end());
    for(size_t i = at.size(); i-- > 1;) std::swap(at[i], at[rnd(0, i)]);
    bool full = !pat && rnd.coin(); if(!full) Q = 1;
    auto v = distinct(at.size(), false); std::vector<std::vector<long>> ent;
    std::ofstream o(f + "t"); o << "%%MatrixMarket matrix coordinate " << (pat ? "pattern " : "real ") << (sym ? "symmetric" : "general") << "\n";
    for(int c = rnd(0, 2); c--;) { o << "% a comment 1 2 3\n"; if(rnd(0, 3) == 0) o << "\n"; }
    std::string sep = rnd(0, 5) ? " " : "\t", eol = rnd(0, 5) ? "\n" : rnd.coin() ? "\r\n" : " \r\n";
    o << m << (rnd.coin() ? "  " : " ") << n << " " << at.size() << "\n";
    for(size_t k = 0; k < at.size(); ++k) {
      if(pat) v[k] = 1;
      if(rnd(0, 3) == 0) o << "  ";
      o << at[k].first + b0 << (rnd.coin() ? sep + sep : sep) << at[k].second + b0; if(full) { char z[40]; snprintf(z, 40, rnd.coin() ? " %.17g" : "  %.16E", v[k]); o << z; } else if(!pat) { switch(rnd(0, 2)) { case 0: o << " " << v[k]; break; case 1: o << "  " << v[k] << ".000000"; break; default: o << " " << (v[k] / 10) << "e+01"; } } o << eol; if(rnd(0, 6) == 0) o << "\n";
      ent.push_back({at[k].first + b0, at[k].second + b0, dec(v[k])});
    }
    o.close();
    out(Rec("rmm")("dims", std::vector<int>{m, n})("sym", sym)("ent", ent).raw("csr", readmm<csr_matrix<double, X>>(f + "t")).raw("csc", readmm<csc_matrix<double, X>>(f + "t")).raw("coo", readmm<coo_matrix<double, X>>(f + "t")));
  }
  {  // compressed-column text
    std::vector<std::pair<int, int>> at; for(auto a : p.at) at.push_back({a.second, a.first}); std::sort(at.begin(), at.end());
    // one triangle of a symmetric matrix
    bool sym = m == n && rnd.coin(), low = rnd.coin(); if(sym) at.erase(std::remove_if(at.begin(), at.end(), [&](auto a) { return low ? a.first > a.second : a.first < a.second; }), at.end());
    bool pat = rnd(0, 4) == 0; Q = pat ? 1 : mantissa();
    auto v = distinct(at.size(), false); std::vector<int> cp(n + 1, 1), ri; for(auto& a : at) { cp[a.first + 1]++; ri.push_back(a.second + 1); } for(int j = 0; j < n; ++j) cp[j + 1] += cp[j] - 1;
    if(at.size()) {
      if(pat) for(auto& x : v) x = 1;
      std::string eol = rnd(0, 5) ? "\n" : "\r\n", sep = rnd(0, 5) ? "   " : "\t";
      std::ofstream o(f + "r"); o << "title                                                                   |key\n";
      o << " 3 1 1 1\n" << (pat ? sym ? "psa " : "pua " : sym ? rnd.coin() ? "rsa " : "RSA " : rnd.coin() ? "rua " : "RUA ") << m << " " << n << " " << at.size() << " 0\n" << "(8I10) (10I8) (5E16.8)\n" << std::setprecision(17);
      auto w = [&](auto& x, int per) { int c = 0; for(auto q : x) { o << sep << q; if(++c % per == 0) o << eol; } if(c % per) o << eol; };
      w(cp, rnd(1, 8)); w(ri, rnd(1, 8)); if(!pat) w(v, rnd(1, 5)); o.close();
      out(Rec("rb")("sym", sym)("dims", std::vector<int>{m, n})("cp", cp)("ri", ri)("v", LI(v)).raw("csc", rep(read_rb<csc_matrix<double, X>>(f + "r"))).raw("csr", rep(read_rb<csr_matrix<double, X>>(f + "r"))));
      if(it % 5 == 2) cut("compressed-column text cut short", f + "r", true, [](std::string g) { read_rb<csc_matrix<double, X>>(g); });
    }
  }
  Q = 1;
}
static void files() {
  char t[] = "/tmp/verif_sparse_XXXXXX"; dir = mkdtemp(t);
  for(int it = 0; it < (thorough() ? 2500 : 350); ++it) { if(it % 2) files1<int32_t>(it); else files1<int64_t>(it); for(auto s : {"", "b", "c", "t", "r"}) unlink((dir + "/m" + std::to_string(it) + s).c_str()); }
  // refusals
  auto bad = [&](const char* what, const std::string& txt) { std::string f = dir + "/bad"; { std::ofstream o(f); o << txt; } auto r = readmm<csr_matrix<double, int>>(f); unlink(f.c_str()); out(Rec("refuse")("what", what)("thrown", r == "{\"f\":\"throw\"}")); };
  bad("header", "%%MatrixMarker matrix coordinate real general\n1 1 1\n1 1 1\n");
  bad("short header", "%%MatrixMarket matrix coordinate real\n1 1 1\n1 1 1\n");
  bad("dimension line", "%%MatrixMarket matrix coordinate real general\n1 1\n1 1 1\n");
  bad("empty file", ""); bad("too many elements", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n2 2 1\n");
  auto gone = [&](const char* what, auto read) { bool th = false; try { read(dir + "/none"); } catch(std::exception&) { th = true; } out(Rec("refuse")("what", what)("thrown", th)); };
  gone("no text file", [](auto f) { read_mm<csr_matrix<double, int>>(f); });
  gone("no triplet file", [](auto f) { read_binary_triplet<coo_matrix<double, int>>(f); });
  gone("no compressed-column file", [](auto f) { read_rb<csc_matrix<double, int>>(f); });
  bad("symmetric rectangle", "%%MatrixMarket matrix coordinate real symmetric\n1 2 1\n1 1 1\n");
  { bool th = false; csr_matrix<double, int> A(1, 1, 0, 0); try { write_mm(dir + "/sym", A, true, 0); } catch(std::exception&) { th = true; } unlink((dir + "/sym").c_str()); out(Rec("refuse")("what", "symmetric write")("thrown", th)); }
  rmdir(dir.c_str());
}
int main(int, char** av) {
  std::string m = av[1]; std::cout.setstate(std::ios::failbit); out.open("");
  if(m == "conv") conv(); else if(m == "part") part(); else if(m == "prod") prod(); else if(m == "files") files();
}
