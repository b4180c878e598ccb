// Drives the legacy solver's Krylov methods: single-vector and band Lanczos,
// their dense helpers, resolvents and the exact-diagonalisation driver.
// Spec: spec/KrylovTrace.tla.
#include <omp.h>
#include <cmath>
#include <bit>
#include <iostream>
#include <sstream>
#include <mpi.h>
#include "cmz_ed/ed.h++"
#include "cmz_ed/bandlan.h++"
#include "common.hpp"
using namespace cmz::ed;
using namespace vh;
namespace {
using Q = std::vector<long>;
using M = std::vector<std::vector<int>>;
constexpr double S = 2000, Z = 5000;
Out* out;
template <class Fn> std::string tryq(Fn f) {
  std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); std::string r = "ok";
  try { f(); } catch(...) { r = "throw"; }
  std::cout.rdbuf(b); return r;
}
Q fx(const VectorXd& v, double s) { Q o; for(int i = 0; i < v.size(); ++i) o.push_back(F(v(i), s)); return o; }
using Dist = sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>>;
eigMatD dense(const M& A) { eigMatD a(A.size(), A.size()); for(size_t i = 0; i < A.size(); ++i) for(size_t j = 0; j < A.size(); ++j) a(i, j) = A[i][j]; return a; }
SpMatD sparse(const M& A) { SpMatD s(A.size(), A.size()); for(int i = 0; i < (int)A.size(); ++i) for(int j = 0; j < (int)A.size(); ++j) if(A[i][j]) s.insert(i, j) = A[i][j]; s.makeCompressed(); return s; }
sparsexx::csr_matrix<double, int32_t> csr(const M& A) {
  std::vector<int32_t> rp{0}, ci; std::vector<double> nz; int n = A.size();
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(A[i][j]) { ci.push_back(j); nz.push_back(A[i][j]); } rp.push_back(ci.size()); }
  return sparsexx::csr_matrix<double, int32_t>(n, n, std::move(rp), std::move(ci), std::move(nz));
}
Dist dist(const M& A) { return Dist(MPI_COMM_WORLD, csr(A)); }
M rmat(vh::Rng& g, int n, int kind) {
  M A(n, std::vector<int>(n, 0));
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) {
    int v = g(-3, 3);
    if(kind == 1 && g(0, 1)) v = 0;                          // sparse
    if(kind == 2 && (i < n / 2) != (j < n / 2)) v = 0;       // two blocks
    if(kind == 3 && i != j) v = 0;                           // diagonal
    if(kind == 4) v = i == j ? 2 : (i - j == 1 ? -1 : 0);    // chain
    if(kind == 5) v = i == j ? 1 : 1;                        // two eigenvalues
    A[i][j] = A[j][i] = v;
  }
  return A;
}
template <class Op> void lan(Rec& r, const M& A, const Op& H, const std::vector<int>& v, int nl, double etol) {
  int n = A.size(); VectorXd s(n); for(int i = 0; i < n; ++i) s(i) = v[i];
  VecD al, be;
  auto st = tryq([&] { MyLanczos(s, H, nl, al, be, 1e-7); });
  int m = nl; for(int k = nl; k >= 1; --k) if(std::abs(be[k]) <= 1e-7) m = k;
  std::vector<Q> q; std::vector<VectorXd> qv;
  for(int k = 0; k < m; ++k) { VectorXd e = VectorXd::Zero(m), x; e(k) = 1; tryq([&] { MyLanczos_BackProj(s, H, m, e, x); }); q.push_back(fx(x, Z)); qv.push_back(x); }
  r("A", A)("v", v)("nl", nl)("m", m)("lal", (long)al.size())("lbe", (long)be.size())("al", F(al, S))("be", F(be, S))("q", q);
  Input_t in; std::ostringstream t; t << etol; addParam(in, "E0tol", t.str()); addParam(in, "Lantol", "1e-7"); addParam(in, "print", "F");
  double e1 = 1e9, e2 = 1e9; VectorXd y = VectorXd::Zero(1), x1, x2; long its = 0;
  auto s1 = tryq([&] { its = GetGSEn_Lanczos(s, H, e1, y, in); MyLanczos_BackProj(s, H, its, y, x1); });
  auto s2 = tryq([&] { GetGSEnVec_Lanczos(s, H, e2, x2, in); });
  r("out", Q{st == "ok", s1 == "ok", s2 == "ok"})("etol", (long)std::floor(etol * S))("tight", etol < 1e-6)("its", its)("e1", F(e1, S))("y", fx(y, Z))("x1", fx(x1, Z))("e2", F(e2, S))("x2", fx(x2, Z));
  // the tridiagonal problems of the first and the last but one iteration
  std::vector<Q> ty; Q te;
  for(int k = 1; k <= std::min<long>(its, m); ++k) {
    VectorXd w; eigMatD u; VecD a(al.begin(), al.begin() + k), b(be.begin(), be.begin() + k + 1);
    tryq([&] { Hste_v(a, b, w, u); });
    te.push_back(F(w(0), S)); VectorXd c = u.col(0); ty.push_back(fx(c, Z));
  }
  r("te", te)("ty", ty);
  bool ones = true, first = v[0] == 1; for(int i = 0; i < n; ++i) { ones = ones && v[i] == 1; first = first && (i == 0 || v[i] == 0); }
  r("std", ones ? 1 : first ? 2 : 0);
  if(ones || first) {
    double e3 = 1e9; VectorXd x3 = VectorXd::Zero(n);
    auto s3 = tryq([&] { if(first && !ones) GetGS(H, e3, x3, in, true); else GetGS(H, e3, x3, in); });
    r("out3", s3 == "ok")("e3", F(e3, S))("x3", fx(x3, Z));
  }
}
void lanrec(vh::Rng& g, const M& A, const std::vector<int>& v, int nl, int op, double etol) {
  Rec r("lan"); r("op2", op);
  if(op == 0) { auto a = dense(A); lan(r, A, eigMatDOp(a), v, nl, etol); }
  else if(op == 1) { auto a = sparse(A); lan(r, A, SpMatDOp(a), v, nl, etol); }
  else { auto a = dist(A); lan(r, A, SparsexDistSpMatOp(a), v, nl, etol); }
  (*out)(r);
}
std::vector<Q> cols(const eigMatD& u) { std::vector<Q> o; for(int j = 0; j < u.cols(); ++j) { VectorXd c = u.col(j); o.push_back(fx(c, Z)); } return o; }
void dnserec(const M& A) {
  int n = A.size(); auto emit = [&](const char* kind, const M& B, int ord, bool ok, const Q& w, const std::vector<Q>& u) { Rec r("eig"); r("kind", kind)("A", B)("ord", ord)("ok", ok)("w", w)("u", u); (*out)(r); };
  { VectorXd w; eigMatD u; auto s = tryq([&] { Hsyev(dense(A), w, u); }); emit("syev", A, -1, s == "ok", fx(w, S), cols(u)); }
  auto vv = [&](const M& B) { std::vector<std::vector<double>> m; for(auto& x : B) m.emplace_back(x.begin(), x.end()); return m; };
  { auto m = vv(A); std::vector<double> w; std::vector<std::vector<double>> u; bool ok = false; tryq([&] { ok = GetEigsys(m, w, u); }); std::vector<Q> uq; for(auto& x : u) uq.push_back(F(x, Z)); emit("dense", A, 1, ok, F(w, S), uq); }
  for(int d = 0; d < n; ++d) {
    M B = A; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(std::abs(i - j) > d) B[i][j] = 0;
    auto m = vv(B); std::vector<double> w; std::vector<std::vector<double>> u; bool ok = false; tryq([&] { ok = GetEigsysBand(m, d, w, u); }); std::vector<Q> uq; for(auto& x : u) uq.push_back(F(x, Z)); emit("band", B, 1, ok, F(w, S), uq);
    if(d == std::min(1, n - 1)) { VecD al, be{0.}; for(int i = 0; i < n; ++i) { al.push_back(B[i][i]); if(i) be.push_back(B[i][i - 1]); } be.push_back(5); VectorXd ww; eigMatD uu; auto s = tryq([&] { Hste_v(al, be, ww, uu); }); emit("tri", B, 1, s == "ok", fx(ww, S), cols(uu)); }
  }
}
void qrrec(vh::Rng& g, int m, int n, bool tr) {
  M A(m, std::vector<int>(n)); for(auto& x : A) for(int& y : x) y = g(-4, 4);
  if(n > 1 && g(0, 3) == 0) for(int i = 0; i < m; ++i) A[i][n - 1] = 2 * A[i][0];
  std::vector<std::vector<double>> q(tr ? n : m, std::vector<double>(tr ? m : n)), R;
  for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) (tr ? q[j][i] : q[i][j]) = A[i][j];
  bool ok = false; tryq([&] { ok = tr ? QRdecomp_tr(q, R) : QRdecomp(q, R); });
  std::vector<Q> qq(m, Q(n, BAD)), rq; for(auto& x : R) rq.push_back(F(x, S));
  for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) { auto& row = tr ? q[j] : q[i]; size_t ix = tr ? i : j; if(ix < row.size()) qq[i][j] = F(row[ix], Z); }
  Rec r("qr"); r("A", A)("tr", tr)("ok", ok)("q", qq)("r", rq); (*out)(r);
}
using C = std::complex<double>;
// what comes out with several threads is what one thread makes of it
template <class Fn> void threadsrec(const char* what, int rep, Fn fn) {
  omp_set_num_threads(1); std::vector<double> one = fn(); std::vector<long> d;
  for(int r = 0; r < rep; ++r) for(int t : {1, 2, 8}) {
    omp_set_num_threads(t); std::vector<double> x = fn(); double m = x.size() == one.size() ? 0 : 1e3;
    for(size_t i = 0; i < x.size() && i < one.size(); ++i) { double e = std::abs(x[i] - one[i]); if(!(e <= m)) m = e == e ? e : 1e3; }
    d.push_back((long)std::llround(std::min(m, 1e3) * 1e6)); }
  omp_set_num_threads(1); Rec r("threads"); r("what", what)("size", (long)one.size())("d", d); (*out)(r);
}
void gfthreads(vh::Rng& g, int N, int nb, int nl, bool part) {   // many frequencies at once
  M A(N, std::vector<int>(N)); for(int i = 0; i < N; ++i) for(int j = 0; j <= i; ++j) A[i][j] = A[j][i] = g(-3, 3);
  auto H = dist(A); std::vector<std::vector<double>> V(nb, std::vector<double>(N)); for(int b = 0; b < nb; ++b) { for(auto& x : V[b]) x = g(-2, 2); V[b][b] += 7; }
  std::vector<C> ws; for(int k = 0; k < 400; ++k) ws.push_back(C(-8 + 0.04 * k, 0.5 + (k % 7)));
  threadsrec("gf", 5, [&] { auto V2 = V; std::vector<std::vector<std::vector<C>>> res; std::vector<double> o; tryq([&] { BandResolvent(H, V2, ws, res, nl, 0.5, part); });
    for(auto& m : res) for(auto& x : m) for(auto& c : x) { o.push_back(c.real()); o.push_back(c.imag()); } return o; });
}
void bandrec(vh::Rng& g, const M& A, int nb, int nl, bool part, int vk) {
  int N = A.size(); std::vector<std::vector<double>> V(nb, std::vector<double>(N, 0.)); M Vi(nb, std::vector<int>(N, 0));
  for(int tries = 0; tries < 50; ++tries) {
    for(int b = 0; b < nb; ++b) for(int i = 0; i < N; ++i) Vi[b][i] = vk ? g(-2, 2) : i == (b * 2 + 1) % N || i == b;
    Eigen::MatrixXd m(N, nb); for(int b = 0; b < nb; ++b) for(int i = 0; i < N; ++i) m(i, b) = Vi[b][i];
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(m); if(svd.singularValues()(nb - 1) > 0.4) break; vk = 1;
  }
  for(int b = 0; b < nb; ++b) for(int i = 0; i < N; ++i) V[b][i] = Vi[b][i];
  int E0 = g(-3, 3); std::vector<C> ws; std::vector<Q> wq;
  for(int k = 0; k < 4; ++k) { int a = g(-6, 6), b = g(1, 3) * (g(0, 1) ? 1 : -1); ws.push_back(C(a, b)); wq.push_back({a, b}); }
  auto H = dist(A);
  auto Vq = V; std::vector<std::vector<double>> R; bool ok = false; tryq([&] { ok = QRdecomp_tr(Vq, R); });
  auto Vl = Vq; std::vector<std::vector<double>> T; int nl2 = nl; auto s1 = tryq([&] { MyBandLan<double>(H, Vl, T, nl2); });
  auto V2 = V; std::vector<std::vector<std::vector<C>>> res; auto s2 = tryq([&] { BandResolvent(H, V2, ws, res, nl, E0, part); });
  Rec r("res"); r("A", A)("V", Vi)("w", wq)("E0", E0)("part", part)("nl", nl)("nl2", nl2)("ok", ok && s1 == "ok" && s2 == "ok");
  std::vector<Q> qq, tq, rq; for(auto& x : Vq) qq.push_back(F(x, 300)); for(auto& x : T) tq.push_back(F(x, S)); for(auto& x : R) rq.push_back(F(x, S));
  r("q", qq)("T", tq)("R", rq);
  std::vector<std::vector<std::vector<Q>>> ro, xo, to;
  for(auto& m : res) { std::vector<std::vector<Q>> a; for(auto& x : m) { std::vector<Q> b; for(auto& c : x) b.push_back({F(c.real(), S), F(c.imag(), S)}); a.push_back(b); } ro.push_back(a); }
  // witnesses: solutions of the shifted systems (checked by the specification)
  double sg = part ? -1 : 1;
  for(C w : ws) {
    Eigen::MatrixXcd B = sg * dense(A).cast<C>(); for(int i = 0; i < N; ++i) B(i, i) += w - sg * E0;
    Eigen::MatrixXcd rhs(N, nb); for(int b = 0; b < nb; ++b) for(int i = 0; i < N; ++i) rhs(i, b) = Vi[b][i];
    Eigen::MatrixXcd X = B.fullPivLu().solve(rhs); std::vector<std::vector<Q>> a;
    for(int b = 0; b < nb; ++b) { std::vector<Q> c; for(int i = 0; i < N; ++i) c.push_back({F(X(i, b).real(), S), F(X(i, b).imag(), S)}); a.push_back(c); } xo.push_back(a);
    int L = T.size(); Eigen::MatrixXcd Bt(L, L), rt = Eigen::MatrixXcd::Zero(L, nb);
    for(int i = 0; i < L; ++i) for(int j = 0; j < L; ++j) Bt(i, j) = sg * T[i][j] + (i == j ? w - sg * E0 : C(0));
    for(int b = 0; b < nb; ++b) for(int i = 0; i < nb && i < L; ++i) rt(i, b) = R[i][b];
    Eigen::MatrixXcd Xt = Bt.fullPivLu().solve(rt); a.clear();
    for(int b = 0; b < nb; ++b) { std::vector<Q> c; for(int i = 0; i < L; ++i) c.push_back({F(Xt(i, b).real(), S), F(Xt(i, b).imag(), S)}); a.push_back(c); } to.push_back(a);
  }
  r("res", ro)("X", xo)("XT", to); (*out)(r);
}
// exact diagonalisation of integer Hamiltonians (table formula of Fock.tla)
int fT(int k, int p, int q) { int i = std::min(p, q), j = std::max(p, q); return ((i * 7 + j * 13 + i * j * 3 + k * 5) % 11) - 4; }
int pairix(int p, int q) { int i = std::min(p, q), j = std::max(p, q); return j * (j + 1) / 2 + i; }
int fV(int k, int p, int q, int r, int s) { int a = pairix(p, q), b = pairix(r, s); if(a > b) std::swap(a, b); return ((a * 5 + b * 3 + a * b + k) % 7) - 3; }
bool keepT(int z, int p, int q) { return z == 0 || (z == 1 ? p == q : (p + q) % 2 == 0); }
bool keepV(int z, int p, int q, int r, int s) { return z == 0 || (z == 1 ? (p == q && r == s) || (p == r && q == s) || (p == s && q == r) : (pairix(p, q) + pairix(r, s)) % 3 == 0); }
void edrec(vh::Rng& g, int n, int a, int b, int k, int z) {
  std::vector<double> t(n * n), u((size_t)n * n * n * n); intgrls::integrals in(n);
  for(int i = 0; i < n; ++i) for(int c = 0; c < n; ++c) t[in.indexer(i, c)] = keepT(z, i, c) ? fT(k, i, c) : 0;
  for(int i = 0; i < n; ++i) for(int c = 0; c < n; ++c) for(int j = 0; j < n; ++j) for(int d = 0; d < n; ++d) u[in.indexer(i, j, c, d)] = keepV(z, i, c, j, d) ? fV(k, i, c, j, d) : 0;
  in.t = t; in.u = u; int core = g(-5, 5); in.core_energy = core;
  SetSlaterDets ds = BuildFullHilbertSpace(n, a, b); FermionHamil Hop(in); SpMatD Hm;
  tryq([&] { Hm = GetHmat(&Hop, ds, false); });
  int N = ds.size(); M A(N, std::vector<int>(N)); long big = 0;
  for(int i = 0; i < N; ++i) { long s = 0; for(int j = 0; j < N; ++j) { A[i][j] = (int)std::lround(Hm.coeff(i, j)); s += std::abs(A[i][j]); } big = std::max(big, s); }
  if(big > 90) return;
  Rec r("ed"); std::vector<std::vector<int>> dq; for(auto& d : ds) { std::vector<int> o; uint64_t s = d.GetState(); for(int i = 0; i < 2 * n; ++i) if(s >> i & 1) o.push_back(i); dq.push_back(o); }
  r("n", n)("a", a)("b", b)("k", k)("z", z)("d", dq)("core", core);
  lan(r, A, SpMatDOp(Hm), std::vector<int>(N, 1), N, 1e-12);
  Input_t ip; addParam(ip, "norbs", std::to_string(n)); addParam(ip, "nups", std::to_string(a)); addParam(ip, "ndos", std::to_string(b)); addParam(ip, "E0tol", "1e-12"); addParam(ip, "Lantol", "1e-7");
  double E0 = 1e9; std::vector<double> d1, d2; auto st = tryq([&] { RunED(ip, in, E0, d1, d2); });
  double e = core; cmz::ed::rdm::indexer ix(n);
  std::vector<long> o1; for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) o1.push_back(d1.size() ? F(d1[ix(p, q)], 1000) : BAD);
  if(d2.size()) for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) { e += d1[ix(p, q)] * t[in.indexer(p, q)]; for(int s = 0; s < n; ++s) for(int c = 0; c < n; ++c) e += d2[ix(p, s, q, c)] * u[in.indexer(p, s, q, c)]; }
  r("outed", st == "ok")("eed", F(E0, S))("erdm", F(e, S))("g1", o1)("l2", (long)d2.size()); (*out)(r);
}
}  // namespace
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  {
    Out o(""); out = &o; vh::Rng g(32); std::string mode = argc > 1 ? argv[1] : "all"; bool th = thorough();
    if(mode == "lan" || mode == "all") {
      for(int n = 1; n <= 6; ++n) for(int kind = 0; kind <= 5; ++kind) for(int rep = 0; rep < (th ? 12 : 3); ++rep) {
        auto A = rmat(g, n, kind); std::vector<int> v(n); int vk = g(0, 3);
        do { for(int i = 0; i < n; ++i) v[i] = vk == 0 ? 1 : vk == 1 ? i == 0 : g(-2, 2); } while(std::all_of(v.begin(), v.end(), [](int x) { return x == 0; }));
        lanrec(g, A, v, rep % 3 == 2 ? g(1, n) : n, g(0, 2), rep % 3 == 1 ? 0.25 * g(1, 4) : 1e-12);
      }
    }
    if(mode == "dense" || mode == "all") {
      for(int n = 1; n <= 6; ++n) for(int kind = 0; kind <= 5; ++kind) dnserec(rmat(g, n, kind));
      for(int i = 0; i < (th ? 120 : 40); ++i) { int n = g(1, 4), m = g(n, 7); qrrec(g, m, n, i & 1); }
    }
    if(mode == "band" || mode == "all") {
      for(int i = 0; i < (th ? 12 : 4); ++i) gfthreads(g, 30, 1 + i / 2 % 3, 12, i % 2);
      for(int N = 1; N <= 6; ++N) for(int nb = 1; nb <= std::min(3, N); ++nb) for(int kind = 0; kind <= 5; ++kind) for(int rep = 0; rep < (th ? 6 : 2); ++rep)
        bandrec(g, rmat(g, N, kind), nb, rep == 0 ? N : g(nb, N + 2), g(0, 1), g(0, 2));
    }
    if(mode == "ed" || mode == "all") {
      for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int z = 0; z <= 2; ++z) edrec(g, n, a, b, g(0, 9), z);
    }
  }
  MPI_Finalize();
}
