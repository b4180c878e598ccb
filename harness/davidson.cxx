// P24 driver: Davidson (serial and distributed), its guesses and its
// orthogonalisation, on integer symmetric matrices.
#include <macis/solvers/selected_ci_diag.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <lapack.hh>
#include <memory>
#include <set>
#include "mpi_common.hpp"
using namespace vh; using vmpi::Obj;
using csr = sparsexx::csr_matrix<double, int32_t>;
using Mat = std::vector<std::vector<int>>;
static Mat zeros(int n) { return Mat(n, std::vector<int>(n, 0)); }
csr to_csr(const Mat& A, int ind = 0) {
  int n = A.size(); size_t nnz = 0;
  for(auto& r : A) for(int x : r) nnz += x != 0;
  csr S(n, n, nnz, ind); size_t c = 0; S.rowptr()[0] = ind;
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(A[i][j]) { S.colind()[c] = j + ind; S.nzval()[c++] = A[i][j]; } S.rowptr()[i + 1] = c + ind; }
  return S;
}
// A problem: A, and when known the eigenvectors W (columns, integer) and lam
struct Prob { Mat A, W; std::vector<int> lam; bool known = false; };
// Q D Q with Q = product of two reflections I - vv^T/2 (v = ones on four
// indices): D multiples of 16 keep A integer, W = 4 Q
Prob reflected(Rng& g, int n, bool rep) {
  Prob p; p.known = true;
  auto Q = zeros(n); for(int i = 0; i < n; ++i) Q[i][i] = 4;
  std::vector<int> ix(n); for(int i = 0; i < n; ++i) ix[i] = i;
  std::shuffle(ix.begin(), ix.end(), g.g);
  for(int t = 0; t < 2; ++t) {
    if(t) std::rotate(ix.begin(), ix.begin() + (n <= 7 ? n - 4 : 3), ix.end());   // overlapping index sets
    for(int c = 0; c < n; ++c) { int s = 0; for(int a = 0; a < 4; ++a) s += Q[ix[a]][c]; for(int a = 0; a < 4; ++a) Q[ix[a]][c] -= s / 2; }
  }
  std::vector<int> d(n); std::set<int> used;
  for(int i = 0; i < n; ++i) { int x; do x = g(-9, 9); while(!rep && used.count(x)); used.insert(x); d[i] = 16 * x; }
  p.A = zeros(n);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { long s = 0; for(int c = 0; c < n; ++c) s += (long)Q[i][c] * d[c] * Q[j][c]; p.A[i][j] = s / 16; }
  p.W = Q; p.lam = d; return p;
}
Prob randsym(Rng& g, int n, int dens, int lo, int hi, int dspread) {
  Prob p; p.A = zeros(n);
  for(int i = 0; i < n; ++i) { for(int j = 0; j < i; ++j) if(g(0, 99) < dens) p.A[i][j] = p.A[j][i] = g(lo, hi); p.A[i][i] = g(-dspread, dspread); }
  return p;
}
// two uncoupled blocks, indices interleaved
Prob blocks(Rng& g, const Prob& a, const Prob& b) {
  Prob p; int na = a.A.size(), nb = b.A.size(), n = na + nb; std::vector<int> ix(n); for(int i = 0; i < n; ++i) ix[i] = i;
  std::shuffle(ix.begin(), ix.end(), g.g);
  p.A = zeros(n); p.known = a.known && b.known; p.W = zeros(p.known ? n : 0);
  auto put = [&](const Prob& q, int off) { int m = q.A.size(); for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) { p.A[ix[off + i]][ix[off + j]] = q.A[i][j]; if(p.known) p.W[ix[off + i]][off + j] = q.W[i][j]; } };
  put(a, 0); put(b, na);
  if(p.known) { p.lam = a.lam; p.lam.insert(p.lam.end(), b.lam.begin(), b.lam.end()); }
  return p;
}
// indices coupled to the guess
std::vector<int> component(const Mat& A, const std::vector<int>& g) {
  int n = A.size(); std::vector<int> in(n, 0); for(int i = 0; i < n; ++i) in[i] = g[i] != 0;
  for(int t = 0; t < n; ++t) for(int i = 0; i < n; ++i) if(in[i]) for(int j = 0; j < n; ++j) if(A[i][j]) in[j] = 1;
  std::vector<int> o; for(int i = 0; i < n; ++i) if(in[i]) o.push_back(i); return o;
}
struct Res { std::string out; long iter = 0; double lam = 0; std::vector<double> x; };
Rec start(const char* op, const Prob& p, const std::vector<int>& g, long maxm, long tol10) {
  Rec r(op); int n = p.A.size(); auto comp = component(p.A, g); Mat C = zeros(comp.size());
  for(size_t i = 0; i < comp.size(); ++i) for(size_t j = 0; j < comp.size(); ++j) C[i][j] = p.A[comp[i]][comp[j]];
  // the lowest eigenvalue of the coupled part, and the lowest one whose eigenvectors are not orthogonal to the guess
  double ref = 0, seen = 0;
  if(int m = comp.size()) {
    std::vector<double> M(m * m), w(m); for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) M[i + j * m] = C[i][j];
    lapack::syev(lapack::Job::Vec, lapack::Uplo::Lower, m, M.data(), m, w.data());
    ref = w[0]; double gg = 0; for(int v : g) gg += (double)v * v;
    int j = 0; for(; j < m; ++j) { double s = 0; for(int i = 0; i < m; ++i) s += M[i + j * m] * g[comp[i]]; if(s * s > 1e-12 * gg) break; }
    seen = w[std::min(j, m - 1)];
  }
  r("seen", F(seen, 1e6))("N", n)("A", p.A)("known", p.known)("W", p.W)("lam", p.lam)("g", g)("maxm", maxm)("tol", tol10)("ref", F(ref, 1e6));
  return r;
}
void measure(Rec& r, const Prob& p, const Res& s) {
  int n = p.A.size(); double nn = 0, rr = 0; std::vector<double> x = s.x;
  for(double v : x) nn += v * v;
  for(int i = 0; i < n; ++i) { long double a = 0; for(int j = 0; j < n; ++j) a += (long double)p.A[i][j] * x[j]; a -= (long double)s.lam * x[i]; rr += (double)(a * a); }
  bool fin = std::isfinite(nn) && std::isfinite(rr) && std::isfinite(s.lam);
  r("fin", fin)("iter", s.iter)("l6", F(s.lam, 1e6))("nrm", F(nn - 1, 1e10))("res", F(std::sqrt(rr), 1e10))("x", F(x, 1e4));
}
static const double TOL(long t10) { return t10 * 1e-10; }
void serial(Out& o, Rng& rg, const Prob& p, const std::vector<int>& g, long maxm, long tol10, int ind) {
  int n = p.A.size(); auto S = to_csr(p.A, ind); double s = 0; for(int v : g) s += (double)v * v;
  Res res; for(int v : g) res.x.push_back(v / std::sqrt(s));
  std::vector<double> D; for(int i = 0; i < n; ++i) D.push_back(p.A[i][i]);
  auto r = start("dav", p, g, maxm, tol10);
  try { auto [it, l] = macis::davidson(n, maxm, macis::SparseMatrixOperator(S), D.data(), TOL(tol10), res.x.data()); res.iter = it; res.lam = l; res.out = "ok"; }
  catch(std::exception& e) { res.out = "fail"; }
  r("out", res.out)("np", 1); measure(r, p, res); o(r);
}
std::vector<std::pair<int32_t, int32_t>> tiles(Rng& g, int n, int np) {
  std::vector<int> c{0, n}; for(int i = 0; i < np - 1; ++i) c.push_back(g(0, n)); std::sort(c.begin(), c.end());
  std::vector<std::pair<int32_t, int32_t>> t; for(int i = 0; i < np; ++i) t.push_back({c[i], c[i + 1]}); return t;
}
using dist = sparsexx::dist_sparse_matrix<csr>;
std::unique_ptr<dist> mkdist(Rng& rg, const Prob& p, int part, MPI_Comm c) {
  auto S = to_csr(p.A); auto t = tiles(rg, p.A.size(), vmpi::size(c));
  if(part) return std::make_unique<dist>(c, S, t);
  return std::make_unique<dist>(c, S);
}
void par(Out& o, Rng& rg, const Prob& p, const std::vector<int>& g, long maxm, long tol10, int part, MPI_Comm c) {
  int n = p.A.size(), me = vmpi::rank(c);
  auto Hp = mkdist(rg, p, part, c); auto& H = *Hp; auto [lo, hi] = H.row_bounds(me);
  double s = 0; for(int v : g) s += (double)v * v;
  Res res; res.x.reserve(2); std::vector<double> D; D.reserve(1);
  for(int i = lo; i < hi; ++i) { res.x.push_back(g[i] / std::sqrt(s)); D.push_back(p.A[i][i]); }
  macis::SparseMatrixOperator op(H);
  try { auto [it, l] = macis::p_davidson(hi - lo, maxm, op, D.data(), TOL(tol10), res.x.data(), c); res.iter = it; res.lam = l; res.out = "ok"; }
  catch(std::exception& e) { res.out = "fail"; }
  int same[4] = {(int)res.iter, -(int)res.iter, res.out == "ok", -(res.out == "ok")}, mx[4];
  PMPI_Allreduce(same, mx, 4, MPI_INT, MPI_MAX, c);
  double lm[2] = {res.lam, -res.lam}, lx[2]; PMPI_Allreduce(lm, lx, 2, MPI_DOUBLE, MPI_MAX, c);
  bool agree = mx[0] == -mx[1] && mx[2] == -mx[3] && (lx[0] == -lx[1] || res.out != "ok");
  // assemble the vector
  std::vector<int> cnt, ds; for(int i = 0; i < vmpi::size(c); ++i) { cnt.push_back(H.row_bounds(i).second - H.row_bounds(i).first); ds.push_back(H.row_bounds(i).first); }
  std::vector<double> X(n); PMPI_Allgatherv(res.x.data(), hi - lo, MPI_DOUBLE, X.data(), cnt.data(), ds.data(), MPI_DOUBLE, c);
  res.x = X;
  if(!me) { auto r = start("dav", p, g, maxm, tol10); r("out", agree ? res.out : std::string("differ"))("np", vmpi::size(c))("cnt", cnt); measure(r, p, res); o(r); }
}
void pguess(Out& o, Rng& rg, const Prob& p, int part, MPI_Comm c) {
  int me = vmpi::rank(c);
  auto Hp = mkdist(rg, p, part, c); auto& H = *Hp; auto [lo, hi] = H.row_bounds(me);
  std::vector<double> x(hi - lo + 4, 7.);     // stale contents; four guard cells behind
  std::string out = "ok";
  try { macis::p_diagonal_guess(hi - lo, H, x.data()); } catch(std::exception& e) { out = "fail"; }
  std::vector<int> d; for(size_t i = 0; i < p.A.size(); ++i) d.push_back(p.A[i][i]);
  auto all = vmpi::gather(Obj()("out", out)("lo", (long)lo)("hi", (long)hi)("x", I(x)).str(), c);
  if(!me) o(Rec("pguess")("d", d).raw("ranks", all));
}
std::vector<int> ones(Rng& g, int n) { std::vector<int> v(n); for(auto& x : v) do x = g(-5, 5); while(!x); return v; }
std::vector<int> unit(int n, int i) { std::vector<int> v(n, 0); v[i] = 1; return v; }
int argmin(const Mat& A) { int b = 0; for(size_t i = 1; i < A.size(); ++i) if(A[i][i] < A[b][b]) b = i; return b; }
template <class F> void problems(Rng& g, bool T, F&& f) {
  int reps = T ? 12 : 3;
  for(int t = 0; t < reps; ++t) {
    for(int n = 4; n <= 7; ++n) { auto p = reflected(g, n, t % 2); f(p, ones(g, n), n, 1); f(p, unit(n, argmin(p.A)), n, 1); f(p, ones(g, n), g(1, n - 1), 1); }
    auto q = blocks(g, reflected(g, 5, false), reflected(g, 6, false)); f(q, ones(g, 11), 11, 1); f(q, unit(11, g(0, 10)), 11, 1); f(q, unit(11, argmin(q.A)), 30, 1);
    auto z = blocks(g, randsym(g, 5, 60, -3, 3, 20), randsym(g, 4, 90, -3, 3, 20)); f(z, ones(g, 9), 9, 1); f(z, unit(9, g(0, 8)), 9, 1);
    for(int n : {2, 3, 7, 13, 18}) { auto p = randsym(g, n, n < 10 ? 70 : 30, -4, 4, 40); f(p, ones(g, n), n, 100); f(p, unit(n, argmin(p.A)), n, 1); f(p, ones(g, n), n + 7, 10000); f(p, ones(g, n), n / 2, 1); }
    // tolerances loose enough for the run to stop on the residual well before the end
    for(long tol : {500000000L, 100000000L, 30000000L}) for(int q = 0; q < (T ? 3 : 2); ++q) { int n = g(12, 20); auto p = randsym(g, n, 60, -3, 3, 30); f(p, q ? ones(g, n) : unit(n, argmin(p.A)), n + 1, tol); }
    // diagonal elements that meet the Ritz value: few distinct small numbers
    { Prob p; p.A = {{1, 1, 0}, {1, 1, 1}, {0, 1, 0}}; f(p, unit(3, 0), 3, 1); f(p, unit(3, 0), 20, 1); f(p, unit(3, 2), 9, 100); }
    for(int q = 0; q < (T ? 12 : 5); ++q) { int n = g(3, 6); auto p = randsym(g, n, 60, -1, 1, q % 2); f(p, unit(n, g(0, n - 1)), q % 3 ? n : n + 5, 1); f(p, unit(n, argmin(p.A)), n + 1, 1); }
    // guesses that already are eigenvectors, one by one matrices, diagonal matrices
    { Prob p; p.A = zeros(1); p.A[0][0] = g(-9, 9); f(p, unit(1, 0), 1, 1); f(p, unit(1, 0), 20, 1); }
    { auto p = reflected(g, 6, false); int b = 0; for(int i = 0; i < 6; ++i) if(p.lam[i] < p.lam[b]) b = i; std::vector<int> v; for(int i = 0; i < 6; ++i) v.push_back(p.W[i][b]); f(p, v, 6, 1); f(p, v, 20, 1); }
    { auto p = randsym(g, 6, 0, 0, 0, 9); f(p, unit(6, argmin(p.A)), 6, 1); f(p, unit(6, 3), 6, 1); }
  }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  for(auto n : {"ci_solver", "davidson"}) spdlog::null_logger_mt(n);
  std::string m = argv[1]; bool T = thorough(); Out o; if(!vmpi::rank()) o.open("");
  if(m == "serial") {
    Rng g(240); int c = 0;
    problems(g, T, [&](const Prob& p, std::vector<int> v, long mm, long tol) { serial(o, g, p, v, mm, tol, c++ % 2); });
    for(int t = 0; t < 20; ++t) {       // default guess
      int n = g(1, 9); auto p = randsym(g, n, 50, -3, 3, t % 3 ? 20 : 2); for(int i = 0; i < n; ++i) if(!p.A[i][i]) p.A[i][i] = 1;
      auto S = to_csr(p.A, t % 2); std::vector<double> x(n + 2, 0.); for(int i = 0; i < n; ++i) x[i] = .25 * (i % 3); std::vector<int> d; for(int i = 0; i < n; ++i) d.push_back(p.A[i][i]);
      macis::diagonal_guess(n, S, x.data()); o(Rec("guess")("d", d)("x", I(x)));
    }
#ifdef VERIF_INTERNALS
    for(int t = 0; t < 40; ++t) {       // orthogonalisation against unit vectors, with a nearly dependent new vector
      int n = g(3, 12), k = g(1, n - 1); double eps = std::vector<double>{1, 1e-3, 1e-6, 1e-9}[t % 4];
      std::vector<double> V(n * (k + 1)); std::vector<int> ix(n); for(int i = 0; i < n; ++i) ix[i] = i; std::shuffle(ix.begin(), ix.end(), g.g);
      for(int i = 0; i < n * k; ++i) V[i] = g(-100, 100) / 37.; std::vector<double> tau(k); lapack::geqrf(n, k, V.data(), n, tau.data()); lapack::orgqr(n, k, k, V.data(), n, tau.data());
      std::vector<double> v(n, 0.), w(n); for(auto& y : w) y = g(-50, 50) / 31.;
      for(int j = 0; j < k; ++j) { double a = g(1, 9); for(int i = 0; i < n; ++i) v[i] += a * V[i + j * n]; } for(int i = 0; i < n; ++i) v[i] += eps * w[i];
      // expected: component of w orthogonal to V
      auto e = w; for(int rep = 0; rep < 2; ++rep) for(int j = 0; j < k; ++j) { double s = 0; for(int i = 0; i < n; ++i) s += V[i + j * n] * e[i]; for(int i = 0; i < n; ++i) e[i] -= s * V[i + j * n]; }
      double en = 0; for(double y : e) en += y * y; en = std::sqrt(en); if(en < 1e-2) continue;
      macis::gram_schmidt(n, k, V.data(), n, v.data());
      double ort = 0, nn = 0, dev = 0; for(int j = 0; j < k; ++j) { double s = 0; for(int i = 0; i < n; ++i) s += V[i + j * n] * v[i]; ort = std::max(ort, std::abs(s)); }
      for(double y : v) nn += y * y; for(int i = 0; i < n; ++i) dev = std::max(dev, std::abs(v[i] - e[i] / en));
      o(Rec("gs")("orth", F(ort, 1e12))("nrm", F(nn - 1, 1e10))("dev", F(dev, 1e6))("eps", F(eps, 1e9)));
    }
#endif
  } else {
    Rng g(241); int c = 0; vmpi::set_jitter(seed(), 100);
    problems(g, T, [&](const Prob& p, std::vector<int> v, long mm, long tol) { if(c++ % 3 == (int)(vmpi::size() % 3) || tol > 20000 || T) par(o, g, p, v, mm, tol, c % 2, MPI_COMM_WORLD); });
    for(int t = 0; t < 24; ++t) {
      int n = g(1, 14); auto p = randsym(g, n, 50, -3, 3, t % 3 ? 30 : 2); for(int i = 0; i < n; ++i) if(!p.A[i][i]) p.A[i][i] = 1;
      pguess(o, g, p, t % 2, MPI_COMM_WORLD);
    }
  }
  MPI_Finalize();
}
