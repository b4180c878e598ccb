// P25 driver: CI ground states in determinant lists and CASCI density matrices.
#include <macis/asci/determinant_search.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/util/cas.hpp>
#include <lapack.hh>
#include "mpi_common.hpp"
#include "integrals.hpp"
using namespace vh; using namespace macis;
template <size_t N> using B = std::bitset<N>;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
using Mat = std::vector<std::vector<long>>;
template <size_t N> std::vector<B<N>> space(int norb, int na, int nb) {
  std::vector<B<N>> r;
  for(int a = 0; a < (1 << norb); ++a) if(__builtin_popcount(a) == na) for(int b = 0; b < (1 << norb); ++b) if(__builtin_popcount(b) == nb) {
      B<N> s; for(int i = 0; i < norb; ++i) { if(a >> i & 1) s.set(i); if(b >> i & 1) s.set(i + N / 2); } r.push_back(s); }
  return r;
}
template <size_t N> Mat dense(Gen<N>& g, const std::vector<B<N>>& d, int th2) {
  Mat H(d.size(), std::vector<long>(d.size()));
  for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) { double v = g.matrix_element(d[i], d[j]); H[i][j] = 2 * std::abs(v) > th2 ? I(v) : 0; }
  return H;
}
std::vector<int> component(const Mat& A, std::vector<int> in) {
  int n = A.size(); for(int t = 0; t < n; ++t) for(int i = 0; i < n; ++i) if(in[i]) for(int j = 0; j < n; ++j) if(A[i][j]) in[j] = 1;
  return in;
}
// eigenvalues of the coupled block, ascending, and the lowest one the guess has a clear component of
std::vector<double> spectrum(const Mat& A, const std::vector<int>& in, const std::vector<int>& g, double* seen) {
  std::vector<int> ix; for(size_t i = 0; i < in.size(); ++i) if(in[i]) ix.push_back(i);
  int m = ix.size(); std::vector<double> M(m * m), w(m); for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) M[i + j * m] = A[ix[i]][ix[j]];
  lapack::syev(lapack::Job::Vec, lapack::Uplo::Lower, m, M.data(), m, w.data());
  double gg = 0; for(int v : g) gg += (double)v * v;
  for(int j = m - 1; j >= 0; --j) { double o = 0; for(int i = 0; i < m; ++i) o += M[i + j * m] * g[ix[i]]; if(std::abs(o) > 1e-3 * std::sqrt(gg)) *seen = w[j]; }
  return w;
}
struct Gathered { std::vector<double> x; std::vector<int> cnt; bool sameE; };
Gathered gatherC(const std::vector<double>& C, double E, MPI_Comm c) {
  int np = vmpi::size(c); std::vector<int> cnt(np), ds(np); int n = C.size();
  PMPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, c);
  int t = 0; for(int i = 0; i < np; ++i) { ds[i] = t; t += cnt[i]; }
  Gathered r; r.x.resize(t); r.cnt = cnt; PMPI_Allgatherv(C.data(), n, MPI_DOUBLE, r.x.data(), cnt.data(), ds.data(), MPI_DOUBLE, c);
  double e[2] = {E, -E}, m[2]; PMPI_Allreduce(e, m, 2, MPI_DOUBLE, MPI_MAX, c); r.sameE = m[0] == -m[1];
  return r;
}
double resnorm(const Mat& A, const std::vector<double>& x, double E) {
  long double s = 0; if(x.size() != A.size()) return 1e9;
  for(size_t i = 0; i < A.size(); ++i) { long double a = -(long double)E * x[i]; for(size_t j = 0; j < A.size(); ++j) a += A[i][j] * (long double)x[j]; s += a * a; }
  return std::sqrt((double)s);
}
// guess kinds: 0 empty, 1 zeros, 2 one determinant, 3 spread, 4 entries too small to be a guess; +10: the solver for undistributed matrices
template <size_t N, class idx> void ground(Out& o, Rng& rg, int norb, int k, Gen<N>& g, std::vector<B<N>> d, int th2, int kind, bool ser, MPI_Comm comm) {
  int me = vmpi::rank(comm); long n = d.size();
  auto H = dense<N>(g, d, th2);
  // the guess, as integers
  std::vector<int> gi(n, 0), in(n, 0); bool dflt = kind < 2 || kind >= 4;
  int am = 0; for(int i = 1; i < n; ++i) if(H[i][i] < H[am][am]) am = i;
  if(dflt) gi[am] = 1;
  else if(kind == 2) gi[rg(0, n - 1)] = rg(0, 1) ? 1 : -1;
  else for(auto& v : gi) do v = rg(-4, 4); while(!v);
  for(int i = 0; i < n; ++i) in[i] = gi[i] != 0;
  auto comp = component(H, in); auto first = std::vector<int>(n, 0); first[std::find(comp.begin(), comp.end(), 1) - comp.begin()] = 1; bool conn = component(H, first) == comp;
  // equally low determinants in another block: which one is taken is open
  if(dflt) for(int i = 0; i < n; ++i) if(H[i][i] == H[am][am] && !comp[i]) { kind = 3; }
  if(dflt && kind == 3) return;   // (kind was changed above)
  double seen = 0; auto ev = spectrum(H, comp, gi, &seen);
  double gap = ev.size() > 1 ? ev[1] - ev[0] : 1;
  bool risky = gap < 1e-3;
  auto D = make_dist_csr_hamiltonian<idx>(comm, d.begin(), d.end(), g, th2 * 0.5);
  auto [lo, hi] = D.row_bounds(me);
  std::vector<double> C; C.reserve(4);
  if(kind == 1) C.assign(hi - lo, 0.);
  if(kind == 4) for(int i = lo; i < hi; ++i) C.push_back((i % 2 ? -.4 : .5) / n);
  else if(kind >= 2) { double s = 0; for(int v : gi) s += (double)v * v; for(int i = lo; i < hi; ++i) C.push_back(gi[i] / std::sqrt(s)); }
  std::string out = "ok"; double E = 0;
  size_t maxm = n + rg(1, 40);
  auto solve = [&]() -> double {
    if(ser) { auto A = make_csr_hamiltonian<idx>(d.begin(), d.end(), g, th2 * 0.5); return serial_selected_ci_diag(A, maxm, 1e-9, C); }
    return selected_ci_diag<N, idx>(d.begin(), d.end(), g, th2 * 0.5, maxm, 1e-9, C, comm, true);
  };
  try { E = solve(); } catch(std::exception& e) { out = "fail"; }
  int f = out != "ok", fm[2], fs[2] = {f, -f}; PMPI_Allreduce(fs, fm, 2, MPI_INT, MPI_MAX, comm); if(fm[0] != -fm[1]) out = "differ";
  auto G = gatherC(C, E, comm);
  double E2 = E; Gathered G2 = G; std::string out2 = out;
  if(out == "ok") {   // again from the solution: same answer
    try { E2 = solve(); } catch(std::exception& e) { out2 = "fail"; }
    fs[0] = out2 != "ok"; fs[1] = -fs[0]; PMPI_Allreduce(fs, fm, 2, MPI_INT, MPI_MAX, comm); if(fm[0] != -fm[1]) out2 = "differ";
    G2 = gatherC(C, E2, comm);
  }
  double nn = 0; for(double v : G.x) nn += v * v;
  if(!me) {
    Rec r("ci"); r("n", (int)N)("norb", norb)("k", k)("np", vmpi::size(comm))("dets", d)("th2", th2)("H", H)("g", gi)("dflt", dflt)("kind", kind)("ser", ser)("conn", conn)("risky", risky)("ref", F(ev[0], 1e6))("seen", F(seen, 1e6))
      ("out", out)("same", G.sameE)("cnt", G.cnt)("l6", F(E, 1e6))("x", F(G.x, 1e4))("nrm", F(nn - 1, 1e10))("res", F(resnorm(H, G.x, E), 1e10))
      ("out2", out2)("e2", F(E2, 1e6))("res2", F(resnorm(H, G2.x, E2), 1e10)); o(r); }
}
template <size_t N> void lists(Out& o, Rng& rg, int norb, int na, int nb, int k, int reps, int maxd, MPI_Comm comm) {
  Ints in(norb, k); Gen<N> g(in.Ts(), in.Vs());
  for(int t = 0; t < reps; ++t) {
    auto sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), rg.g);
    sp.resize(std::min<int>(sp.size(), rg(1, maxd)));
    int th2 = std::vector<int>{0, 0, 0, 1, 3, 8, 16, 30}[rg(0, 7)];
    for(int kind = 0; kind < 5; ++kind) if(kind == t % 5 || rg(0, 2) == 0) {
      bool ser = vmpi::size(comm) == 1 && rg(0, 1);
      std::shuffle(sp.begin(), sp.end(), rg.g);
      if((t + kind) % 2) ground<N, int32_t>(o, rg, norb, k, g, sp, th2, kind, ser, comm); else ground<N, int64_t>(o, rg, norb, k, g, sp, th2, kind, ser, comm);
    }
  }
}
template <size_t N> void casci(Out& o, Rng& rg, int norb, int na, int nb, int k, bool again, MPI_Comm comm) {
  int me = vmpi::rank(comm); Ints in(norb, k); size_t n2 = norb * norb, n4 = n2 * n2;
  Gen<N> g(in.Ts(), in.Vs()); auto d = generate_hilbert_space<N>(norb, na, nb);
  auto H = dense<N>(g, d, 0); std::vector<int> f(d.size(), 0); int am = 0; for(size_t i = 1; i < d.size(); ++i) if(H[i][i] < H[am][am]) am = i; f[am] = 1;
  auto comp = component(H, f); for(size_t i = 0; i < d.size(); ++i) if(H[i][i] == H[am][am] && !comp[i]) return;
  double seen = 0; auto ev = spectrum(H, comp, f, &seen); if(ev.size() > 1 && ev[1] - ev[0] < 1e-3) return;
  for(size_t i = 0; i < d.size(); ++i) for(double w : ev) if(std::abs(w - H[i][i]) < 1e-7 && ev.size() > 1) return;
  MCSCFSettings s; s.ci_matel_tol = 1e-12; s.ci_res_tol = 1e-9; s.ci_max_subspace = d.size() + 10;
  std::vector<double> C, o1(n2, 0.), o2(n4, 0.); double E = 0; std::string out = "ok";
  try {
    E = compute_casci_rdms<Gen<N>>(s, NumOrbital(norb), na, nb, in.T.data(), in.V.data(), o1.data(), o2.data(), C, comm);
    if(again) { std::fill(o1.begin(), o1.end(), 0.); std::fill(o2.begin(), o2.end(), 0.); E = CASRDMFunctor<Gen<N>>::rdms(s, NumOrbital(norb), (size_t)na, (size_t)nb, in.T.data(), in.V.data(), o1.data(), o2.data(), C, comm); }
  } catch(std::exception& e) { out = "fail"; }
  auto G = gatherC(C, E, comm);
  double e = 0; for(size_t i = 0; i < n2; ++i) e += in.T[i] * o1[i]; for(size_t i = 0; i < n4; ++i) e += in.V[i] * o2[i];
  auto each = vmpi::gather(vmpi::Obj()("out", out)("o1", F(o1, 1e6))("o2", norb <= 3 ? F(o2, 2e6) : std::vector<long>())("con", F(e, 1e6)).str(), comm);
  if(!me) { Rec r("casci"); r("n", (int)N)("norb", norb)("na", na)("nb", nb)("k", k)("np", vmpi::size(comm))("dets", d)("ref", F(ev[0], 1e6))("seen", F(seen, 1e6))("l6", F(E, 1e6))("same", G.sameE)("x", F(G.x, 1e4))("res", F(resnorm(H, G.x, E), 1e10)).raw("ranks", each); o(r); }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  for(auto n : {"asci_search", "ci_solver", "davidson"}) spdlog::null_logger_mt(n);
  {
    Out o; if(!vmpi::rank()) o.open("");
    bool T = thorough(); Rng rg(250 + vmpi::size()); vmpi::set_jitter(seed(), 60);
    MPI_Comm half; MPI_Comm_split(MPI_COMM_WORLD, 0, vmpi::rank() ? -vmpi::rank() : -1000, &half);   // other process order
    for(int k = 0; k < (T ? 6 : 1); ++k) {
      int kk = rg(0, 200);
      lists<64>(o, rg, 1, 1, 0, kk, 1, 1, MPI_COMM_WORLD); lists<64>(o, rg, 2, 1, 1, kk, 3, 4, MPI_COMM_WORLD);
      lists<128>(o, rg, 3, 2, 1, kk, 4, 9, MPI_COMM_WORLD); lists<64>(o, rg, 4, 2, 2, kk, T ? 12 : 5, 24, MPI_COMM_WORLD); lists<64>(o, rg, 4, 1, 2, kk, 2, 20, MPI_COMM_WORLD);
    }
    for(int t = 0; t < (T ? 30 : 6); ++t) {
      int norb = rg(1, T ? 4 : 3 + (t == 0)), na = rg(0, norb), nb = rg(0, norb); if(na + nb == 0) na = 1;
      casci<64>(o, rg, norb, na, nb, rg(0, 200), t % 2, t % 3 ? MPI_COMM_WORLD : half);
    }
    MPI_Comm_free(&half);
  }
  MPI_Finalize();
}
