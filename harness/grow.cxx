// P22 driver: ASCI growth and refinement.  The lists the algorithm goes
// through are observed from a Hamiltonian generator that records them.
#include <macis/asci/determinant_search.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <lapack.hh>
#include "mpi_common.hpp"
#include "integrals.hpp"
using namespace vh; using namespace macis;
template <size_t N> using B = std::bitset<N>;
template <size_t N> struct Spy : DoubleLoopHamiltonianGenerator<N> {
  using base = DoubleLoopHamiltonianGenerator<N>; using it = typename base::full_det_iterator;
  std::vector<std::vector<B<N>>> hist;
  template <class... A> Spy(A&&... a) : base(std::forward<A>(a)...) {}
  typename base::template sparse_matrix_type<int32_t> make_csr_hamiltonian_block_32bit_(it a, it b, it c, it d, double t) override {
    hist.emplace_back(c, d); return base::make_csr_hamiltonian_block_32bit_(a, b, c, d, t); }
  typename base::template sparse_matrix_type<int64_t> make_csr_hamiltonian_block_64bit_(it a, it b, it c, it d, double t) override {
    hist.emplace_back(c, d); return base::make_csr_hamiltonian_block_64bit_(a, b, c, d, t); }
};
template <size_t N> std::vector<B<N>> space(int norb, int na, int nb) {
  std::vector<B<N>> r;
  for(int a = 0; a < (1 << norb); ++a) if(__builtin_popcount(a) == na) for(int b = 0; b < (1 << norb); ++b) if(__builtin_popcount(b) == nb) {
      B<N> s; for(int i = 0; i < norb; ++i) { if(a >> i & 1) s.set(i); if(b >> i & 1) s.set(i + N / 2); } r.push_back(s); }
  return r;
}
template <size_t N> std::vector<double> densevals(HamiltonianGenerator<N>& g, const std::vector<B<N>>& d, const std::vector<double>* x, double E, double* res, double* quad) {
  size_t n = d.size(); std::vector<double> M(n * n), w(n);
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) M[i + j * n] = g.matrix_element(d[i], d[j]);
  if(x) { long double s = 0, q = 0; for(size_t i = 0; i < n; ++i) { long double a = 0; for(size_t j = 0; j < n; ++j) a += M[i + j * n] * (long double)(*x)[j]; q += a * (*x)[i]; a -= (long double)E * (*x)[i]; s += a * a; } *res = std::sqrt((double)s); *quad = (double)q; }
  lapack::syev(lapack::Job::NoVec, lapack::Uplo::Lower, n, M.data(), n, w.data()); return w;
}
struct Case { int norb, na, nb, k, gf, ntmin, ntmax, ncd, w0; bool js, rot; int rotst, maxit; long tol6; };
template <size_t N> double energy(HamiltonianGenerator<N>& g, std::vector<B<N>> d, const MCSCFSettings& m, bool& ok) {
  std::vector<double> X; try { ok = true; return selected_ci_diag<N, int32_t>(d.begin(), d.end(), g, m.ci_matel_tol, m.ci_max_subspace, m.ci_res_tol, X, MPI_COMM_SELF, true); } catch(std::exception&) { ok = false; return 0; }
}
template <size_t N> std::vector<long> E6(HamiltonianGenerator<N>& g, const std::vector<std::vector<B<N>>>& h, const MCSCFSettings& m) {
  std::vector<long> e; for(auto& d : h) { bool ok; double x = energy<N>(g, d, m, ok); e.push_back(ok ? F(x, 1e6) : BAD); } return e;
}
template <size_t N> std::vector<int> sizes(const std::vector<std::vector<B<N>>>& h) { std::vector<int> s; for(auto& x : h) s.push_back(x.size()); return s; }
template <size_t N, class idx> void run(Out& o, const Case& c, MPI_Comm comm) {
  int me = vmpi::rank(comm), np = vmpi::size(comm);
  Ints in(c.norb, c.k), in0(c.norb, c.k); Spy<N> g(in.Ts(), in.Vs()); DoubleLoopHamiltonianGenerator<N> g0(in0.Ts(), in0.Vs());
  auto full = space<N>(c.norb, c.na, c.nb);
  // start: the determinants of lowest energy
  std::vector<std::pair<double, int>> dg; for(size_t i = 0; i < full.size(); ++i) dg.push_back({g0.matrix_element(full[i], full[i]), (int)i}); std::sort(dg.begin(), dg.end());
  std::vector<B<N>> wfn; for(int i = 0; i < c.w0; ++i) wfn.push_back(full[dg[i].second]);
  ASCISettings as; as.ntdets_max = c.ntmax; as.ntdets_min = c.ntmin; as.ncdets_max = c.ncd; as.grow_factor = c.gf; as.pair_size_max = 100000; as.just_singles = c.js;
  as.grow_with_rot = c.rot; as.rot_size_start = c.rotst; as.max_refine_iter = c.maxit; as.refine_energy_tol = c.tol6 * 1e-6;
  MCSCFSettings ms; ms.ci_matel_tol = 1e-12; ms.ci_res_tol = 1e-8; ms.ci_max_subspace = 200;
  std::vector<double> X; std::string out = "ok"; double E0 = 0;
  { std::vector<double> Xl; try { E0 = selected_ci_diag<N, int32_t>(wfn.begin(), wfn.end(), g0, 1e-12, 200, 1e-8, Xl, MPI_COMM_SELF, true); } catch(std::exception&) { return; } X = Xl; }
  auto w0 = wfn; auto X0 = X;
  double E = 0; std::vector<B<N>> w1; std::vector<double> X1;
  bool serok = true;       // what one process makes of it
  if(np > 1) { Ints in2(c.norb, c.k); DoubleLoopHamiltonianGenerator<N> g2(in2.Ts(), in2.Vs()); vmpi::set_jitter(0, 0);
    try { asci_grow<N, idx>(as, ms, E0, wfn, X, g2, c.norb, MPI_COMM_SELF); } catch(std::exception& e) { serok = false; } vmpi::set_jitter(seed(), 40); }
  try { std::tie(E, w1, X1) = asci_grow<N, idx>(as, ms, E0, wfn, X, g, c.norb, comm); } catch(std::exception& e) { out = "fail"; }
  auto hist = g.hist;
  double ref0 = densevals<N>(g0, full, nullptr, 0, nullptr, nullptr)[0], ref1 = densevals<N>(g, full, nullptr, 0, nullptr, nullptr)[0];
  auto show = [&](const std::string& out, double E, const std::vector<B<N>>& w, const std::vector<double>& X) {
    double res = -1, quad = 0, nn = 0; for(double v : X) nn += v * v;
    if(out == "ok" && X.size() == w.size()) densevals<N>(g, w, &X, E, &res, &quad);
    return vmpi::Obj()("out", out)("e6", F(E, 1e6))("dets", w)("x", F(X, 1e4))("nrm", F(nn - 1, 1e10))("res", F(res, 1e8))("quad", F(quad, 1e6)).str(); };
  auto all = vmpi::gather(show(out, E, w1, X1), comm);
  long th = 0; for(size_t i = 0; i < in.T.size(); ++i) th += F(in.T[i], 1e5); for(size_t i = 0; i < in.V.size(); ++i) th = (th * 3 + F(in.V[i], 1e5)) % 1000000007;
  auto ths = vmpi::gather(js(th), comm);
  // is the solver itself able to handle the last list?
  bool davok = true; if(!hist.empty() && np == 1 && !c.rot) energy<N>(g0, hist.back(), ms, davok);
  auto base = [&](const char* op) { Rec r(op); r("n", (int)N)("norb", c.norb)("na", c.na)("nb", c.nb)("k", c.k)("np", np)("gf", c.gf)("ntmin", c.ntmin)("ntmax", c.ntmax)("w0", w0)("x0", F(X0, 1e4))("e0", F(E0, 1e6))("rot", c.rot)("rotst", c.rotst)("full", (int)full.size())("davok", davok)("serok", serok); return r; };
  if(!me) { auto r = base("grow"); r("ref0", F(ref0, 1e6))("ref1", F(ref1, 1e6))("hist", np == 1 ? sizes<N>(hist) : std::vector<int>()).raw("ranks", all).raw("ints", ths); o(r); }
  int okall = out == "ok", mn; PMPI_Allreduce(&okall, &mn, 1, MPI_INT, MPI_MIN, comm);
  // refine, from the grown list or (when growth failed) from the start
  if(!mn) { if(c.rot) return; w1 = w0; X1 = X0; E = E0; }
  if(c.rot) { E = energy<N>(g, w1, ms, davok); if(!davok) return; }
  // or from the weightiest determinants of the exact state, which one round from few can only spoil
  if(!c.rot && c.k % 3 == 0) {
    try {
      std::vector<double> Xf; auto f = full; selected_ci_diag<N, int32_t>(f.begin(), f.end(), g0, 1e-12, 200, 1e-8, Xf, MPI_COMM_SELF, true);
      size_t m = std::min(full.size(), std::max<size_t>(2, full.size() / 3)); reorder_ci_on_coeff(f, Xf); f.resize(m);
      Xf.clear(); E = selected_ci_diag<N, int32_t>(f.begin(), f.end(), g0, 1e-12, 200, 1e-8, Xf, MPI_COMM_SELF, true); w1 = f; X1 = Xf; as.ncdets_max = 1 + c.k % 2;
    } catch(std::exception&) { return; }
  }
  auto wr = w1; auto xr = X1; double er = E; g.hist.clear(); std::string out2 = "ok"; double E2 = 0; std::vector<B<N>> w2; std::vector<double> X2;
  try { std::tie(E2, w2, X2) = asci_refine<N, idx>(as, ms, E, w1, X1, g, c.norb, comm); } catch(std::exception& e) { out2 = "fail"; }
  auto h2 = g.hist;
  auto es = np == 1 ? E6<N>(g, h2, ms) : std::vector<long>();
  auto all2 = vmpi::gather(show(out2, E2, w2, X2), comm);
  if(!me) { auto r = base("refine"); r("size", (int)wr.size())("es", F(er, 1e6))("maxit", c.maxit)("tol", c.tol6)("hist", np == 1 ? sizes<N>(h2) : std::vector<int>())("ens", es)("lists", np == 1 ? h2 : std::vector<std::vector<B<N>>>()).raw("ranks", all2); o(r); }
}
// one round of search and diagonalisation, from a list in no particular order
template <size_t N, class idx> void iter(Out& o, Rng& g, int t, MPI_Comm comm) {
  int me = vmpi::rank(comm), np = vmpi::size(comm);
  int norb = g(3, 5), na = g(t % 4 ? 1 : 0, norb - 1), nb = g(t % 5 ? 1 : 0, norb - 1); if(norb == 5) { na = std::min(na, 3); nb = std::min(nb, 2); }
  int k = t % 5; Ints in(norb, k); Spy<N> ham(in.Ts(), in.Vs());
  auto full = space<N>(norb, na, nb); std::vector<int> p(full.size()); for(size_t i = 0; i < p.size(); ++i) p[i] = i;
  for(size_t i = p.size(); i-- > 1;) std::swap(p[i], p[g(0, (int)i)]);
  int m = g(t % 3 ? 2 : 1, std::max(2, std::min<int>(full.size(), 9))); m = std::min<int>(m, full.size());
  std::vector<B<N>> w; std::vector<int> c; for(int i = 0; i < m; ++i) { w.push_back(full[p[i]]); c.push_back((i + 1) * (g.coin() ? 1 : -1)); }
  for(int i = m; i-- > 1;) { std::swap(c[i], c[g(0, i)]); } 
  std::vector<double> X(c.begin(), c.end());
  int E2 = 2 * (-60 - g(0, 30)) + 1;
  ASCISettings as; as.ncdets_max = t % 3 ? g(1, std::max(1, m - 1)) : g(m, m + 3); as.pair_size_max = 100000; as.just_singles = t % 6 == 4; as.constraint_level = g(0, 3);
  int nc = std::min<int>(as.ncdets_max, m); size_t nmax = nc + (t % 4 == 0 ? 400 : g(1, 12));
  MCSCFSettings ms; ms.ci_matel_tol = 1e-12; ms.ci_res_tol = 1e-8; ms.ci_max_subspace = 200;
  std::string out = "ok"; double E = 0; std::vector<B<N>> w1; std::vector<double> X1;
  try { std::tie(E, w1, X1) = asci_iter<N, idx>(as, ms, nmax, E2 * 0.5, w, X, ham, norb, comm); } catch(std::exception&) { out = "fail"; }
  auto list = ham.hist.empty() ? std::vector<B<N>>() : ham.hist.back();
  bool davok = true; if(np == 1) { Ints in0(norb, k); DoubleLoopHamiltonianGenerator<N> g0(in0.Ts(), in0.Vs()); if(list.size()) energy<N>(g0, list, ms, davok); } else davok = out == "ok";
  double res = -1, quad = 0, nn = 0; for(double v : X1) nn += v * v;
  if(out == "ok" && X1.size() == w1.size()) densevals<N>(ham, w1, &X1, E, &res, &quad);
  auto all = vmpi::gather(vmpi::Obj()("out", out)("e6", F(E, 1e6))("dets", w1)("x", F(X1, 1e4))("nrm", F(nn - 1, 1e10))("res", F(res, 1e8))("quad", F(quad, 1e6)).str(), comm);
  if(!me) o(Rec("iter")("n", (int)N)("norb", norb)("na", na)("nb", nb)("k", k)("np", np)("dets", w)("c", c)("e2", E2)("ncd", nc)("nmax", (long)nmax)("js", as.just_singles)("rot", false)
    ("list", np == 1 ? list : std::vector<B<N>>())("davok", davok).raw("ranks", all));
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  for(auto n : {"asci_search", "ci_solver", "davidson", "asci_grow", "asci_refine"}) spdlog::null_logger_mt(n);
  {
    Out o; if(!vmpi::rank()) o.open("");
    bool T = thorough(); Rng rg(220); Rng ri(221); vmpi::set_jitter(seed(), 40);
    for(int t = 0; t < (T ? 400 : 48); ++t) {
      Case c; c.norb = t % 8 == 0 ? 2 : rg(3, 4); do { c.na = rg(0, c.norb); c.nb = rg(0, c.norb); } while(c.na % c.norb == 0 && c.nb % c.norb == 0);
      c.k = rg(0, 300); c.gf = rg(0, 11) ? rg(2, 4) : 1; auto bin = [](int n, int k) { long b = 1; for(int i = 0; i < k; ++i) b = b * (n - i) / (i + 1); return (int)b; };
      int full = bin(c.norb, c.na) * bin(c.norb, c.nb);
      c.w0 = rg(1, std::min(full, 4)); c.ntmax = rg(t % 6 == 5 ? 1 : full / 2 + 1, full + (t % 9 == 0 ? 3 : 0)); if(t % 5 == 0) c.ntmax = full;
      c.ntmin = rg(0, 1) ? 0 : rg(1, full); if(c.gf == 1 && c.ntmin == 0) c.ntmin = rg(1, full);
      c.ncd = rg(0, 2) ? 1000 : rg(1, full); c.js = rg(0, 9) == 0; c.rot = t % 3 == 2; c.rotst = rg(1, full / 2 + 1); c.maxit = rg(0, 6); c.tol6 = std::vector<long>{1000, 10, 300000, 1, 20000000, 90000000}[rg(0, 5)];
      if(t % 16 == 7) { c.norb = 5; c.na = 2; c.nb = t % 32 == 7 ? 2 : 1; c.ntmax = rg(34, 48); c.w0 = rg(2, 12); c.ntmin = 0; c.gf = 3; c.rot = false; c.js = false; c.maxit = 6; c.ncd = rg(4, 12); c.tol6 = 90000000; }
      if(t % 2) iter<64, int32_t>(o, ri, t, MPI_COMM_WORLD); else iter<128, int64_t>(o, ri, t, MPI_COMM_WORLD);
      if(t % 2) run<64, int32_t>(o, c, MPI_COMM_WORLD); else run<128, int64_t>(o, c, MPI_COMM_WORLD);
    }
  }
  MPI_Finalize();
}
