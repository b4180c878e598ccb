// P13 driver: every parallel routine, with its communication recorded; the
// communication helpers by value.
#include <macis/asci/determinant_search.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/dist_quickselect.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/util/mpi.hpp>
#include <unistd.h>
#include <functional>
#include "mpi_common.hpp"
#include "integrals.hpp"
using namespace vh; using namespace macis;
template <size_t N> using B = std::bitset<N>;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
static Out* OUT;
// run f on the processes of comm and record what each of them communicated
void record(const std::string& what, MPI_Comm comm, const std::function<void()>& f) {
  vmpi::log_start(); std::string out = "ok";
  try { f(); } catch(std::exception&) { out = "fail"; }
  auto lg = vmpi::log_stop(); std::vector<int> procs(vmpi::size(comm)); int me = vmpi::rank();
  PMPI_Allgather(&me, 1, MPI_INT, procs.data(), 1, MPI_INT, comm);
  auto all = vmpi::gather(vmpi::arr(lg), comm), outs = vmpi::gather("\"" + out + "\"", comm);
  if(!vmpi::rank(comm)) (*OUT)(Rec("calls")("what", what)("procs", procs).raw("out", outs).raw("logs", all));
}
template <size_t N> std::vector<B<N>> space(int norb, int na, int nb) {
  std::vector<B<N>> r;
  for(int a = 0; a < (1 << norb); ++a) if(__builtin_popcount(a) == na) for(int b = 0; b < (1 << norb); ++b) if(__builtin_popcount(b) == nb) {
      B<N> s; for(int i = 0; i < norb; ++i) { if(a >> i & 1) s.set(i); if(b >> i & 1) s.set(i + N / 2); } r.push_back(s); }
  return r;
}
void quick(Rng& g, MPI_Comm c) {
  int np = vmpi::size(c), me = vmpi::rank(c), n = g(1, 30); std::vector<double> mine; int vals = g(1, 12), skew = g(0, 2);
  for(int i = 0; i < n; ++i) { double v = g(0, vals); int p = skew == 0 ? g(0, np - 1) : skew == 1 ? 0 : std::min(np - 1, (int)v * np / (vals + 1)); if(p == me) mine.push_back(v); }
  int k = g(1, n); mine.reserve(1);
  record("dist_quickselect", c, [&] { dist_quickselect(mine.begin(), mine.end(), k, c, std::greater<double>(), std::equal_to<double>()); });
}
template <size_t N> void search(Rng& g, MPI_Comm c) {
  int norb = g(2, 4), na = g(1, norb - 1), nb = g(0, norb); Ints in(norb, g(0, 300)); Gen<N> h(in.Ts(), in.Vs());
  auto sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), g.g); int nc = std::min<int>(sp.size(), g(1, 4)); sp.resize(nc); std::vector<double> C(nc); for(auto& x : C) x = g(1, 5);
  ASCISettings st; st.pair_size_max = g(0, 3) ? 20000 : 10; st.h_el_tol = g(0, 1) ? 1e-8 : 1.5; st.just_singles = g(0, 4) == 0; st.constraint_level = g(0, 3); st.rv_prune_tol = g(0, 1) ? 0 : 1e-3; size_t nmax = nc + (g(0, 2) ? g(0, 12) : 400);
  record("asci_search", c, [&] { asci_search<N>(st, nmax, sp.begin(), sp.end(), -70.5, C, norb, h.T(), h.G_red(), h.V_red(), h.G(), h.V(), h, c); });
}
// Hamiltonians: set-up, product, diagonalisation with guesses that only some processes think are usable
template <size_t N, class idx> void ham(Rng& g, MPI_Comm c) {
  int norb = g(1, 4), na = g(0, norb), nb = g(0, norb); if(na + nb == 0) na = 1; Ints in(norb, g(0, 300)); Gen<N> h(in.Ts(), in.Vs());
  auto sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), g.g); sp.resize(std::min<int>(sp.size(), g(1, 20))); double th = std::vector<double>{0, 0, .5, 2}[g(0, 3)];
  std::unique_ptr<sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, idx>>> H;
  record("make_dist_csr_hamiltonian", c, [&] { H.reset(new sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, idx>>(make_dist_csr_hamiltonian<idx>(c, sp.begin(), sp.end(), h, th))); });
  auto [lo, hi] = H->row_bounds(vmpi::rank(c)); std::vector<double> x(hi - lo + 1, 1.), y(hi - lo + 1, 0.);
  record("operator", c, [&] { SparseMatrixOperator op(*H); for(int i = 0; i < 3; ++i) op.operator_action(1, 1., x.data(), hi - lo, 0., y.data(), hi - lo); });
  record("spmv_info", c, [&] { auto info = sparsexx::spblas::generate_spmv_comm_info(*H); info.communication_volume(); sparsexx::spblas::pgespmv(2., *H, x.data(), 1., y.data(), info); sparsexx::spblas::pgespmv(1., *H, y.data(), 0., x.data(), info); });
  record("p_diagonal_guess", c, [&] { p_diagonal_guess(hi - lo, *H, x.data()); });
  int kind = g(0, 4), big = g(0, vmpi::size(c) - 1); std::vector<double> C; C.reserve(4);
  if(kind == 1) C.assign(hi - lo, 0.); if(kind == 2) C.assign(hi - lo, 1. / std::sqrt((double)sp.size())); if(kind == 3) { C.assign(hi - lo, 0.); if(vmpi::rank(c) == big && hi > lo) C[0] = 1.; } if(kind == 4) C.assign(hi - lo, .1 / sp.size());
  size_t maxm = g(0, 4) ? sp.size() + 20 : g(1, 3);
  record("parallel_selected_ci_diag", c, [&] { if(vmpi::size(c) > 1) parallel_selected_ci_diag(*H, maxm, 1e-8, C, c); });
  C.clear();
  record("selected_ci_diag", c, [&] { selected_ci_diag<N, idx>(sp.begin(), sp.end(), h, th, maxm, 1e-8, C, c, g.coin()); });
}
template <size_t N> void casci(Rng& g, MPI_Comm c) {
  int norb = g(1, 3), na = g(0, norb), nb = g(0, norb); if(na + nb == 0) na = 1; Ints in(norb, g(0, 300)); size_t n2 = norb * norb; MCSCFSettings s; s.ci_res_tol = 1e-8; std::vector<double> o1(n2), o2(n2 * n2), C;
  record("compute_casci_rdms", c, [&] { compute_casci_rdms<Gen<N>>(s, NumOrbital(norb), na, nb, in.T.data(), in.V.data(), o1.data(), o2.data(), C, c); });
}
template <size_t N, class idx> void grow(Rng& g, MPI_Comm c) {
  int norb = g(2, 4), na = g(1, norb - 1), nb = g(0, norb); Ints in(norb, g(0, 300)); Gen<N> h(in.Ts(), in.Vs()); auto sp = space<N>(norb, na, nb); int full = sp.size(); std::shuffle(sp.begin(), sp.end(), g.g); sp.resize(std::min(full, g(1, 4)));
  MCSCFSettings ms; ms.ci_matel_tol = 1e-12; ms.ci_res_tol = 1e-8; ASCISettings as; as.ntdets_max = g(1, full + 1); as.ntdets_min = g(0, 3); as.ncdets_max = g(1, 30); as.grow_factor = g(1, 4); as.grow_with_rot = g(0, 2) == 0; as.rot_size_start = g(1, full); as.max_refine_iter = g(0, 4); as.refine_energy_tol = g(0, 1) ? 1e-3 : 1.;
  std::vector<double> X; double E = 0; { std::vector<double> Xl; try { E = selected_ci_diag<N, int32_t>(sp.begin(), sp.end(), h, 1e-12, 200, 1e-8, Xl, MPI_COMM_SELF, true); } catch(std::exception&) { return; } X = Xl; }
  auto w = sp; auto Y = X; double E1 = E; bool ok = false;
  record("asci_grow", c, [&] { std::tie(E1, w, Y) = asci_grow<N, idx>(as, ms, E, sp, X, h, norb, c); ok = true; });
  int me = ok, all; PMPI_Allreduce(&me, &all, 1, MPI_INT, MPI_MIN, c); if(!all) { w = sp; Y = X; E1 = E; }
  record("asci_refine", c, [&] { asci_refine<N, idx>(as, ms, E1, w, Y, h, norb, c); });
}
void files(Rng& g, MPI_Comm c) {
  int n = g(1, 7); using M = sparsexx::csr_matrix<double, int32_t>; std::vector<int> rp{0}, ci; std::vector<double> nz;
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(g(0, 2) == 0) { ci.push_back(j); nz.push_back(g(1, 9)); } rp.push_back(ci.size()); }
  M A(n, n, std::move(rp), std::move(ci), std::move(nz)); sparsexx::dist_sparse_matrix<M> D(c, A);
  char* o = getenv("VERIF_OUT"); std::string fn = std::string(o) + ".mm" + std::to_string(vmpi::size(c)); 
  fflush(stdout); record("write_dist_mm", c, [&] { sparsexx::write_dist_mm(fn, D, g.coin() ? 1 : -1); });
  PMPI_Barrier(c); if(!vmpi::rank(c)) unlink(fn.c_str());
}
// helpers -------------------------------------------------------------------
template <class T> std::vector<long> L(const std::vector<T>& v) { std::vector<long> r; for(auto x : v) r.push_back((long)x); return r; }
void helper(const char* what, const std::string& f, int root, const std::string& in, const std::string& out, MPI_Comm c) {
  auto a = vmpi::gather(in, c), b = vmpi::gather(out, c); if(!vmpi::rank(c)) (*OUT)(Rec("helper")("what", what)("f", f)("root", root).raw("in", a).raw("out", b)); }
template <class T> void reduce(Rng& g, MPI_Comm c, int lo) {
  int n = g(0, 5), me = vmpi::rank(c); Rng m(1000 * g(0, 1000) + me); std::vector<T> x(n + 1), y; for(auto& v : x) v = T(m(lo, 30)); y = x;
  for(auto [op, nm] : {std::pair<MPI_Op, const char*>{MPI_SUM, "sum"}, {MPI_MAX, "max"}, {MPI_MIN, "min"}}) {
    std::vector<T> a(n), b(n), e(1); std::copy_n(x.begin(), n, a.begin());
    macis::allreduce(a.data(), b.data(), n, op, c); helper("allreduce", nm, 0, js(L(std::vector<T>(x.begin(), x.begin() + n))), js(L(b)), c);
    macis::allreduce(a.data(), n, op, c); helper("allreduce", nm, 0, js(L(std::vector<T>(x.begin(), x.begin() + n))), js(L(a)), c);
    e[0] = macis::allreduce(x[n], op, c); helper("allreduce", nm, 0, js(L(std::vector<T>{x[n]})), js(L(e)), c);
  }
  for(int root = 0; root < vmpi::size(c); ++root) { auto z = x; macis::bcast(z.data(), n + 1, root, c); helper("bcast", "", root, js(L(x)), js(L(z)), c); auto z0 = x; macis::bcast(z0.data(), 0, root, c); helper("allgather", "", 0, "[]", "[]", c); if(z0 != x) abort(); }
}
template <class T> void sreduce(Rng& g, MPI_Comm c, int lo) {
  using namespace sparsexx::detail; int n = g(1, 5), me = vmpi::rank(c), np = vmpi::size(c); Rng m(1000 * g(0, 1000) + me); std::vector<T> x(n); for(auto& v : x) v = T(m(lo, 30));
  for(auto [op, nm] : {std::pair<MPI_Op, const char*>{MPI_SUM, "sum"}, {MPI_MAX, "max"}, {MPI_MIN, "min"}}) { std::vector<T> e{mpi_allreduce(x[0], op, c)}; helper("allreduce", nm, 0, js(L(std::vector<T>{x[0]})), js(L(e)), c); }
  helper("allgather", "", 0, js(L(x)), js(L(mpi_allgather(x, c))), c); std::vector<T> r(n * np); mpi_allgather(x.data(), n, r.data(), c); helper("allgather", "", 0, js(L(x)), js(L(r)), c);
  int root = g(0, np - 1); auto z = x; mpi_bcast(z, root, c); helper("bcast", "", root, js(L(x)), js(L(z)), c); z = x; mpi_bcast(z.data(), n, root, c); helper("bcast", "", root, js(L(x)), js(L(z)), c);
  std::vector<T> in(n); std::vector<MPI_Request> rq{mpi_irecv(in, (me + np - 1) % np, 3, c), mpi_isend(x, (me + 1) % np, 3, c)}; mpi_waitall_ignore_status(rq); helper("shift", "", 0, js(L(x)), js(L(in)), c);
  std::vector<T> in2(n); std::vector<MPI_Request> rq2{mpi_irecv(in2.data(), n, (me + np - 1) % np, 4, c), mpi_isend(x.data(), n, (me + 1) % np, 4, c)}; mpi_waitall_ignore_status(rq2); helper("shift", "", 0, js(L(x)), js(L(in2)), c);
  helper("rank", "", 0, "[]", js(std::vector<long>{(long)get_mpi_rank(c), (long)get_mpi_size(c), comm_rank(c), comm_size(c)}), c);
}
template <size_t N> void wide(Rng& g, MPI_Comm c) {
  int n = g(1, 4), root = g(0, vmpi::size(c) - 1); Rng m(77 * g(0, 1000) + vmpi::rank(c)); std::vector<B<N>> x(n); for(auto& b : x) for(size_t i = 0; i < N; ++i) if(m(0, 2) == 0) b.set(i);
  auto z = x; bcast(z.data(), n, root, c); helper("bcast", "", root, js(x), js(z), c);
  auto dt = mpi_traits<B<N>>::datatype(); std::vector<B<N>> all(n * vmpi::size(c)); MPI_Allgather(x.data(), n, dt, all.data(), n, dt, c); helper("allgather", "", 0, js(x), js(all), c);
  auto d2 = make_contiguous_mpi_datatype<int>(3); std::vector<int> p(6); for(auto& v : p) v = m(-99, 99); auto p2 = p; MPI_Bcast(p2.data(), 2, d2, root, c); helper("bcast", "", root, js(p), js(p2), c);
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  for(auto n : {"asci_search", "ci_solver", "davidson", "asci_grow", "asci_refine"}) spdlog::null_logger_mt(n);
  {
    Out o; OUT = &o; if(!vmpi::rank()) o.open(""); bool T = thorough(); Rng g(130 + vmpi::size()); MPI_Comm W = MPI_COMM_WORLD, rev, odd;
    vmpi::set_jitter(seed(), 40);
    MPI_Comm_split(W, 0, vmpi::rank() ? -vmpi::rank() : -1000, &rev);                 // another process order
    int np = vmpi::size(); MPI_Comm_split(W, vmpi::rank() == 1 && np > 1, 0, &odd);   // process 1 left out
    for(int t = 0; t < (T ? 60 : 8); ++t) {
      MPI_Comm c = t % 4 == 2 ? rev : t % 4 == 3 ? odd : W;
      auto st = g.g; bool out = t % 4 == 3 && np > 1 && vmpi::rank() == 1;
      if(!out) {
        for(int i = 0; i < 3; ++i) quick(g, c);
        if(t % 2) search<64>(g, c); else search<128>(g, c);
        if(t % 2) ham<64, int32_t>(g, c); else ham<128, int64_t>(g, c);
        casci<64>(g, c); if(t % 2) grow<128, int32_t>(g, c); else grow<64, int64_t>(g, c); files(g, c);
        reduce<int>(g, c, -30); reduce<double>(g, c, -30); reduce<float>(g, c, -30); reduce<size_t>(g, c, 0);
        sreduce<int>(g, c, -30); sreduce<double>(g, c, -30); sreduce<int64_t>(g, c, -30); sreduce<uint64_t>(g, c, 0); sreduce<unsigned>(g, c, 0);
        wide<64>(g, c); wide<128>(g, c); wide<256>(g, c);
      }
      PMPI_Barrier(W); (void)st; g = Rng(1300 + np * 100 + t);
    }
    MPI_Comm_free(&rev); MPI_Comm_free(&odd);
  }
  MPI_Finalize();
}
