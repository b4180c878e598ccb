// P06 driver: distributed Hamiltonian and its action.
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/solvers/davidson.hpp>
#include "mpi_common.hpp"
#include "integrals.hpp"
using namespace vh; using namespace macis;
static double UNIT = 1;
static std::vector<long> U(std::vector<double> v, double u = UNIT) { for(auto& x : v) x /= u; return I(v); }
template <size_t N> using B = std::bitset<N>;
template <class M> std::string csr(const M* A) {
  vmpi::Obj o;
  if(!A) return o("has", false).str();
  std::vector<long> rp(A->rowptr().begin(), A->rowptr().end()), ci(A->colind().begin(), A->colind().end());
  return o("has", true)("m", (long)A->m())("n", (long)A->n())("nnz", (long)A->nnz())("ind", (long)A->indexing())("rp", rp)("ci", ci)
    ("nz", U(std::vector<double>(A->nzval().begin(), A->nzval().end()))).str();
}
template <size_t N, class idx> void one(Out& o, int norb, int k, std::vector<B<N>> d, int th2, DoubleLoopHamiltonianGenerator<N>& g, Rng& rg, MPI_Comm comm, bool big = false) {
  int me = vmpi::rank(comm), np = vmpi::size(comm);
  long n = d.size();
  std::vector<int> x(n), w(n); for(auto& v : x) v = rg(-9, 9); for(auto& v : w) v = rg(-9, 9);
  int al = rg(1, 3), be = rg(0, 2);
  auto H = make_dist_csr_hamiltonian<idx>(comm, d.begin(), d.end(), g, th2 * 0.5 * UNIT);
  auto [lo, hi] = H.row_bounds(me);
  std::vector<std::pair<long, long>> ext; for(int i = 0; i < np; ++i) ext.push_back({H.row_bounds(i).first, H.row_bounds(i).second});
  std::vector<double> xl, y, y2; for(long i = lo; i < hi; ++i) { xl.push_back(x[i]); y.push_back(w[i] * UNIT); }
  y2.assign(y.size(), 0.); y.reserve(4); xl.reserve(4); y2.reserve(4);
  auto info = sparsexx::spblas::generate_spmv_comm_info(H);
  vmpi::set_jitter(rg(0, 1 << 20), rg(0, 2) ? 0 : 300);
  sparsexx::spblas::pgespmv(al, H, xl.data(), be, y.data(), info);
  // a chain of applications through the solver's operator
  SparseMatrixOperator op(H);
  op.operator_action(1, 1., xl.data(), xl.size(), 0., y2.data(), xl.size());
  std::vector<double> y3(y2.size(), 0.); y3.reserve(4);
  op.operator_action(1, 1., y2.data(), xl.size(), 0., y3.data(), xl.size());
  vmpi::set_jitter(0, 0);
  auto s = vmpi::Obj().raw("ext", js(ext))("lo", (long)lo)("hi", (long)hi)("locext", (long)H.local_row_extent())("locst", (long)H.local_row_start())("nnz", (long)H.nnz())
    .raw("dg", csr(H.diagonal_tile_ptr().get())).raw("od", csr(H.off_diagonal_tile_ptr().get()))
    ("y", U(y))("y2", U(y2))("y3", U(y3, UNIT * UNIT)).str();
  auto all = vmpi::gather(s, comm);
  if(!me) { Rec r("dist"); r("n", (int)N)("norb", norb)("k", k)("np", np)("dets", d)("th2", th2)("x", x)("w", w)("al", al)("be", be)("m", (long)H.m())("nn", (long)H.n()).raw("ranks", all);
    if(big) {  // per row, the columns within two excitations
      std::vector<std::vector<long>> near(n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) if((d[i] ^ d[j]).count() <= 4) near[i].push_back(j);
      r("near", near); }
    o(r); }
}
template <size_t N> std::vector<B<N>> space(int norb, int na, int nb) {
  std::vector<B<N>> r;
  for(int a = 0; a < (1 << norb); ++a) if(__builtin_popcount(a) == na) for(int b = 0; b < (1 << norb); ++b) if(__builtin_popcount(b) == nb) {
      B<N> s; for(int i = 0; i < norb; ++i) { if(a >> i & 1) s.set(i); if(b >> i & 1) s.set(i + N / 2); } r.push_back(s); }
  return r;
}
template <size_t N> void batch(Out& o, Rng& rg, int norb, int na, int nb, int k, int reps, int maxd, MPI_Comm comm) {
  static int calls = 0; static const int ex[] = {0, -30, 20};  // powers of two the integrals are scaled by
  UNIT = std::ldexp(1., ex[calls++ % 3]); Ints in(norb, k, UNIT); DoubleLoopHamiltonianGenerator<N> g(in.Ts(), in.Vs());
  for(int t = 0; t < reps; ++t) {
    auto sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), rg.g);
    int m = std::min<int>(sp.size(), rg(1, maxd)); sp.resize(m);
    int th2 = std::vector<int>{0, 0, 1, 3, 5}[rg(0, 4)];
    if(t % 2) one<N, int32_t>(o, norb, k, sp, th2, g, rg, comm); else one<N, int64_t>(o, norb, k, sp, th2, g, rg, comm);
  }
}
// a long list of determinants, most pairs of which do not interact
template <size_t N> void big(Out& o, Rng& rg, int norb, int ne, int n, int th2, MPI_Comm comm) {
  UNIT = 1; Ints in(norb, 2); DoubleLoopHamiltonianGenerator<N> g(in.Ts(), in.Vs());
  std::vector<B<N>> d; std::set<std::string> seen; int h = N / 2;
  while((int)d.size() < n) {
    B<N> s; bool ex = d.size() && rg(0, 3) == 0;
    if(ex) { s = d[rg(0, d.size() - 1)]; int off = rg.coin() ? h : 0, i, a; do i = rg(0, norb - 1); while(!s[i + off]); do a = rg(0, norb - 1); while(s[a + off]); s.reset(i + off); s.set(a + off); }
    else for(int off : {0, h}) for(int c = 0; c < ne;) { int p = rg(0, norb - 1); if(!s[p + off]) { s.set(p + off); ++c; } }
    if(seen.insert(s.to_string()).second) d.push_back(s);
  }
  std::shuffle(d.begin(), d.end(), rg.g);
  one<N, int32_t>(o, norb, 2, d, th2, g, rg, comm, true);
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  {
    Out o; if(!vmpi::rank()) o.open("");
    bool T = thorough(); Rng rg(60 + vmpi::size());
    MPI_Comm half; MPI_Comm_split(MPI_COMM_WORLD, 0, vmpi::rank(), &half);
    for(int k = 0; k < (T ? 4 : 1); ++k) {
      batch<64>(o, rg, 1, 1, 0, k, 1, 1, MPI_COMM_WORLD); batch<64>(o, rg, 2, 1, 1, k, 3, 4, MPI_COMM_WORLD); batch<64>(o, rg, 4, 0, 2, k, 2, 6, MPI_COMM_WORLD); batch<128>(o, rg, 4, 3, 0, k, 2, 4, MPI_COMM_WORLD); batch<64>(o, rg, 3, 0, 1, k, 1, 3, half); batch<128>(o, rg, 3, 2, 1, k, 4, 9, MPI_COMM_WORLD);
      batch<64>(o, rg, 3, 1, 1, k, 3, 9, half); batch<64>(o, rg, 4, 2, 2, k, T ? 12 : 4, 30, MPI_COMM_WORLD);
    }
    big<64>(o, rg, 20, 4, T ? 2600 : 1300, 0, MPI_COMM_WORLD); if(T) big<128>(o, rg, 33, 4, 1500, 1, MPI_COMM_WORLD);
    MPI_Comm_free(&half);
  }
  MPI_Finalize();
}
