// Distributed sparse matrices built from a replicated matrix: tiles, copies,
// products, files (P15, P17).
#include "mpi_common.hpp"
#include <numeric>
#include <cmath>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <unistd.h>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
using namespace vh;
using namespace sparsexx;
static Out out;
static Rng rnd(15);
static std::string dir;
static double UNIT = 1;   // power of two the matrix is multiplied by; any number where values are only moved
static long dec(double x) { double r = std::nearbyint(x / UNIT); return std::abs(r) < 1.9e9 && r * UNIT == x ? (long)r : BAD; }
template <class V> std::vector<long> L(const V& v) { std::vector<long> o; for(auto x : v) o.push_back((long)x); return o; }
template <class X> std::string rep(const csr_matrix<double, X>& A) {
  return "{\"f\":\"csr\",\"m\":" + js(A.m()) + ",\"n\":" + js(A.n()) + ",\"nnz\":" + js(A.nnz()) + ",\"x\":" + js(A.indexing()) + ",\"p\":" + js(L(A.rowptr())) +
         ",\"c\":" + js(L(A.colind())) + ",\"v\":" + js([&] { std::vector<long> v; for(auto x : A.nzval()) v.push_back(dec(x)); return v; }()) + ",\"r\":[]}";
}
template <class X> csr_matrix<double, X> make(int n, int dens, int base) {
  std::vector<X> rp(n + 1, base), ci; std::vector<double> v;
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(rnd(0, 99) < dens) { ci.push_back(j + base); v.push_back(UNIT * rnd(-9, 9)); } rp[i + 1] = ci.size() + base; }
  return csr_matrix<double, X>(n, n, std::move(rp), std::move(ci), std::move(v));
}
template <class X> void one(int it, MPI_Comm comm) {
  using M = csr_matrix<double, X>; using D = dist_sparse_matrix<M>;
  int np = vmpi::size(comm), me = vmpi::rank(comm);
  UNIT = rnd.coin() ? 1. : std::ldexp(1., rnd(-40, 20)); double WU = rnd.coin() ? 1. : std::ldexp(1., rnd(-40, 20));
  bool large = rnd(0, 14) == 0;
  int n = large ? rnd(20, 40) : rnd(1, 9), base = rnd(0, 1); auto A = make<X>(n, large ? rnd(2, 30) : rnd(5, 90), base);
  const auto in = rep(A);
  bool custom = rnd(0, 2) > 0; std::vector<std::pair<X, X>> tiles;
  if(custom) { std::vector<X> cut{0, (X)n}; for(int i = 1; i < np; ++i) cut.push_back(rnd(0, n)); std::sort(cut.begin(), cut.end()); for(int i = 0; i < np; ++i) tiles.push_back({cut[i], cut[i + 1]}); }
  std::unique_ptr<D> d(custom ? new D(comm, A, tiles) : new D(comm, A));
  int how = rnd(0, 2);   // as built, copied, moved
  if(how == 1) d.reset(new D(*d)); else if(how == 2) { D t(std::move(*d)); d.reset(new D(std::move(t))); }
  D& S = *d;
  auto info = spblas::generate_spmv_comm_info(S);
  long vol = info.communication_volume();
  auto [lo, hi] = S.row_bounds(me);
  std::vector<std::pair<long, long>> bounds; for(int i = 0; i < np; ++i) { auto b = S.row_bounds(i); bounds.push_back({(long)b.first, (long)b.second}); }
  vmpi::Obj o; o("lo", (long)lo)("hi", (long)hi)("bounds", bounds)("ext", (long)S.local_row_extent())("start", (long)S.local_row_start())("gm", (long)S.m())("gn", (long)S.n())("nnz", (long)S.nnz())
    ("mem", S.mem_footprint() >= (long)(S.nnz() * (sizeof(double) + sizeof(X))));
  o.raw("diag", rep(S.diagonal_tile())).raw("off", rep(S.off_diagonal_tile()));
  std::string prods = "["; 
  for(int p = 0; p < 3; ++p) {   // repeated products with one communication plan, processes free to run ahead
    double al = rnd(-2, 2), be = rnd(-2, 2); std::vector<double> V(n), W(n); for(auto& x : V) x = rnd(-9, 9); for(auto& x : W) x = rnd(-9, 9);
    std::vector<double> v(V.begin() + lo, V.begin() + hi), w(W.begin() + lo, W.begin() + hi);
    for(auto& x : v) x *= WU; for(auto& x : w) x *= WU * UNIT; w.push_back(777 * WU * UNIT);
    spblas::pgespmv(al, S, v.data(), be, w.data(), info);
    for(auto& x : w) x /= WU * UNIT;
    prods += std::string(p ? "," : "") + "{\"al\":" + js(I(al)) + ",\"be\":" + js(I(be)) + ",\"V\":" + js(I(V)) + ",\"W\":" + js(I(W)) + ",\"R\":" + js(I(w)) + "}";
  }
  o.raw("prods", prods + "]")("vol", vol);
  std::string f = dir + "/d" + std::to_string(it);
  if(rnd.coin()) {   // the same matrix in a unit with a full mantissa
    double q = 1 + rnd(0, 999999999) / 1e9 + rnd(0, 999999999) / 1e18;
    const double u = q * std::ldexp(1., rnd(-40, 40));
    auto t = S.diagonal_tile(), s = S.off_diagonal_tile_ptr() ? S.off_diagonal_tile() : M();
    for(auto* z : {&t, &s}) for(auto& x : z->nzval()) x = dec(x) * u;
    S.set_diagonal_tile(t); if(S.off_diagonal_tile_ptr()) S.set_off_diagonal_tile(s);
    UNIT = u;
  }
  int forced = rnd(-1, 1); write_dist_mm(f, S, forced);
  std::string body = "[]"; std::vector<long> dims; bool hdr = false; std::string back = "{}";
  if(me == 0) {
    std::ifstream in(f); std::string l; std::getline(in, l); hdr = l == "%%MatrixMarket matrix coordinate real general"; std::vector<std::vector<long>> b; bool first = true;
    while(std::getline(in, l)) { std::istringstream s(l); std::vector<long> t; double x; while(s >> x) t.push_back(t.size() == 2 && !first ? dec(x) : I(x)); if(first) { dims = t; first = false; } else b.push_back(t); }
    body = js(b); back = rep(read_mm<M>(f)); unlink(f.c_str());
  }
  auto all = vmpi::gather(o.str(), comm);
  if(vmpi::rank() == 0) out(Rec("dist")("np", np).raw("in", in)("custom", custom)("tiles", [&] { std::vector<std::pair<long, long>> t; for(auto& x : tiles) t.push_back({(long)x.first, (long)x.second}); return t; }())("how", how)
     ("forced", forced)("hdr", hdr)("dims", dims).raw("body", body).raw("back", back).raw("ranks", all));
}
static void refusals() {
  int np = vmpi::size();
  auto tr = [&](const char* what, std::vector<std::pair<int, int>> t, bool legal) {
    bool th = false; try { dist_sparse_matrix<csr_matrix<double, int>> d(MPI_COMM_WORLD, 6, 6, t); } catch(std::exception&) { th = true; }
    if(vmpi::rank() == 0) out(Rec("tiles")("what", what)("legal", legal)("thrown", th));
  };
  std::vector<std::pair<int, int>> good; for(int i = 0; i < np; ++i) good.push_back({6 * i / np, 6 * (i + 1) / np});
  tr("good", good, true);
  { auto t = good; t.push_back({6, 6}); tr("too many", t, false); }
  { auto t = good; t.back().second = 5; tr("short", t, false); }
  { auto t = good; t[0].first = 1; tr("late start", t, false); }
  if(np > 1) { auto t = good; t[0].second -= 1; tr("gap", t, false); t = good; t[0].second += 1; tr("overlap", t, false); }
  if(np > 2) { auto t = good; std::swap(t[1].first, t[1].second); tr("reversed", t, false); }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  if(vmpi::rank() == 0) out.open("");
  std::cout.setstate(std::ios::failbit);
  char t[] = "/tmp/verif_sd_XXXXXX"; if(vmpi::rank() == 0) mkdtemp(t); PMPI_Bcast(t, sizeof t, MPI_CHAR, 0, MPI_COMM_WORLD); dir = t;
  vmpi::set_jitter(seed() * 31 + vmpi::rank(), 30);
  refusals();
  for(int it = 0; it < (thorough() ? 400 : 60); ++it) { if(it % 2) one<int32_t>(it, MPI_COMM_WORLD); else one<int64_t>(it, MPI_COMM_WORLD); }
  PMPI_Barrier(MPI_COMM_WORLD);
  if(vmpi::rank() == 0) rmdir(t);
  MPI_Finalize();
}
