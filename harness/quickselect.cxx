// Drives the distributed selection.
#include <macis/util/dist_quickselect.hpp>
#include <numeric>
#include "mpi_common.hpp"
using namespace vh; using namespace vmpi;
template <class T> std::vector<long> L(const std::vector<T>& v) { std::vector<long> o; for(auto x : v) o.push_back((long)x); return o; }
template <class T, class Cmp>
void one(Out& o, vh::Rng& g, Rng& pr, MPI_Comm c, Cmp cmp, const char* ord, int shape, int nmax, int vmax, bool neg) {
  int np = size(c), me = rank(c);
  // every process draws the same global picture
  std::vector<std::vector<T>> all(np); int tot = 0;
  for(int p = 0; p < np; ++p) {
    int n = shape == 0 ? g(0, nmax) : shape == 1 ? (p == np - 1 ? g(1, nmax) : 0) : shape == 2 ? (p == 0 ? g(1, nmax) : g(0, 1)) : shape == 3 ? nmax : g(0, 1);
    for(int i = 0; i < n; ++i) all[p].push_back((T)(g(0, vmax) - (neg ? vmax / 2 : 0)));
    tot += n;
  }
  if(!tot) { all[np / 2].push_back((T)1); tot = 1; }
  int kk = g(0, 3), k = kk == 0 ? 1 : kk == 1 ? tot : g(1, tot);
  auto mine = all[me]; mine.reserve(mine.size() + 1);
  T got = macis::dist_quickselect(mine.begin(), mine.end(), k, c, cmp, [](auto a, auto b) { return a == b; });
  auto s = gather(Obj()("before", L(all[me]))("after", L(mine))("got", I((double)got)).str(), c);
  if(me == 0 && o.f) o(Rec("qs")("np", np)("k", k)("ord", ord).raw("ranks", s));
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  bool T = thorough(); int me = rank(), np = size();
  Out o; if(me == 0) o.open("");
  Rng g(311 + np), pr(1);
  set_jitter(seed(), 200);
  for(int t = 0; t < (T ? 400 : 80); ++t) {
    int shape = t % 5, nm = t % 7 == 0 ? 60 : t % 3 ? 6 : 15, vm = t % 4 == 0 ? 2 : t % 4 == 1 ? 0 : t % 4 == 2 ? 9 : 1000;
    switch(t % 6) {
      case 0: one<int>(o, g, pr, MPI_COMM_WORLD, std::less<int>{}, "lt", shape, nm, vm, true); break;
      case 1: one<double>(o, g, pr, MPI_COMM_WORLD, std::greater<double>{}, "gt", shape, nm, vm, true); break;
      case 2: one<double>(o, g, pr, MPI_COMM_WORLD, std::less<double>{}, "lt", shape, nm, vm, true); break;
      case 3: one<size_t>(o, g, pr, MPI_COMM_WORLD, std::greater<size_t>{}, "gt", shape, nm, vm, false); break;
      case 4: one<int>(o, g, pr, MPI_COMM_WORLD, std::greater<int>{}, "gt", shape, nm, vm, true); break;
      default: one<float>(o, g, pr, MPI_COMM_WORLD, std::less<float>{}, "lt", shape, nm, vm, true);
    }
  }
  // sub-communicators: reversed order of all ranks, and halves
  MPI_Comm rev; MPI_Comm_split(MPI_COMM_WORLD, 0, np - me, &rev);
  { Out o2; if(rank(rev) == 0) o2.open(".rev"); for(int t = 0; t < 12; ++t) one<int>(o2, g, pr, rev, std::less<int>{}, "lt", t % 5, 8, t % 2 ? 3 : 50, true); }
  if(np > 1) {
    int col = me % 2; MPI_Comm h; MPI_Comm_split(MPI_COMM_WORLD, col, me, &h);
    Rng gh(97 + col); Out o2; if(rank(h) == 0) o2.open(col ? ".h1" : ".h0");
    for(int t = 0; t < 12; ++t) one<double>(o2, gh, pr, h, std::greater<double>{}, "gt", t % 5, 8, t % 2 ? 3 : 50, true);
    MPI_Comm_free(&h);
  }
  MPI_Comm_free(&rev);
#ifdef VERIF_INTERNALS
  for(int t = 0; t < 6; ++t) {
    std::vector<size_t> v(np); for(auto& x : v) x = g(0, 5);
    std::vector<size_t> ga, sc; size_t tot = macis::total_gather_and_exclusive_scan<size_t>(v[me], ga, sc, MPI_COMM_WORLD);
    auto s = gather(Obj()("total", tot)("gather", ga)("scan", sc).str());
    if(me == 0) o(Rec("scan")("np", np)("vals", v).raw("ranks", s));
  }
  if(me == 0) for(int t = 0; t < 30; ++t) {
    int n = g(0, 12); std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(g(-3, 3)); auto b = v; int piv = g(-4, 4);
    auto put = [&](const char* ord, auto cmp) {
      v = b; auto [x, e, gg, z] = macis::leg_partition(v.begin(), v.end(), piv, cmp, std::equal_to<int>{});
      o(Rec("leg")("before", b)("after", v)("piv", piv)("ord", ord)("b", (long)(x - v.begin()))("e", (long)(e - v.begin()))("g", (long)(gg - v.begin()))("z", (long)(z - v.begin())));
    };
    if(t % 2) put("lt", std::less<int>{}); else put("gt", std::greater<int>{});
  }
#endif
  MPI_Finalize();
}
