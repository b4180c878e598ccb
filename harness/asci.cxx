// P08-P11 driver: work partition constraints, contribution accumulation, ASCI search.
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/asci/determinant_search.hpp>
#include "mpi_common.hpp"
#include "integrals.hpp"
using namespace vh; using namespace macis;
template <size_t N> using B = std::bitset<N>;
template <size_t N> B<N> rnd(Rng& g, int norb, int k) { B<N> b; while((int)b.count() < k) b.set(g(0, norb - 1)); return b; }
// half the time from the upper orbitals only, when there are many
template <size_t N> B<N> rndh(Rng& g, int norb, int k) { if(norb <= 34 || g.coin()) return rnd<N>(g, norb, k); return rnd<N>(g, norb - 32, k) << 32; }
template <size_t N> B<N> rnds(Rng& g, int norb, int na, int nb) {
  if(norb > 34) return rndh<N>(g, norb, na) | (rndh<N>(g, norb, nb) << N / 2); return rnd<N>(g, norb, na) | (rnd<N>(g, norb, nb) << N / 2); }

// ------------------------------------------------------------------ P08
template <size_t N> void con(Out& o, B<N> s, B<N> C, int norb, int nso, int ndo) {
  B<N> O = full_mask<N>(norb);
  unsigned cmin = macis::ffs(C) - 1; B<N> Bm = full_mask<N>((size_t)cmin);
  std::vector<B<N>> S(3, O), D(3, O);          // stale contents must go
  generate_constraint_singles(s, C, O, Bm, S);
  generate_constraint_doubles(s, C, O, Bm, D);
  Rec r("con"); r("n", (int)N)("norb", norb)("s", s)("c", C)("sat", satisfies_constraint(s, C, cmin))("S", S)("D", D)
    ("ns", (long)count_constraint_singles(s, C, O, Bm))("nd", (long)count_constraint_doubles(s, C, O, Bm))
    ("nso", nso)("ndo", ndo)("h", (long)constraint_histogram(s, nso, ndo, C, O, Bm));
  o(r);
}
template <size_t N> void mask(Out& o, Rng& g, int norb) {
  int i = g(2, norb - 1), j = g(1, i - 1), k = g(0, j - 1);
  auto t = make_triplet<N>(i, j, k);
  o(Rec("mk")("n", (int)N)("ix", std::vector<int>{i, j, k})("c", t.C)("b", t.B)("cmin", (long)t.C_min));
  if(k > 0) { int l = g(0, k - 1); auto q = make_quad<N>(i, j, k, l);
    o(Rec("mk")("n", (int)N)("ix", std::vector<int>{i, j, k, l})("c", q.C)("b", q.B)("cmin", (long)q.C_min)); }
}
template <size_t N> void p08rand(Out& o, Rng& g, int norb, int reps) {
  for(int t = 0; t < reps; ++t) {
    int ne = g(3, std::min(norb - 1, 12)), nc = g(3, std::min(ne, 6));
    auto s = rnd<N>(g, norb, ne);
    // a constraint near the string: its top electrons, with up to three moved
    auto idx = bits_to_indices(s); B<N> C;
    for(int i = 0; i < nc; ++i) C.set(idx[ne - 1 - i]);
    int mv = g(0, 3);
    for(int m = 0; m < mv; ++m) { auto ci = bits_to_indices(C); C.reset(ci[g(0, nc - 1)]); while((int)C.count() < nc) C.set(g(0, norb - 1)); }
    if(t % 7 == 0) C = rnd<N>(g, norb, nc);
    con<N>(o, s, C, norb, g(0, 6), g(0, 6));
    mask<N>(o, g, norb);
  }
}
template <size_t N> void p08all(Out& o, Rng& g, int norb, int cmax) {
  for(int s = 1; s < (1 << norb) - 1; ++s) for(int c = 1; c < (1 << norb); ++c) {
    int nc = __builtin_popcount(c), ns = __builtin_popcount(s);
    if(nc > cmax || nc > ns) continue;
    con<N>(o, B<N>(s), B<N>(c), norb, g(0, 4), g(0, 4));
  }
}
void p08() {
  Out o(""); Rng g(8); bool T = thorough();
  p08all<64>(o, g, 4, 4); p08all<128>(o, g, 5, T ? 5 : 3); if(T) { p08all<64>(o, g, 6, 5); p08all<64>(o, g, 7, 4); }
  p08rand<64>(o, g, 9, T ? 600 : 120); p08rand<64>(o, g, 32, T ? 300 : 40); p08rand<128>(o, g, 33, T ? 300 : 40); p08rand<128>(o, g, 64, T ? 200 : 30);
  p08rand<256>(o, g, 70, T ? 200 : 30); p08rand<256>(o, g, 128, T ? 100 : 20);
}
template <size_t N> void dist(Out& o, Rng& g, int norb, int ne, int nu, int lev, MPI_Comm comm) {
  std::vector<B<N>> u;
  while((int)u.size() < nu) { auto s = g(0, 2) ? rnd<N>(g, norb, ne) : (full_mask<N>((size_t)ne)); if(std::find(u.begin(), u.end(), s) == u.end()) u.push_back(s); else if(g(0, 9) == 0) break; }
  std::sort(u.begin(), u.end(), bitset_less_comparator<N>{});
  int nso = g(0, 20), ndo = g(0, 20);
  auto cs = dist_constraint_general<N>(lev, norb, nso, ndo, u, comm);
  std::string s = "["; bool first = true;
  for(auto& c : cs) { if(!first) s += ","; first = false; s += vmpi::Obj()("c", c.C)("b", c.B)("cmin", (long)c.C_min).str(); }
  auto all = vmpi::gather(s + "]", comm);
  if(!vmpi::rank(comm)) o(Rec("deal")("n", (int)N)("norb", norb)("ne", ne)("lev", lev)("u", u)("nso", nso)("ndo", ndo).raw("ranks", all));
}
void p08d() {
  Out o; if(!vmpi::rank()) o.open(""); Rng g(80 + vmpi::size()); bool T = thorough();
  // more orbitals than the strings can reach from one another, so that parts
  // of the space have no work, and orbitals beyond a machine word
  for(int t = 0; t < (T ? 20 : 6); ++t) {
    int norb = g(8, 12), ne = g(4, 6), lev = g(0, 3), nu = g(2, T ? 4 : 3);
    if(t % 2) dist<64>(o, g, norb, ne, nu, lev, MPI_COMM_WORLD); else dist<256>(o, g, norb, ne, nu, lev, MPI_COMM_WORLD);
  }
  dist<256>(o, g, 66, 1, 2, 2, MPI_COMM_WORLD); dist<256>(o, g, 128, 1, 1, 1, MPI_COMM_WORLD); dist<128>(o, g, 40, 1, 3, 3, MPI_COMM_WORLD);
  for(int t = 0; t < (T ? 60 : 14); ++t) {
    int norb = g(3, 7), ne = g(t % 5 ? 1 : 0, norb - 1), lev = g(0, 3), nu = g(1, 6);
    if(t % 3) dist<64>(o, g, norb, ne, nu, lev, MPI_COMM_WORLD); else dist<128>(o, g, norb, ne, nu, lev, MPI_COMM_WORLD);
  }
}
// ------------------------------------------------------------------ P11
template <size_t N> void acc(Out& o, Rng& g, int n, int pool, int norb, int big = 50) {
  static int calls = 0; static const int ex[] = {0, -40, 20}; double u = std::ldexp(1., ex[calls++ % 3]);   // unit of the scores
  std::vector<B<N>> p; for(int i = 0; i < pool; ++i) { B<N> b; for(int j = 0; j < norb; ++j) if(g(0, 2) == 0) { b.set(j); } if(g.coin()) b.set(N - 1 - g(0, 2)); if(g.coin()) b.set(N / 2 + g(0, 2)); p.push_back(b); }
  std::vector<std::pair<B<N>, int>> in; asci_contrib_container<B<N>> a, k;
  for(int i = 0; i < n; ++i) { auto d = p[g(0, pool - 1)]; int v = g(-big, big); in.push_back({d, v}); a.push_back({d, u * v}); k.push_back({d, u * v}); }
  auto show = [u](const auto& c) { std::vector<std::pair<B<N>, long>> r; for(auto& x : c) r.push_back({x.state, I(x.rv / u)}); return r; };
  auto a2 = a;
  sort_and_accumulate_asci_pairs(a);
  // a sub-range leaves what precedes it alone
  size_t off = n ? g(0, n) : 0; auto it = sort_and_accumulate_asci_pairs(a2.begin() + off, a2.end()); a2.erase(it, a2.end());
  keep_only_largest_copy_asci_pairs(k);
  std::vector<B<N>> dets; std::vector<double> C; std::set<std::string> seen;
  for(auto& x : in) if(seen.insert(x.first.to_string()).second) { dets.push_back(x.first); C.push_back(u * x.second); }
  auto d0 = dets; auto C0 = C; if(dets.size()) reorder_ci_on_coeff(dets, C);
  std::vector<std::pair<B<N>, long>> c0, c1; for(size_t i = 0; i < d0.size(); ++i) { c0.push_back({d0[i], I(C0[i] / u)}); } for(size_t i = 0; i < dets.size(); ++i) c1.push_back({dets[i], I(C[i] / u)});
  o(Rec("acc")("n", (int)N)("in", in)("acc", show(a))("off", (long)off)("acc2", show(a2))("keep", show(k))("c0", c0)("c1", c1));
}
void p11() {
  Out o(""); Rng g(11); bool T = thorough();
  acc<64>(o, g, 0, 1, 3); acc<64>(o, g, 1, 1, 3); acc<64>(o, g, 2, 1, 3);
  for(int t = 0; t < (T ? 400 : 60); ++t) { int big = t % 3 ? 50 : t % 2 ? 2 : 20000000; acc<64>(o, g, g(0, 30), g(1, 12), 20, big); acc<128>(o, g, g(0, 30), g(1, 12), 20, big); acc<256>(o, g, g(0, 20), g(1, 8), 20); }
  acc<64>(o, g, 200, 40, 20); acc<128>(o, g, 300, 5, 30); acc<64>(o, g, 1500, 1200, 24);
}
// -------------------------------------------------------------- P09 / P10
// The trial energy lies below every diagonal element, so scores are finite.
template <size_t N> void search(Out& o, Rng& g, int norb, int na, int nb, int k, int ncore, int kmax, MPI_Comm comm, int mode) {
  // scores do not depend on the unit the integrals are given in
  static int calls = 0; static const int ex[] = {0, 0, -34, 12}; double unit = std::ldexp(1., ex[calls++ % 4]);
  Ints in(norb, k, unit); DoubleLoopHamiltonianGenerator<N> ham(in.Ts(), in.Vs());
  std::vector<B<N>> core; std::set<std::string> seen;
  for(int t = 0; t < 50 * ncore && (int)core.size() < ncore; ++t) { auto d = rnds<N>(g, norb, na, nb); if(seen.insert(d.to_string()).second) core.push_back(d); }
  std::vector<int> c; std::vector<double> C;
  for(size_t i = 0; i < core.size(); ++i) c.push_back(mode == 2 ? (g.coin() ? 1 : -1) : g(1, 4) * (g.coin() ? 1 : -1));
  std::sort(c.begin(), c.end(), [](int a, int b) { return std::abs(a) > std::abs(b); });
  C.assign(c.begin(), c.end());
  int E2 = 2 * (-60 - g(0, 30)) + 1; double E0 = E2 * 0.5 * unit;   // half integer: no diagonal element equals it
  size_t nmax = core.size() + g(0, kmax);
  ASCISettings st; bool pr = mode == 6; int pr8 = pr ? g(1, 12) : 0;
  // small contributions are dropped only when there are too many
  st.pair_size_max = mode == 1 ? 25 : pr ? g(5, 60) : 20000; st.rv_prune_tol = pr ? pr8 / 8. : mode == 1 ? 0. : g(0, 1) * 50.; int th2 = mode == 3 ? 3 : 0; st.h_el_tol = (th2 ? th2 * 0.5 : 1e-8) * unit;
  st.just_singles = mode == 4; st.constraint_level = g(0, 3);
  bool rt = mode == 5 || mode == 3; std::vector<double> Cs = C; double sc = 1; if(rt) { sc = 0.0625; for(auto& x : Cs) x *= sc; }
  auto w = core;
  auto r = asci_search<N>(st, nmax, w.begin(), w.end(), E0, Cs, norb, ham.T(), ham.G_red(), ham.V_red(), ham.G(), ham.V(), ham, comm);
  auto all = vmpi::gather(js(r), comm);
  if(!vmpi::rank(comm)) o(Rec("search")("n", (int)N)("norb", norb)("na", na)("nb", nb)("k", k)("np", vmpi::size(comm))("core", core)("c", c)("e2", E2)("nmax", (long)nmax)
    ("th2", th2)("js", st.just_singles)("pr8", pr8)("lev", st.constraint_level).raw("ranks", all));
}
void p09(bool big) {
  Out o; if(!vmpi::rank()) o.open(""); Rng g(90 + (big ? vmpi::size() : 0)); bool T = thorough(); MPI_Comm W = MPI_COMM_WORLD;
  for(int t = 0; t < (T ? 120 : 24); ++t) {
    int norb = g(3, 5), na = g(t % 4 ? 1 : 0, norb - 1), nb = g(t % 5 ? 1 : 0, norb - 1); if(norb == 5) { na = std::min(na, 3); nb = std::min(nb, 2); }
    int mode = t % 6, nc = g(1, 4), kmax = (t % 4 == 0) ? 400 : g(1, 25);
    if(t % 3) search<64>(o, g, norb, na, nb, t % 4, nc, kmax, W, mode); else search<128>(o, g, norb, na, nb, t % 4, nc, kmax, W, mode);
  }
  for(int t = 0; t < (T ? 80 : 18); ++t) {
    int norb = g(3, 5), na = g(1, norb - 1), nb = g(t % 5 ? 1 : 0, norb - 1); if(norb == 5) { na = std::min(na, 3); nb = std::min(nb, 2); }
    if(t % 3) search<64>(o, g, norb, na, nb, t % 4, g(1, 5), t % 4 ? g(1, 25) : 400, W, 6); else search<128>(o, g, norb, na, nb, t % 4, g(1, 5), g(1, 25), W, 6);
  }
  search<64>(o, g, 6, 5, 1, 1, 3, 12, W, 0); search<64>(o, g, 5, 3, 3, 2, 2, 10, W, 0);
  search<64>(o, g, 4, 2, 2, 2, 2, 0, W, 0); search<64>(o, g, 3, 1, 1, 2, 9, 9, W, 0);
  // orbitals beyond the first half word
  search<64>(o, g, 32, 1, 1, 2, 1, 300, W, 0); search<128>(o, g, 36, 1, 1, 1, 2, 300, W, 0); search<128>(o, g, 37, 2, 0, 3, 3, 200, W, 0); search<128>(o, g, 35, 1, 1, 0, 5, 200, W, 0); search<128>(o, g, 36, 1, 0, 2, 5, 20, W, 5); search<128>(o, g, 35, 1, 3, 0, 2, 900, W, 0); search<128>(o, g, 35, 2, 1, 3, 1, 500, W, 0); search<128>(o, g, 34, 0, 2, 1, 1, 200, W, 0);
  if(T) { search<64>(o, g, 6, 4, 2, 1, 4, 30, W, 0); search<128>(o, g, 7, 5, 1, 0, 3, 30, W, 0); search<64>(o, g, 7, 6, 2, 0, 3, 30, W, 0); }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  for(auto n : {"asci_search", "ci_solver", "davidson"}) spdlog::null_logger_mt(n);
  std::string m = argv[1];
  if(m == "p08") p08(); else if(m == "p08d") p08d(); else if(m == "p11") p11(); else if(m == "p09") p09(false); else if(m == "p10") p09(true);
  MPI_Finalize();
}
