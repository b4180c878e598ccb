// P04/P05/P07 driver: Hamiltonian elements, sparse blocks, RDMs (serial).
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <numeric>
#include "common.hpp"
#include "integrals.hpp"
using namespace vh;
using namespace macis;
// unit the integrals are given in: cycles through powers of two
static double UNIT = 1; static int ucount = 0;
static double next_unit() { static const int e[] = {0, -36, 0, 24}; return UNIT = std::ldexp(1., e[ucount++ % 4]); }
static long U(double x) { return I(x / UNIT); }
static std::vector<long> U(std::vector<double> v) { for(auto& x : v) x /= UNIT; return I(v); }
template <size_t N> using B = std::bitset<N>;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;

template <size_t N> std::vector<B<N>> space(int norb, int na, int nb) {
  std::vector<B<N>> r;
  for(int a = 0; a < (1 << norb); ++a) if(__builtin_popcount(a) == na)
    for(int b = 0; b < (1 << norb); ++b) if(__builtin_popcount(b) == nb) {
      B<N> s; for(int i = 0; i < norb; ++i) { if(a >> i & 1) s.set(i); if(b >> i & 1) s.set(i + N / 2); } r.push_back(s); }
  return r;
}
template <size_t N> std::vector<uint32_t> occ(B<N> s, int off, int norb) { std::vector<uint32_t> o; for(int i = 0; i < norb; ++i) if(s[off + i]) o.push_back(i); return o; }

template <size_t N> double me_long(const Gen<N>& g, B<N> bra, B<N> ket, int norb) {
  B<N / 2> ba, bb, ka, kb; for(size_t i = 0; i < N / 2; ++i) { ba[i] = bra[i]; bb[i] = bra[i + N / 2]; ka[i] = ket[i]; kb[i] = ket[i + N / 2]; }
  return g.matrix_element(ba, ka, ba ^ ka, bb, kb, bb ^ kb, occ<N>(bra, 0, norb), occ<N>(bra, N / 2, norb));
}
template <size_t N> void row(Out& o, const Gen<N>& g, int norb, int k, B<N> bra, const std::vector<B<N>>& kets) {
  std::vector<long> h, h2, ht;
  for(auto ket : kets) { h.push_back(U(g.matrix_element(bra, ket))); h2.push_back(U(me_long<N>(g, bra, ket, norb))); ht.push_back(U(g.matrix_element(ket, bra))); }
  Rec r("row"); r("n", (int)N)("norb", norb)("k", k)("bra", bra)("kets", kets)("h", h)("h2", h2)("ht", ht); o(r);
}
template <size_t N> B<N> randdet(Rng& g, int norb, int na, int nb) {
  B<N> s; auto fill = [&](int c, int off) { while(c) { int p = g(0, norb - 1); if(!s[p + off]) { s.set(p + off); --c; } } };
  fill(na, 0); fill(nb, N / 2); return s;
}
template <size_t N> B<N> excite(Rng& g, B<N> s, int norb, int rank) {
  for(int t = 0; t < rank; ++t) {
    int off = g.coin() ? 0 : N / 2;
    auto oc = occ<N>(s, off, norb); if(oc.empty() || (int)oc.size() == norb) { off = N / 2 - off; oc = occ<N>(s, off, norb); }
    if(oc.empty() || (int)oc.size() == norb) return s;
    int i = oc[g(0, oc.size() - 1)], a; do a = g(0, norb - 1); while(s[a + off]);
    s.reset(i + off); s.set(a + off);
  }
  return s;
}
// incremental diagonals of every single and double excitation out of s
template <size_t N> void diags(Out& o, const Gen<N>& g, Rng& rg, int norb, int k, B<N> s, int lim) {
  auto oa = occ<N>(s, 0, norb), ob = occ<N>(s, N / 2, norb);
  std::vector<uint32_t> va, vb; for(int i = 0; i < norb; ++i) { if(!s[i]) va.push_back(i); if(!s[i + N / 2]) vb.push_back(i); }
  double H0 = g.matrix_element_diag(oa, ob);
  auto ea = g.single_orbital_ens(norb, oa, ob), eb = g.single_orbital_ens(norb, ob, oa);
  std::vector<long> ea1, eb1; for(int i = 0; i < norb; ++i) { ea1.push_back(U(g.single_orbital_en(i, oa, ob))); eb1.push_back(U(g.single_orbital_en(i, ob, oa))); }
  { Rec r("orben"); r("n", (int)N)("norb", norb)("k", k)("s", s)("h0", U(H0))("ea", U(ea))("eb", U(eb))("ea1", ea1)("eb1", eb1); o(r); }
  std::vector<std::vector<long>> S, D, O;
  for(int sp = 0; sp < 2; ++sp) {
    auto& oc = sp ? ob : oa; auto& vi = sp ? vb : va; auto& os = sp ? oa : ob; auto& e = sp ? eb : ea;
    for(auto i : oc) for(auto a : vi) S.push_back({sp, (long)i, (long)a, U(g.fast_diag_single(oc, os, i, a, H0)), U(g.fast_diag_single(e[i], e[a], i, a, H0))});
    for(auto i : oc) for(auto j : oc) if(i != j) for(auto a : vi) for(auto b : vi) if(a != b && (i < j || rg(0, 3) == 0)) {
      if((int)D.size() > 4 * lim) continue;
      D.push_back({sp, (long)i, (long)j, (long)a, (long)b, U(g.fast_diag_ss_double(oc, os, i, j, a, b, H0)), U(g.fast_diag_ss_double(e[i], e[j], e[a], e[b], i, j, a, b, H0))}); }
  }
  for(auto i : oa) for(auto a : va) for(auto j : ob) for(auto b : vb) O.push_back({(long)i, (long)j, (long)a, (long)b,
      U(g.fast_diag_os_double(oa, ob, i, j, a, b, H0)), U(g.fast_diag_os_double(ea[i], eb[j], ea[a], eb[b], i, j, a, b, H0))});
  auto trim = [&](auto& v) { if((int)v.size() > lim) { std::shuffle(v.begin(), v.end(), rg.g); v.resize(lim); } };
  trim(S); trim(D); trim(O);
  Rec r("fast"); r("n", (int)N)("norb", norb)("k", k)("s", s)("S", S)("D", D)("O", O); o(r);
}
template <size_t N> void p04_small(Out& o, Rng& rg, int norb, int k, bool all) {
  Ints in(norb, k, next_unit()); Gen<N> g(in.Ts(), in.Vs());
  for(int a = 0; a <= norb; ++a) for(int b = 0; b <= norb; ++b) {
    auto sp = space<N>(norb, a, b);
    for(auto& s : sp) { if(!all && rg(0, 2)) continue; row<N>(o, g, norb, k, s, sp); diags<N>(o, g, rg, norb, k, s, all ? 200 : 40); }
  }
}
template <size_t N> void p04_rand(Out& o, Rng& rg, int norb, int k, int reps, int maxe) {
  Ints in(norb, k, next_unit()); Gen<N> g(in.Ts(), in.Vs());
  for(int t = 0; t < reps; ++t) {
    int na = rg(0, std::min(norb, maxe)), nb = rg(0, std::min(norb, maxe));
    if(na + nb == 0) na = 1;
    auto s = randdet<N>(rg, norb, na, nb);
    std::vector<B<N>> kets; for(int i = 0; i < 12; ++i) kets.push_back(excite<N>(rg, s, norb, rg(0, 3)));
    row<N>(o, g, norb, k, s, kets);
    diags<N>(o, g, rg, norb, k, s, 12);
  }
}

// ------------------------------------------------------------------------ P05
template <class M> void csr(Rec& r, const char* pre, const M& A) {
  std::string p(pre);
  std::vector<long> rp(A.rowptr().begin(), A.rowptr().end()), ci(A.colind().begin(), A.colind().end());
  r((p + "m").c_str(), (long)A.m())((p + "n").c_str(), (long)A.n())((p + "nnz").c_str(), (long)A.nnz())((p + "ind").c_str(), (long)A.indexing())
    ((p + "rp").c_str(), rp)((p + "ci").c_str(), ci)((p + "nz").c_str(), U(std::vector<double>(A.nzval().begin(), A.nzval().end())));
}
template <size_t N> void block(Out& o, Gen<N>& g, int norb, int k, std::vector<B<N>> bra, std::vector<B<N>> ket, int th2) {
  Rec r("block"); r("n", (int)N)("norb", norb)("k", k)("bras", bra)("kets", ket)("th2", th2);
  auto A = make_csr_hamiltonian_block<int32_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), g, th2 * 0.5 * UNIT);
  auto C = make_csr_hamiltonian_block<int64_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), g, th2 * 0.5 * UNIT);
  csr(r, "a", A); csr(r, "b", C); o(r);
}
template <size_t N> void full(Out& o, Gen<N>& g, int norb, int k, std::vector<B<N>> d, int th2) {
  Rec r("block"); r("n", (int)N)("norb", norb)("k", k)("bras", d)("kets", d)("th2", th2);
  auto A = make_csr_hamiltonian<int32_t>(d.begin(), d.end(), g, th2 * 0.5 * UNIT);
  auto C = make_csr_hamiltonian<int64_t>(d.begin(), d.end(), g, th2 * 0.5 * UNIT);
  csr(r, "a", A); csr(r, "b", C); o(r);
}
template <size_t N> void p05(Out& o, Rng& rg, int norb, int na, int nb, int k, int reps, int maxd) {
  Ints in(norb, k, next_unit()); Gen<N> g(in.Ts(), in.Vs());
  for(int t = 0; t < reps; ++t) {
    std::vector<B<N>> sp;
    if(norb <= 5) { sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), rg.g); }
    else { std::set<std::string> seen; auto s0 = randdet<N>(rg, norb, na, nb); for(int i = 0; i < 3 * maxd; ++i) { auto s = excite<N>(rg, s0, norb, rg(0, 3)); if(seen.insert(s.to_string()).second) sp.push_back(s); } }
    if((int)sp.size() > maxd) sp.resize(maxd);
    int n = sp.size();
    int th2 = std::vector<int>{0, 1, 2, 3, 4, 6, 7, 10}[rg(0, 7)];
    full<N>(o, g, norb, k, sp, th2);
    std::vector<B<N>> rv(sp.rbegin(), sp.rend()); full<N>(o, g, norb, k, rv, th2);
    int a = rg(0, n), b = rg(0, n), c = rg(0, n), d = rg(0, n);
    if(a > b) std::swap(a, b); if(c > d) std::swap(c, d);
    block<N>(o, g, norb, k, {sp.begin() + a, sp.begin() + b}, {sp.begin() + c, sp.begin() + d}, th2);
    // cut into blocks
    int cut = rg(0, n);
    block<N>(o, g, norb, k, {sp.begin(), sp.begin() + cut}, sp, th2); block<N>(o, g, norb, k, {sp.begin() + cut, sp.end()}, sp, th2);
    block<N>(o, g, norb, k, sp, {sp.begin(), sp.begin() + cut}, th2);
    block<N>(o, g, norb, k, {}, sp, th2); block<N>(o, g, norb, k, sp, {}, th2); block<N>(o, g, norb, k, {}, {}, th2);
  }
}
// Long lists: for every row only the columns within two excitations are
// recorded, and the stored entries as (row, column, value).
template <class M> std::string cells(const M& A) {
  std::vector<std::vector<long>> v; bool ok = (long)A.rowptr().size() == A.m() + 1 && (long)A.rowptr()[A.m()] - A.indexing() == (long)A.colind().size() && A.colind().size() == A.nzval().size() && A.nnz() == (long)A.nzval().size();
  if(ok) for(long i = 0; i < (long)A.m(); ++i) for(long t = (long)A.rowptr()[i] - A.indexing(); t < (long)A.rowptr()[i + 1] - A.indexing(); ++t) v.push_back({i, (long)A.colind()[t] - A.indexing(), U(A.nzval()[t])});
  return std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"m\":" + std::to_string(A.m()) + ",\"n\":" + std::to_string(A.n()) + ",\"cells\":" + js(v) + "}";
}
template <size_t N> void longlist(Out& o, Rng& rg, int norb, int ne, int k, size_t m, size_t n, int th2) {
  Ints in(norb, k, next_unit()); Gen<N> g(in.Ts(), in.Vs());
  bool tall = m > n; size_t few = std::min(m, n), many = std::max(m, n), planted = few * (few == many ? 1 : 30);
  std::vector<B<N>> a, b; std::set<std::string> seen;
  auto fresh = [&](B<N> d) { return seen.insert(d.to_string()).second; };
  while(a.size() < few) { auto d = randdet<N>(rg, norb, ne, ne); if(fresh(d)) a.push_back(d); }
  if(m == n) b = a; else {
    while(b.size() < many) { auto d = randdet<N>(rg, norb, ne, ne); if(fresh(d)) b.push_back(d); }
    b[many - 1] = excite<N>(rg, a[0], norb, 1); b[0] = a[few - 1]; b[many / 2] = a[0];
  }
  for(size_t t = 0; t < planted; ++t) { auto d = excite<N>(rg, a[rg(0, few - 1)], norb, rg(1, 2)); size_t at = rg(0, many - 1); if(m == n ? fresh(d) : (at != 0 && at != many / 2 && at != many - 1 && fresh(d))) { b[at] = d; if(m == n) a[at] = d; } }
  auto& bra = tall ? b : a; auto& ket = tall ? a : b;
  std::string near = "["; bool first = true;
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if((bra[i] ^ ket[j]).count() <= 4) {
    if(!first) near += ","; first = false; near += "[" + std::to_string(i) + "," + std::to_string(j) + "," + js(bra[i]) + "," + js(ket[j]) + "]"; }
  Rec r("long"); r("n", (int)N)("norb", norb)("k", k)("th2", th2)("m", (long)m)("nn", (long)n).raw("near", near + "]")
    .raw("a", cells(make_csr_hamiltonian_block<int32_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), g, th2 * 0.5 * UNIT)))
    .raw("b", cells(make_csr_hamiltonian_block<int64_t>(bra.begin(), bra.end(), ket.begin(), ket.end(), g, th2 * 0.5 * UNIT)));
  if(m == n) r.raw("c", cells(make_csr_hamiltonian<int32_t>(bra.begin(), bra.end(), g, th2 * 0.5 * UNIT)));
  o(r);
}
// ------------------------------------------------------------------------ P07
template <size_t N> void rdm(Out& o, Gen<N>& g, int norb, int k, std::vector<B<N>> d, const std::vector<int>& ci, int sc) {
  int n2 = norb * norb; size_t n4 = (size_t)n2 * n2;
  std::vector<double> C(ci.begin(), ci.end()), o1(n2), t1(n4), o2(n2);
  // the matrices are quadratic in the coefficients: scaling by 2^-sc is exact
  for(auto& x : C) x = std::ldexp(x, -sc);
  auto undo = [sc](std::vector<double>& v) { for(auto& x : v) x = std::ldexp(x, 2 * sc); };
  std::vector<std::vector<double>> sep;
  g.form_rdms(d.begin(), d.end(), d.begin(), d.end(), C.data(), matrix_span<double>(o1.data(), norb, norb), rank4_span<double>(t1.data(), norb, norb, norb, norb));
  g.form_rdms(d.begin(), d.end(), d.begin(), d.end(), C.data(), matrix_span<double>(o2.data(), norb, norb), rank4_span<double>(nullptr, 0, 0, 0, 0));
  undo(o1); undo(t1); undo(o2); for(auto& x : C) x = std::ldexp(x, sc);
  double q = 0; for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) q += C[i] * C[j] * g.matrix_element(d[i], d[j]);
  double e = 0; for(int i = 0; i < n2; ++i) e += g.T()[i] * o1[i]; for(size_t i = 0; i < n4; ++i) e += g.V()[i] * t1[i];
  Rec r("rdm"); r("n", (int)N)("norb", norb)("k", k)("dets", d)("c", ci)("o1", I(o1))("o1only", I(o2))("t1x2", norb <= 6 ? I(t1, 2) : std::vector<long>())("quad", I(q))("energy", I(e));
  if(norb > 6) {  // sparse form
    std::vector<std::vector<long>> nz; for(size_t i = 0; i < n4; ++i) if(t1[i] != 0) nz.push_back({(long)(i % norb), (long)(i / norb % norb), (long)(i / n2 % norb), (long)(i / n2 / norb), I(t1[i], 2)});
    r("sp", true)("t1nz", nz);
  } else r("sp", false);
  o(r);
}
static int rcount = 0;
template <size_t N> void p07(Out& o, Rng& rg, int norb, int na, int nb, int k, int reps, int maxd) {
  Ints in(norb, k); Gen<N> g(in.Ts(), in.Vs());
  for(int t = 0; t < reps; ++t) {
    std::vector<B<N>> sp;
    if(norb <= 5) { sp = space<N>(norb, na, nb); std::shuffle(sp.begin(), sp.end(), rg.g); }
    else { std::set<std::string> seen; auto s0 = randdet<N>(rg, norb, na, nb); for(int i = 0; i < 3 * maxd; ++i) { auto s = excite<N>(rg, s0, norb, rg(0, 2)); if(seen.insert(s.to_string()).second) sp.push_back(s); } }
    if((int)sp.size() > maxd) sp.resize(maxd);
    std::vector<int> c(sp.size()); for(auto& x : c) x = rg(-3, 3);
    rdm<N>(o, g, norb, k, sp, c, rcount++ % 2 ? 0 : 17);
  }
}
int main(int argc, char** argv) {
  std::string mode = argv[1]; bool T = thorough();
  Rng rg(17);
  if(mode == "p04") {
    Out o("");
    for(int k = 0; k < (T ? 7 : 2); ++k) { p04_small<64>(o, rg, 1, k, true); p04_small<64>(o, rg, 2, k, true); p04_small<128>(o, rg, 2, k, true); p04_small<64>(o, rg, 3, k, true); p04_small<128>(o, rg, 3, k, T); }
    p04_small<64>(o, rg, 4, 3, T); p04_small<128>(o, rg, 4, 5, T);
    p04_rand<64>(o, rg, 6, 1, T ? 80 : 12, 6); p04_rand<128>(o, rg, 7, 2, T ? 80 : 12, 7);
    p04_rand<64>(o, rg, 32, 3, T ? 60 : 12, 6); p04_rand<64>(o, rg, 17, 4, T ? 60 : 8, 8);
    p04_rand<128>(o, rg, 36, 5, T ? 60 : 12, 6); p04_rand<64>(o, rg, 32, 6, T ? 20 : 4, 16);
    p04_rand<128>(o, rg, 64, 4, T ? 40 : 6, 5);
  } else if(mode == "p05") {
    Out o(""); int R = T ? 6 : 1;
    for(int k = 0; k < (T ? 5 : 2); ++k) {
      p05<64>(o, rg, 1, 1, 0, k, R, 10); p05<64>(o, rg, 1, 1, 1, k, R, 10); p05<64>(o, rg, 2, 1, 1, k, R, 10); p05<128>(o, rg, 2, 2, 1, k, R, 10); p05<64>(o, rg, 3, 1, 2, k, R, 10); p05<128>(o, rg, 3, 2, 2, k, R, 10);
      p05<64>(o, rg, 4, 2, 2, k, R, T ? 36 : 20); p05<128>(o, rg, 4, 3, 1, k, R, 16); p05<64>(o, rg, 5, 2, 3, k, R, T ? 40 : 14);
    }
    for(int k = 0; k < (T ? 4 : 1); ++k) for(int norb = 2; norb <= 4; ++norb) for(int a = 0; a <= norb; ++a) for(int b = 0; b <= norb; ++b) if(a + b && (!a || !b || a == norb || b == norb)) {
      if(a % 2 == b % 2) p05<64>(o, rg, norb, a, b, k + 1, 1, T ? 16 : 6); else p05<128>(o, rg, norb, a, b, k + 1, 1, T ? 16 : 6);
    }
    longlist<64>(o, rg, 24, 6, 2, 2, 70000, 0); longlist<64>(o, rg, 24, 6, 1, 70000, 2, 1); longlist<64>(o, rg, 20, 4, 3, 1100, 1100, 3); longlist<128>(o, rg, 34, 4, 3, 5, 5000, 0);
    p05<64>(o, rg, 20, 3, 0, 2, 1, 8); p05<128>(o, rg, 40, 0, 3, 2, 1, 8);
    p05<64>(o, rg, 32, 3, 3, 2, T ? 6 : 2, T ? 24 : 14); p05<128>(o, rg, 36, 4, 2, 3, T ? 6 : 2, T ? 24 : 14); p05<128>(o, rg, 64, 2, 3, 1, T ? 3 : 1, 10);
  } else if(mode == "p07") {
    Out o("");
    for(int k = 0; k < (T ? 3 : 1); ++k) {
      for(int norb = 1; norb <= 3; ++norb) for(int a = 0; a <= norb; ++a) for(int b = 0; b <= norb; ++b) { p07<64>(o, rg, norb, a, b, k, T ? 4 : 1, 9); p07<128>(o, rg, norb, a, b, k, T ? 4 : 1, 9); }
      p07<64>(o, rg, 4, 2, 2, k, T ? 4 : 2, T ? 36 : 10); p07<128>(o, rg, 4, 3, 2, k, 2, T ? 24 : 8); p07<64>(o, rg, 4, 2, 1, k, 2, T ? 24 : 8);
      p07<64>(o, rg, 5, 3, 2, k, T ? 3 : 1, T ? 20 : 6);
    }
    p07<64>(o, rg, 24, 3, 2, 1, T ? 6 : 2, 7); p07<128>(o, rg, 34, 2, 3, 2, T ? 4 : 1, 7); p07<128>(o, rg, 64, 2, 2, 1, 1, 6);
  }
  return 0;
}
