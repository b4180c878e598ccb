// P01/P02/P03 driver: bit strings, excitations, CI spaces.
#include <macis/sd_operations.hpp>
#include <macis/asci/determinant_sort.hpp>
#include "common.hpp"
using namespace vh;
using namespace macis;
template <size_t N> using B = std::bitset<N>;

template <size_t N> B<N> mk(const std::vector<int>& v) { B<N> b; for(int i : v) b.set(i); return b; }

// boundary positions for a width
static std::vector<int> bpos(int N) {
  std::set<int> s;
  for(int w : {0, 16, 32, 64, 96, 128, 160, 192, 256, 512})
    for(int d : {-1, 0, 1}) if(w + d >= 0 && w + d < N) s.insert(w + d);
  s.insert(N - 1); s.insert(N / 2); s.insert(N / 2 - 1);
  return {s.begin(), s.end()};
}

template <size_t N> std::vector<B<N>> inputs(Rng& g, int nrand, bool triples) {
  auto p = bpos(N);
  std::vector<B<N>> r;
  for(size_t i = 0; i < p.size(); ++i) {
    r.push_back(mk<N>({p[i]}));
    for(size_t j = i + 1; j < p.size(); ++j) {
      r.push_back(mk<N>({p[i], p[j]}));
      if(triples) for(size_t k = j + 1; k < p.size(); ++k) r.push_back(mk<N>({p[i], p[j], p[k]}));
    }
  }
  for(int t = 0; t < nrand; ++t) {
    B<N> b; int dens = g(1, 4);
    for(size_t i = 0; i < N; ++i) if(g(0, 4) < dens) b.set(i);
    if(b.any()) r.push_back(b);
  }
  B<N> all; all.set(); r.push_back(all);
  return r;
}
static std::vector<int> words16(unsigned __int128 x) {
  std::vector<int> w; for(int i = 0; i < 8; ++i) w.push_back((int)((x >> (16 * i)) & 0xffff)); return w;
}

template <size_t N> void unary(Out& o, Rng& g, int nrand, bool triples) {
  for(auto b : inputs<N>(g, nrand, triples)) {
    Rec r("bits"); r("n", (int)N)("b", b)("ffs", macis::ffs(b))("fls", macis::fls(b))("idx", bits_to_indices(b));
    std::vector<uint32_t> stale(5, 9999); bits_to_indices(b, stale); r("idx2", stale);
    std::vector<B<2 * N>> dummy;
    r("exp", expand_bitset<2 * N>(b));
    r("trh", truncate_bitset<N / 2>(b));
    if constexpr(N > 32) r("tr32", truncate_bitset<32>(b)); else r("tr32", b);
    if constexpr(N == 64 or N == 128) {
      r("halves", true)("lo", bitset_lo_word(b))("hi", bitset_hi_word(b));
      auto s = to_canonical_string(b);
      std::vector<std::string> cs; for(char c : s) cs.push_back(std::string(1, c));
      r("str", cs)("back", from_canonical_string<N>(s));
    } else {
      r("halves", false);
    }
    if constexpr(N <= 128) r("wide", true)("w", words16(to_uint128(b))); else r("wide", false);
    if constexpr(N == 64) r("ull", true)("u", words16(fast_to_ullong(b)));
    else if constexpr(N == 32) r("ull", true)("u", words16(fast_to_ulong(b)));
    else if constexpr(N == 128) r("ull", true)("u", words16(fast_to_ullong(b)));  // low word
    else r("ull", false);
    o(r);
  }
  B<N> zero;
  { Rec r("empty"); std::vector<uint32_t> stale(3, 7); bits_to_indices(zero, stale);
    r("n", (int)N)("idx", bits_to_indices(zero))("idx2", stale)("exp", expand_bitset<2 * N>(zero))("tr", truncate_bitset<N / 2>(zero));
    o(r); }
  for(int i = 0; i <= (int)N; i += (N <= 64 ? 1 : (i % 32 < 2 || i % 32 > 29) ? 1 : 7)) {
    if(i > (int)N) break;
    Rec r("mask"); r("n", (int)N)("i", i)("m", full_mask<N>((size_t)i)); o(r);
  }
  { Rec r("mask"); r("n", (int)N)("i", (int)N)("m", full_mask<N>((size_t)N)); o(r); }
  { Rec r("mask2"); r("n", (int)N)("m", full_mask<N>())("m2", full_mask<N, 2 * N>())("m4", full_mask<N, 4 * N>())("mh", full_mask<N / 2, N>()); o(r); }
}

template <size_t N> void less(Out& o, Rng& g, int npairs) {
  auto p = bpos(N);
  std::vector<B<N>> in; in.push_back(B<N>());
  for(int a : p) in.push_back(mk<N>({a}));
  for(int t = 0; t < 6; ++t) { B<N> b; for(int a : p) if(g.coin()) b.set(a); in.push_back(b); }
  B<N> all; all.set(); in.push_back(all);
  auto emit = [&](B<N> x, B<N> y) {
    Rec r("less"); r("n", (int)N)("x", x)("y", y)("r", bitset_less(x, y))("c", bitset_less_comparator<N>()(x, y)); o(r);
  };
  for(auto x : in) for(auto y : in) emit(x, y);
  for(int t = 0; t < npairs; ++t) {
    B<N> x, y; for(size_t i = 0; i < N; ++i) { if(g.coin()) x.set(i); }
    y = x; int nf = g(0, 3); for(int k = 0; k < nf; ++k) y.flip(g(0, N - 1));
    emit(x, y);
  }
}

// ---------------------------------------------------------------- excitations
template <size_t N> void excite(Out& o, B<N> s, int norb) {
  // stale content must not survive
  B<N> junk; junk.set(0).set(1).set(2).set(3).set(4);
  std::vector<B<N>> S(3, junk), D(2, junk), S2(1, junk), S3(1, junk), D3(1, junk);
  generate_singles_doubles_spin(norb, s, S, D);
  generate_singles_spin(norb, s, S2);
  Rec r("spin"); r("n", (int)N)("norb", norb)("s", s)("S", S)("D", D)("S2", S2);
  std::vector<uint32_t> orbs(norb); std::iota(orbs.begin(), orbs.end(), 0u);
  std::vector<B<N>> Sa(2, junk), Sb(2, junk), Db(2, junk);
  generate_singles_spin_as(norb, s, Sa, orbs);
  generate_singles_doubles_spin_as(norb, s, Sb, Db, orbs);
  r("Sa", Sa)("Sb", Sb)("Db", Db);
  o(r);
}
template <size_t N> void excite_as(Out& o, B<N> s, const std::vector<uint32_t>& orbs, int norb) {
  std::vector<B<N>> Sa(2), Sb(2), Db(2);
  generate_singles_spin_as(norb, s, Sa, orbs);
  generate_singles_doubles_spin_as(norb, s, Sb, Db, orbs);
  Rec r("spinas"); r("n", (int)N)("s", s)("as", orbs)("Sa", Sa)("Sb", Sb)("Db", Db); o(r);
}
template <size_t N> void excite1(Out& o, B<N> s, int norb) {
  B<N> junk; junk.set(1);
  std::vector<B<N>> S(3, junk), D(2, junk), S2(1, junk), D2(4, junk);
  generate_singles(norb, s, S); generate_doubles(norb, s, D); generate_singles_doubles(norb, s, S2, D2);
  std::vector<uint32_t> occ(7, 99), vir(9, 99); bitset_to_occ_vir(norb, s, occ, vir);
  std::vector<uint32_t> occa(7, 99), vira(9, 99), orbs; for(int i = 0; i < norb; i += 2) orbs.push_back(i);
  bitset_to_occ_vir_as<N>(norb, s, occa, vira, orbs);
  std::vector<B<N>> S4(1, junk), S5(1, junk), D5(1, junk); generate_singles_as<N>(norb, s, S4, orbs);
  generate_singles_doubles_as<N>(norb, s, S5, D5, orbs);
  Rec r("one"); r("n", (int)N)("norb", norb)("s", s)("S", S)("D", D)("S2", S2)("D2", D2)("occ", occ)("vir", vir)
    ("as", orbs)("occa", occa)("vira", vira)("S4", S4)("S5", S5)("D5", D5);
  o(r);
}
template <size_t N> void residues(Out& o, B<N> s) {
  std::vector<B<N>> R; generate_residues(s, R);
  Rec r("res"); r("n", (int)N)("s", s)("R", R); o(r);
}
template <size_t N> void rand_spin(Out& o, Rng& g, int norb, int maxe, int reps) {
  for(int t = 0; t < reps; ++t) {
    B<N> s; int na = g(0, maxe), nb = g(0, maxe);
    auto fill = [&](int cnt, int off) { int c = 0; while(c < cnt) { int p = g(0, norb - 1);
        if(norb > 24 && g.coin()) p = g(0, 1) ? norb - 1 - g(0, 3) : 30 + g(0, 3) < norb ? 30 + g(0, 3) : p;
        if(!s[p + off]) { s.set(p + off); ++c; } } };
    fill(na, 0); fill(nb, N / 2);
    excite<N>(o, s, norb);
    residues<N>(o, s);
    std::vector<uint32_t> orbs; for(int i = 0; i < norb; ++i) if(g(0, 2)) orbs.push_back(i);
    std::shuffle(orbs.begin(), orbs.end(), g.g);
    if(orbs.size() > 1) excite_as<N>(o, s, orbs, norb);
  }
}

// ------------------------------------------------------------------- CI spaces
template <size_t N> void spaces(Out& o, int norb, int na, int nb) {
  auto H = generate_hilbert_space<N>(norb, na, nb);
  Rec r("hilbert"); r("n", (int)N)("norb", norb)("na", na)("nb", nb)("H", H); o(r);
}
template <size_t N> void combs(Out& o, int nb, int ns) {
  Rec r("combs"); r("n", (int)N)("norb", nb)("na", ns)("H", generate_combs<N>(nb, ns)); o(r);
}
template <size_t N> void cisd(Out& o, B<N> s, int norb) {
  B<N> junk; junk.set(0);
  std::vector<B<N>> a(3, junk), b(2, junk); generate_cis_hilbert_space(norb, s, a); generate_cisd_hilbert_space(norb, s, b);
  Rec r("cisd"); r("n", (int)N)("norb", norb)("s", s)("cis", a)("cisd", b)("cis2", generate_cis_hilbert_space(norb, s))("cisd2", generate_cisd_hilbert_space(norb, s));
  o(r);
}
template <size_t N> void hf(Out& o, Rng& g, int na, int nb) {
  Rec r("hf"); r("n", (int)N)("na", na)("nb", nb)("d", canonical_hf_determinant<N>(na, nb)); o(r);
}
template <size_t N> void hfe(Out& o, Rng& g, int norb, int na, int nb) {
  std::vector<int> e(norb); for(auto& x : e) x = g(-6, 6);
  std::vector<double> d(e.begin(), e.end());
  Rec r("hfe"); r("n", (int)N)("norb", norb)("na", na)("nb", nb)("e", e)("d", canonical_hf_determinant<N>(na, nb, d)); o(r);
}

int main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "p01";
  bool T = thorough();
  if(mode == "p01") {
    Out o(""); Rng g(1);
    int nr = T ? 400 : 40, np = T ? 1500 : 120;
    unary<32>(o, g, nr, T); unary<64>(o, g, nr, T); unary<128>(o, g, nr, T); unary<256>(o, g, nr / 2, false);
    unary<192>(o, g, nr / 4, false);
    less<32>(o, g, np); less<64>(o, g, np); less<128>(o, g, np); less<256>(o, g, np); less<96>(o, g, np); less<192>(o, g, np / 2);
    less<512>(o, g, np / 4);
    Rng h(2);
    for(int t = 0; t < (T ? 300 : 40); ++t) {  // round trip strings of random text
      int k = h(1, 32); std::string s; std::vector<std::string> cs;
      for(int i = 0; i < k; ++i) s += "0ud2"[h(0, 3)];
      for(char c : s) cs.push_back(std::string(1, c));
      Rec r("fromstr"); r("str", cs)("b64", from_canonical_string<64>(s))("b128", from_canonical_string<128>(s)); o(r);
    }
  } else if(mode == "p02") {
    Out o(""); Rng g(3);
    // every determinant of small orbital counts
    for(int norb = 1; norb <= (T ? 4 : 3); ++norb)
      for(int m = 0; m < (1 << (2 * norb)); ++m) {
        B<64> s; B<128> s2;
        for(int i = 0; i < norb; ++i) { if(m >> i & 1) { s.set(i); s2.set(i); } if(m >> (norb + i) & 1) { s.set(32 + i); s2.set(64 + i); } }
        if(m % 2 || T) excite<64>(o, s, norb); if(m % 2 == 0 || T) excite<128>(o, s2, norb);
        if(m < (1 << norb)) { excite1<64>(o, s, norb); excite1<32>(o, B<32>(m), norb); excite1<128>(o, s2, norb); }
        residues<64>(o, s); residues<128>(o, s2);
      }
    for(int t = 0; t < (T ? 60 : 12); ++t) {
      int norb = g(5, 9); B<64> s; for(int i = 0; i < norb; ++i) if(g.coin()) s.set(i);
      excite1<64>(o, s, norb);
      B<128> s2; for(int i = 0; i < norb; ++i) if(s[i]) s2.set(i); excite1<128>(o, s2, norb);
      B<256> s3; for(int i = 0; i < norb; ++i) if(s[i]) s3.set(i); excite1<256>(o, s3, norb);
    }
    { B<128> s; for(int i : {0, 63, 64, 69}) s.set(i); excite1<128>(o, s, 70); B<64> q; for(int i : {0, 31, 32, 63}) q.set(i); excite1<64>(o, q, 64);
      B<32> u; for(int i : {0, 15, 31}) u.set(i); excite1<32>(o, u, 32); B<256> w; for(int i : {1, 64, 129}) w.set(i); excite1<256>(o, w, 40 + 90); }
    rand_spin<64>(o, g, 5, 4, T ? 60 : 10); rand_spin<128>(o, g, 6, 5, T ? 40 : 8);
    rand_spin<64>(o, g, 32, 2, T ? 12 : 2); rand_spin<128>(o, g, 34, 2, T ? 12 : 2); rand_spin<128>(o, g, 64, 1, T ? 6 : 2);
    rand_spin<64>(o, g, 17, 2, T ? 10 : 2);
  } else if(mode == "p03") {
    Out o(""); Rng g(4);
    for(int norb = 1; norb <= (T ? 5 : 4); ++norb) for(int a = 0; a <= norb; ++a) for(int b = 0; b <= norb; ++b) {
      spaces<64>(o, norb, a, b); spaces<128>(o, norb, a, b); if(norb < 4) { spaces<256>(o, norb, a, b); spaces<32>(o, norb, a, b); }
    }
    spaces<64>(o, 6, 3, 2); spaces<128>(o, 6, 2, 3); spaces<128>(o, 33, 1, 1); spaces<64>(o, 32, 1, 1); spaces<128>(o, 64, 1, 0); spaces<128>(o, 64, 0, 1); spaces<256>(o, 65, 1, 0); spaces<256>(o, 66, 0, 1); spaces<256>(o, 5, 2, 3);
    for(int nb = 1; nb <= (T ? 9 : 7); ++nb) for(int ns = 0; ns <= nb; ++ns) { combs<64>(o, nb, ns); combs<128>(o, nb, ns); combs<32>(o, nb, ns); combs<256>(o, nb, ns); }
    combs<64>(o, 40, 2); combs<128>(o, 65, 1); combs<128>(o, 70, 2); combs<256>(o, 130, 1); combs<64>(o, 64, 1); combs<64>(o, 33, 32);
    for(int norb = 1; norb <= 3; ++norb) for(int m = 0; m < (1 << (2 * norb)); ++m) {
      B<64> s; B<128> s2;
      for(int i = 0; i < norb; ++i) { if(m >> i & 1) { s.set(i); s2.set(i); } if(m >> (norb + i) & 1) { s.set(32 + i); s2.set(64 + i); } }
      cisd<64>(o, s, norb); if(T || m % 3 == 0) cisd<128>(o, s2, norb);
    }
    for(int t = 0; t < (T ? 40 : 8); ++t) { int norb = g(4, 7); B<64> s; B<128> s2; for(int i = 0; i < norb; ++i) { if(g.coin()) { s.set(i); s2.set(i); } if(g.coin()) { s.set(32 + i); s2.set(64 + i); } }
      cisd<64>(o, s, norb); cisd<128>(o, s2, norb); }
    { B<64> s; s.set(31).set(0).set(63); cisd<64>(o, s, 32); B<128> q; q.set(63).set(64).set(33); cisd<128>(o, q, 64); }
    for(int a = 0; a <= 16; ++a) for(int b = 0; b <= 16; b += 3) { hf<32>(o, g, a, b); }
    for(int a = 0; a <= 32; a += 3) for(int b = 1; b <= 32; b += 5) { hf<64>(o, g, a, b); hf<128>(o, g, a, b); hf<128>(o, g, 2 * a, 2 * b); hf<256>(o, g, 2 * a, b); hf<256>(o, g, 2 * a + 65, 4 * b); }
    hf<64>(o, g, 32, 32); hf<128>(o, g, 64, 64); hf<128>(o, g, 0, 64); hf<256>(o, g, 128, 128); hf<32>(o, g, 16, 16);
    for(int t = 0; t < (T ? 400 : 60); ++t) { int norb = g(1, 16); int a = g(0, norb), b = g(0, norb); hfe<32>(o, g, norb, a, b); hfe<64>(o, g, norb, a, b); hfe<128>(o, g, norb, a, b); hfe<256>(o, g, norb, b, a); }
  }
  return 0;
}
