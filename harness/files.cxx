// Histories of wavefunction, FCIDUMP and density-matrix files (P18).
#include "common.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <set>
#include <unistd.h>
#include <filesystem>
#include <macis/wavefunction_io.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/binary_rdms.hpp>
using namespace vh;
static Out out;
static Rng rnd(18);
// Real numbers appear in the trace as positions in this pool; a number that is
// not bit-for-bit a pool member is -1.
static std::vector<double> pool;
static void fill_pool() {
  pool = {0.0, 1.0, -1.0, 1.0 / 3, -0.1, 3.14159265358979312, 1e-300, -2.2250738585072014e-308, 1.7976931348623157e308, 0.99999999999999989,
          1.0000000000000002, -4503599627370497.5, 1e-17, 123456789.123456789, -7.0, 6.02214076e23, 5e-5, 1234567.0, 0.1 + 0.2, -1e-9};
  for(int i = 0; i < 60; ++i) {
    double m = 1 + (double)rnd.g() / 4294967296. + (double)rnd.g() / 4294967296. / 4294967296.;
    pool.push_back(std::ldexp(rnd.coin() ? m : -m, rnd(-90, 40)));
  }
}
static int pick() { return rnd(0, 3) ? rnd(0, (int)pool.size() - 1) : rnd(0, 4); }
static const double SENT = 777.25;
static int id(double x) {
  if(x == SENT) return -777;
  for(size_t i = 0; i < pool.size(); ++i) if(!std::memcmp(&x, &pool[i], sizeof x)) return (int)i;
  return -1;
}
static std::vector<int> ids(const std::vector<double>& v) { std::vector<int> o; for(double x : v) o.push_back(id(x)); return o; }
template <size_t N> std::string orbs(const std::bitset<N>& s) {
  std::vector<int> a, b;
  for(size_t i = 0; i < N / 2; ++i) { if(s[i]) a.push_back(i); if(s[i + N / 2]) b.push_back(i); }
  return "[" + js(a) + "," + js(b) + "]";
}
template <size_t N> std::string orbs(const std::vector<std::bitset<N>>& v) {
  std::string o = "["; for(size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + orbs<N>(v[i]); return o + "]";
}
static std::string dir;
static std::string P(int p) { return dir + "/f" + std::to_string(p) + ".dat"; }

// ---- wavefunctions
template <size_t N> void write_wf(Rec& s, int p, bool mism) {
  int norb = rnd(1, (int)std::min<size_t>(N / 2, 8)); if(rnd(0, 4) == 0) norb = N / 2;
  int n = rnd(1, 6);
  std::vector<std::bitset<N>> st(n); std::vector<double> c(n);
  for(auto& x : st) for(int i = 0; i < norb; ++i) { x[i] = rnd.coin(); x[i + N / 2] = rnd.coin(); }
  for(auto& x : c) x = pool[pick()];
  if(mism) { if(rnd.coin()) c.push_back(1.); else c.pop_back(); }
  bool ok = true;
  try { macis::write_wavefunction<N>(P(p), norb, st, c); } catch(const std::exception&) { ok = false; }
  s("N", N)("ok", ok)("nc", c.size())("norb", norb).raw("st", orbs<N>(st))("c", ids(c));
  std::vector<long> h; bool lines = false;
  if(ok) {
    std::ifstream f(P(p)); std::string l; std::getline(f, l); std::stringstream ss(l); long x; while(ss >> x) h.push_back(x);
    size_t k = 0; while(std::getline(f, l)) ++k;
    lines = k == st.size();
  }
  s("h", h)("lines", lines);
}
template <size_t N> void read_wf(Rec& s, int p) {
  std::vector<std::bitset<N>> st{std::bitset<N>(5)}; std::vector<double> c{SENT, SENT};
  bool ok = true;
  try { macis::read_wavefunction<N>(P(p), st, c); } catch(const std::exception&) { ok = false; }
  s("N", N)("ok", ok).raw("st", orbs<N>(st))("c", ids(c));
}
// ---- integral tables
struct Tab { int n; std::vector<double> T, V; double core; };
static Tab table(int n) {
  Tab t{n, std::vector<double>(n * n), std::vector<double>(n * n * n * n), pool[pick()]};
  for(int q = 0; q < n; ++q) for(int p = 0; p <= q; ++p) t.T[p + q * n] = t.T[q + p * n] = pool[pick()];
  auto ix = [&](int p, int q, int r, int s) { return p + n * (q + n * (r + n * s)); };
  for(int q = 0; q < n; ++q) for(int p = 0; p <= q; ++p) for(int s = 0; s < n; ++s) for(int r = 0; r <= s; ++r) {
    if(p + q * (q + 1) / 2 > r + s * (s + 1) / 2) continue;
    double v = pool[pick()];
    for(int k = 0; k < 8; ++k) {
      int a = p, b = q, c = r, d = s;
      if(k & 1) std::swap(a, b); if(k & 2) std::swap(c, d); if(k & 4) { std::swap(a, c); std::swap(b, d); }
      t.V[ix(a, b, c, d)] = v;
    }
  }
  return t;
}
// the lines of an integral file, parsed independently of the library
static std::string parse_lines(int p) {
  std::ifstream f(P(p)); std::string l, o = "["; bool first = true;
  while(std::getline(f, l)) {
    std::stringstream ss(l); std::vector<std::string> t; std::string x; while(ss >> x) t.push_back(x);
    if(t.size() != 5) continue;
    o += (first ? "" : ","); first = false;
    o += "[" + t[0] + "," + t[1] + "," + t[2] + "," + t[3] + "," + std::to_string(id(std::strtod(t[4].c_str(), nullptr))) + "]";
  }
  return o + "]";
}
static void write_fci(Rec& s, int p) {
  int n = rnd(1, 3); auto t = table(n);
  int lt = n + rnd(0, 2), lv = n + rnd(0, 1);
  std::vector<double> T(lt * n, 55.5), V(lv * lv * lv * n, 66.5);
  for(int q = 0; q < n; ++q) for(int i = 0; i < n; ++i) T[i + q * lt] = t.T[i + q * n];
  for(int d = 0; d < n; ++d) for(int c = 0; c < n; ++c) for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a)
    V[a + lv * (b + lv * (c + lv * d))] = t.V[a + n * (b + n * (c + n * d))];
  bool ok = true;
  try { macis::write_fcidump(P(p), n, T.data(), lt, V.data(), lv, t.core); } catch(const std::exception&) { ok = false; }
  s("ok", ok)("n", n)("T", ids(t.T))("V", ids(t.V))("core", id(t.core)).raw("lines", parse_lines(p));
}
// a file of another program: one entry per symmetry class in any order and
// index permutation, values before or after the indices, headers, orbital
// energies, an integer-looking value
static void foreign_fci(Rec& s, int p) {
  int n = rnd(1, 4); auto t = table(n);
  std::vector<std::array<int, 5>> ls;
  int keep = rnd(0, 1) ? 9 : rnd(0, 1);   // now and then only a few lines
  for(int q = 0; q < n; ++q) for(int i = 0; i <= q; ++i) if(rnd(0, 10) <= keep) ls.push_back({i + 1, q + 1, 0, 0, id(t.T[i + q * n])});
  for(int q = 0; q < n; ++q) for(int a = 0; a <= q; ++a) for(int d = 0; d < n; ++d) for(int c = 0; c <= d; ++c)
    if(a + q * (q + 1) / 2 <= c + d * (d + 1) / 2 && rnd(0, 10) <= keep) ls.push_back({a + 1, q + 1, c + 1, d + 1, id(t.V[a + n * (q + n * (c + n * d))])});
  if(rnd(0, 3) == 0) { ls.clear(); ls.push_back({rnd(1, 3), rnd(1, 3), rnd(1, 3), rnd(1, 3), pick()}); if(rnd.coin()) ls.push_back({rnd(1, 4), rnd(1, 4), 0, 0, pick()}); }
  for(auto& x : ls) {
    if(rnd.coin()) std::swap(x[0], x[1]);
    if(x[2]) { if(rnd.coin()) std::swap(x[2], x[3]); if(rnd.coin()) { std::swap(x[0], x[2]); std::swap(x[1], x[3]); } }
  }
  if(rnd(0, 2) == 0) for(int i = 0; i < n; ++i) ls.push_back({i + 1, 0, 0, 0, pick()});
  if(rnd(0, 3)) ls.push_back({0, 0, 0, 0, id(t.core)});
  for(size_t i = ls.size(); i-- > 1;) std::swap(ls[i], ls[rnd(0, i)]);
  bool vfirst = rnd.coin(), tabs = rnd(0, 5) == 0, crlf = rnd(0, 5) == 0, dexp = rnd(0, 4) == 0;   // Fortran's D exponents
  std::ofstream f(P(p));
  int hdr = rnd(0, 5);
  if(hdr == 1) f << "&FCI NORB=" << n << ",NELEC=2,MS2=0,\n  ORBSYM=1,1,\n  ISYM=1,\n&END\n";
  // headers with five words in a line
  if(hdr == 3) f << " &FCI NORB= " << n << ",NELEC= 4,MS2= 0,\n  ORBSYM=1, 2, 3, 4, 1,\n  ISYM=1\n &END\n";
  if(hdr == 4) f << "&FCI NORB=" << n << ", NELEC=2, MS2= 0,\n ORBSYM= 1 2 3 4\n ISYM=1, IUHF=0, A=1, B=2, C=3\n/\n";
  if(hdr == 2) f << "\n # integrals of some molecule in six words\n\n";
  std::string L = "[";
  for(auto& x : ls) {
    char b[64]; double v = pool[x[4]];
    const char* fm = rnd.coin() ? "%.17e" : "%24.16E";
    snprintf(b, sizeof b, fm, v);
    if(dexp) for(char& c : b) { if(c == 'e') c = 'd'; if(c == 'E') c = 'D'; }
    if(vfirst) f << (rnd.coin() ? "  " : "") << b; 
    for(int k = 0; k < 4; ++k) f << (vfirst || k ? std::string(rnd(1, 4), tabs ? '\t' : ' ') : std::string(rnd(0, 3), ' ')) << x[k];
    if(!vfirst) f << (tabs ? "\t" : "  ") << b;
    if(rnd(0, 5) == 0) f << " ";
    f << (crlf ? "\r\n" : "\n");
    L += (L.size() > 1 ? "," : "") + std::string("[") + js(x[0]) + "," + js(x[1]) + "," + js(x[2]) + "," + js(x[3]) + "," + js(x[4]) + "]";
  }
  s("ok", true).raw("lines", L + "]");
}
// a table with one line that names no orbital: a negative index, or no index at either end
static void broken_fci(Rec& s, int p) {
  int nl = rnd(1, 6), at = rnd(0, nl - 1), where = rnd(0, 4);   // where = 4: both ends are reals
  bool vfirst = rnd.coin(); std::ofstream f(P(p)); std::string L = "[";
  for(int i = 0; i < nl; ++i) {
    std::vector<int> x = rnd.coin() ? std::vector<int>{rnd(1, 3), rnd(1, 3), rnd(1, 3), rnd(1, 3)} : std::vector<int>{rnd(1, 3), rnd(1, 3), 0, 0};
    if(i == at && where < 4) x[where] = -rnd(1, 3);
    if(i == at && where == 4) { f << "0.25 1 1 1 1.5\n"; L += (i ? "," : "") + std::string("[1,1,1,-9]"); continue; }
    if(vfirst) f << "0.5 "; 
    for(int k = 0; k < 4; ++k) f << " " << x[k];
    if(!vfirst) f << " 0.5";
    f << "\n"; L += (i ? "," : "") + std::string("[") + js(x[0]) + "," + js(x[1]) + "," + js(x[2]) + "," + js(x[3]) + "]";
  }
  s("ok", true).raw("lines", L + "]");
}
static void read_broken(Rec& s, int p) {
  std::vector<bool> ok(4, true); std::vector<double> T(9, SENT), V(81, SENT);
  try { macis::read_fcidump_norb(P(p)); } catch(const std::exception&) { ok[0] = false; }
  try { macis::read_fcidump_core(P(p)); } catch(const std::exception&) { ok[1] = false; }
  try { macis::read_fcidump_1body(P(p), T.data(), 3); } catch(const std::exception&) { ok[2] = false; }
  try { macis::read_fcidump_2body(P(p), V.data(), 3); } catch(const std::exception&) { ok[3] = false; }
  s("ok", ok[0] || ok[1] || ok[2] || ok[3]);
}
static void read_fci(Rec& s, int p) {
  int n = macis::read_fcidump_norb(P(p));
  double core = macis::read_fcidump_core(P(p));
  bool raw = rnd.coin(); int lt = n + (raw ? rnd(0, 2) : 0), lv = n + (raw ? rnd(0, 1) : 0);
  std::vector<double> T(lt * n, SENT), V(lv * lv * lv * n, SENT);
  int bad = raw ? 0 : rnd(0, 3) == 0;   // a span of the wrong size is refused
  bool ok = true, ok1 = true, ok2 = true;
  if(raw) { macis::read_fcidump_1body(P(p), T.data(), lt); macis::read_fcidump_2body(P(p), V.data(), lv); }
  else if(bad) {
    int m = rnd(n + 1, n + 2); std::vector<double> X(m * m, SENT), Y(m * m * m * m, SENT);
    try { macis::read_fcidump_1body(P(p), macis::col_major_span<double, 2>(X.data(), m, m)); } catch(const std::exception&) { ok1 = false; }
    try { macis::read_fcidump_2body(P(p), macis::col_major_span<double, 4>(Y.data(), m, m, m, m)); } catch(const std::exception&) { ok2 = false; }
    ok = ok1 || ok2;
    for(double x : X) ok = ok || x != SENT;
    for(double x : Y) ok = ok || x != SENT;
  } else {
    macis::read_fcidump_1body(P(p), macis::col_major_span<double, 2>(T.data(), n, n));
    macis::read_fcidump_2body(P(p), macis::col_major_span<double, 4>(V.data(), n, n, n, n));
  }
  std::vector<double> t, v; bool pad = true;
  for(int q = 0; q < n; ++q) for(int i = 0; i < lt; ++i) { if(i < n) t.push_back(T[i + q * lt]); else pad = pad && T[i + q * lt] == SENT; }
  for(int d = 0; d < n; ++d) for(int c = 0; c < lv; ++c) for(int b = 0; b < lv; ++b) for(int a = 0; a < lv; ++a) {
    double x = V[a + lv * (b + lv * (c + lv * d))];
    if(a < n && b < n && c < n) v.push_back(x); else pad = pad && x == SENT;
  }
  s("ok", ok)("bad", bad)("n", n)("core", id(core))("T", ids(t))("V", ids(v))("pad", pad);
}
// tables with two-digit orbitals: a dense one written by the library (some of its
// lines recorded), or a handful of lines from elsewhere; what is read back is
// recorded as the list of entries that changed
static void big_fci(int h) {
  int n = rnd(9, 13); bool ours = rnd.coin(); if(ours && n > 10) n = 10 + rnd(0, 1);
  std::vector<std::array<int, 5>> ls; Tab t; size_t nl = 0;
  if(ours) {
    t = table(n); macis::write_fcidump(P(0), n, t.T.data(), n, t.V.data(), n, t.core);
    std::ifstream f(P(0)); std::string l;
    while(std::getline(f, l)) {
      bool last = ++nl > (size_t)n * n * n * n;
      if(!last && rnd(0, 200)) continue;
      std::stringstream ss(l); std::array<int, 5> x; std::string v; ss >> x[0] >> x[1] >> x[2] >> x[3] >> v; x[4] = id(std::strtod(v.c_str(), nullptr)); ls.push_back(x);
    }
  } else {
    auto o = [&] { return rnd(0, 2) ? rnd(9, n) : rnd(1, n); };
    std::set<std::vector<int>> seen;
    for(int k = 0; k < 24; ++k) {
      int a = o(), b = o(), c = o(), d = o(); bool two = rnd(0, 2);
      if(a > b) std::swap(a, b); if(c > d) std::swap(c, d); if(std::pair(a, b) > std::pair(c, d)) { std::swap(a, c); std::swap(b, d); }
      if(!two) c = d = 0;
      if(!seen.insert({a, b, c, d}).second) continue;
      if(rnd.coin()) std::swap(a, b); if(rnd.coin()) std::swap(c, d); if(two && rnd.coin()) { std::swap(a, c); std::swap(b, d); }
      ls.push_back({a, b, c, d, pick()});
    }
    ls.push_back({0, 0, 0, 0, pick()});
    for(size_t i = ls.size(); i-- > 1;) std::swap(ls[i], ls[rnd(0, i)]);
    std::ofstream f(P(0)); bool vfirst = rnd.coin(); int w = rnd(1, 5);
    for(auto& x : ls) {
      char b[64]; snprintf(b, sizeof b, "%.17e", pool[x[4]]);
      if(vfirst) f << b;
      for(int k = 0; k < 4; ++k) f << " " << std::setw(w) << x[k];
      if(!vfirst) f << " " << b;
      f << "\n";
    }
    nl = ls.size();
  }
  int m = macis::read_fcidump_norb(P(0)); double core = macis::read_fcidump_core(P(0));
  std::vector<double> T(m * m, SENT), V((size_t)m * m * m * m, SENT);
  macis::read_fcidump_1body(P(0), macis::col_major_span<double, 2>(T.data(), m, m));
  macis::read_fcidump_2body(P(0), macis::col_major_span<double, 4>(V.data(), m, m, m, m));
  std::string got = "[", L = "["; bool same = ours && m == n;
  if(ours) {   // every entry by comparison, without a record of each
    for(size_t i = 0; same && i < T.size(); ++i) same = id(T[i]) == id(t.T[i]);
    for(size_t i = 0; same && i < V.size(); ++i) same = !std::memcmp(&V[i], &t.V[i], sizeof(double));
  } else for(int a = 0; a < m; ++a) for(int b = 0; b < m; ++b) {
    auto e = [&](int c, int d, double x) { if(x != SENT) got += std::string(got.size() > 1 ? "," : "") + js(std::vector<int>{a + 1, b + 1, c, d, id(x)}); };
    e(0, 0, T[a + b * m]);
    for(int c = 0; c < m; ++c) for(int d = 0; d < m; ++d) e(c + 1, d + 1, V[a + m * (b + m * (c + (size_t)m * d))]);
  }
  for(auto& x : ls) L += std::string(L.size() > 1 ? "," : "") + js(std::vector<int>(x.begin(), x.end()));
  Rec r("big"); r("h", h)("ours", ours)("n", n)("nl", nl)("norb", m)("core", id(core))("same", same).raw("lines", L + "]").raw("got", got + "]");
  r("T", ours ? ids(t.T) : std::vector<int>{})("V", ours ? ids(t.V) : std::vector<int>{})("c", ours ? id(t.core) : 0);
  out(r); std::filesystem::remove(P(0));
}
// ---- density matrices
static void write_rdm(Rec& s, int p) {
  int n = rnd(1, 3), l1 = n + rnd(0, 2), l2 = n + rnd(0, 1);
  std::vector<double> A(l1 * n, 55.5), B(l2 * l2 * l2 * n, 66.5), a, b;
  for(int q = 0; q < n; ++q) for(int i = 0; i < n; ++i) a.push_back(A[i + q * l1] = pool[pick()]);
  for(int d = 0; d < n; ++d) for(int c = 0; c < n; ++c) for(int q = 0; q < n; ++q) for(int i = 0; i < n; ++i)
    b.push_back(B[i + l2 * (q + l2 * (c + l2 * d))] = pool[pick()]);
  bool ok = true;
  try { macis::write_rdms_binary(P(p), n, A.data(), l1, B.data(), l2); } catch(const std::exception&) { ok = false; }
  s("ok", ok)("n", n)("A", ids(a))("B", ids(b));
}
static void read_rdm(Rec& s, int p, int n) {
  int l1 = n + rnd(0, 2), l2 = n + rnd(0, 1);
  std::vector<double> A(l1 * n, SENT), B(l2 * l2 * l2 * n, SENT), a, b; bool pad = true, ok = true;
  try { macis::read_rdms_binary(P(p), n, A.data(), l1, B.data(), l2); } catch(const std::exception&) { ok = false; }
  for(int q = 0; q < n; ++q) for(int i = 0; i < l1; ++i) { if(i < n) a.push_back(A[i + q * l1]); else pad = pad && A[i + q * l1] == SENT; }
  for(int d = 0; d < n; ++d) for(int c = 0; c < l2; ++c) for(int q = 0; q < l2; ++q) for(int i = 0; i < l2; ++i) {
    double x = B[i + l2 * (q + l2 * (c + l2 * d))];
    if(i < n && q < n && c < n) b.push_back(x); else pad = pad && x == SENT;
  }
  s("ok", ok)("n", n)("A", ids(a))("B", ids(b))("pad", pad);
}
int main(int argc, char** argv) {
  out.open("");
  std::cout.setstate(std::ios::failbit);
  char tmpl[] = "/tmp/macisfilesXXXXXX"; dir = mkdtemp(tmpl);
  fill_pool();
  const int NH = thorough() ? 700 : 130, NS = thorough() ? 30 : 14, NP = 3;
  for(int h = 0; h < NH; ++h) {
    std::vector<int> kind(NP, 0), nn(NP, 0);   // what each path holds: 0 nothing 1 wf 2 fci 3 rdm
    std::vector<int> width(NP, 0);
    for(int p = 0; p < NP; ++p) std::filesystem::remove(P(p));
    std::string st = "[";
    auto put = [&](const Rec& s) { st += (st.size() > 1 ? "," : "") + s.s + "}"; };
    for(int k = 0; k < NS; ++k) {
      int p = rnd(0, NP - 1), w = rnd(0, 9);
      bool rd = kind[p] && rnd(0, 2);
      if(rd) {
        if(kind[p] == 1) { Rec s("rwf"); s("p", p); if(width[p] == 128 || rnd.coin()) read_wf<128>(s, p); else read_wf<64>(s, p); put(s); }
        if(kind[p] == 2) { Rec s("rfci"); s("p", p); read_fci(s, p); put(s); }
        if(kind[p] == 3) {
          if(rnd(0, 7) == 0) {   // the file loses its tail
            std::filesystem::resize_file(P(p), std::filesystem::file_size(P(p)) - rnd(1, 3));
            Rec s("cut"); s("p", p)("ok", true); put(s);
          }
          Rec s("rrdm"); s("p", p); read_rdm(s, p, rnd(0, 3) ? nn[p] : rnd(1, 3)); put(s);
        }
        continue;
      }
      if(w == 0) { Rec s("cwf"); s("p", p); if(rnd.coin()) write_wf<64>(s, p, true); else write_wf<128>(s, p, true); put(s); continue; }
      if(w == 1 && !kind[p]) { Rec s("rrdm"); s("p", p); read_rdm(s, p, 2); put(s); continue; }
      if(w == 2 && !kind[p]) { Rec s("rwf"); s("p", p); read_wf<64>(s, p); put(s); continue; }
      if(w == 3 && rnd(0, 2) == 0) { Rec s("bfci"); s("p", p); broken_fci(s, p); put(s); kind[p] = 0; Rec q("rbad"); q("p", p); read_broken(q, p); put(q); std::filesystem::remove(P(p)); continue; }
      if(w < 5) { Rec s("wwf"); s("p", p); if(rnd.coin()) { write_wf<64>(s, p, false); width[p] = 64; } else { write_wf<128>(s, p, false); width[p] = 128; } put(s); kind[p] = 1; }
      else if(w < 6) { Rec s("wfci"); s("p", p); write_fci(s, p); put(s); kind[p] = 2; }
      else if(w < 8) { Rec s("ffci"); s("p", p); foreign_fci(s, p); put(s); kind[p] = 2; Rec q("rfci"); q("p", p); read_fci(q, p); put(q); }
      else {
        Rec s("wrdm"); s("p", p); write_rdm(s, p); put(s); kind[p] = 3;
        std::ifstream f(P(p), std::ios::binary); int n = 0; f.read((char*)&n, 4); nn[p] = n;
      }
    }
    Rec r("hist"); r("h", h).raw("steps", st + "]"); out(r);
  }
  for(int h = 0; h < (thorough() ? 60 : 12); ++h) big_fci(h);
  std::filesystem::remove_all(dir);
}
