#include <omp.h>
#include <cmath>
// Drives the legacy solver's integral tables, density-matrix container and
// text input (attic/inc/cmz_ed/{integrals,rdms,utils}.h++).
// Spec: spec/LegacyTabTrace.tla.
#include <bit>
#include <iostream>
#include <sstream>
#include <fstream>
#include <filesystem>
#include <unistd.h>
#include "cmz_ed/slaterdet.h++"
#include "cmz_ed/integrals.h++"
#include "cmz_ed/rdms.h++"
#include "common.hpp"
using namespace cmz::ed;
using namespace vh;
namespace {
using u64 = uint64_t;
using Q = std::vector<long>;
Out* out;
std::string dir;
template <class Fn> std::string tryq(Fn f) {
  std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); std::string r = "ok";
  try { f(); } catch(...) { r = "throw"; }
  std::cout.rdbuf(b); return r;
}
Q tq(const intgrls::integrals& g, int s) { Q o; int n = g.norbitals; for(int a = 0; a < n; ++a) for(int i = 0; i < n; ++i) o.push_back(I(g.get(i, a), s)); return o; }
Q uq(const intgrls::integrals& g, int s) {
  Q o; int n = g.norbitals; for(int b = 0; b < n; ++b) for(int j = 0; j < n; ++j) for(int a = 0; a < n; ++a) for(int i = 0; i < n; ++i) o.push_back(I(g.getPhys(i, j, a, b), s));
  return o;
}
Q tq(const cmz::ed::rdm::rdms& g, int s) { Q o; int n = g.norbitals; for(int a = 0; a < n; ++a) for(int i = 0; i < n; ++i) o.push_back(I(g.get(i, a), s)); return o; }
Q uq(const cmz::ed::rdm::rdms& g, int s) {
  Q o; int n = g.norbitals; for(int b = 0; b < n; ++b) for(int j = 0; j < n; ++j) for(int a = 0; a < n; ++a) for(int i = 0; i < n; ++i) o.push_back(I(g.getPhys(i, j, a, b), s));
  return o;
}
struct Line { long i, a, j, b, v; };  // 1-based, value in quarters
std::string num(long v, vh::Rng& g) {
  std::ostringstream o; double x = v / 4.0;
  switch(g(0, 2)) { case 0: o << x; break; case 1: o.precision(12); o << std::scientific << x; break; default: o.precision(8); o << std::fixed << x; }
  return o.str();
}
void fci(vh::Rng& g, int n, bool real, int kind) {
  std::vector<Line> L;
  auto val = [&] { long v = g(-40, 40); return v; };
  for(int i = 1; i <= n; ++i) for(int a = 1; a <= (real ? i : n); ++a) if(g(0, 3)) { if(g(0, 1)) L.push_back({i, a, 0, 0, val()}); else L.push_back({a, i, 0, 0, val()}); }
  for(int i = 1; i <= n; ++i) for(int a = 1; a <= (real ? i : n); ++a) for(int j = 1; j <= n; ++j) for(int b = 1; b <= (real ? j : n); ++b)
    if(g(0, 2) && !(kind == 1 && i != a && j != b)) {
      Line l{i, a, j, b, val()}; if(real && g(0, 1)) std::swap(l.i, l.a); if(real && g(0, 1)) std::swap(l.j, l.b); L.push_back(l);
    }
  if(!real) {  // the one-body table is symmetric anyway
    std::vector<Line> M; for(auto& l : L) if(l.j || l.i <= l.a) M.push_back(l); L = M;
  }
  if(g(0, 3)) L.push_back({0, 0, 0, 0, val()});
  for(int i = 1; i <= n; ++i) if(g(0, 2) == 0) L.push_back({i, 0, 0, 0, val()});   // orbital energies, to be ignored
  for(size_t i = L.size(); i > 1; --i) std::swap(L[i - 1], L[g(0, i - 1)]);
  if(kind == 2) L.insert(L.begin() + g(0, L.size()), {0, 1, 0, 0, 4});
  if(kind == 3) L.insert(L.begin() + g(0, L.size()), {1, 1, 1, 0, 4});
  if(kind == 4) L.insert(L.begin() + g(0, L.size()), {1, 1, 0, 1, 4});
  std::string f = dir + "/fci.dat";
  { std::ofstream o(f); for(auto& l : L) o << "  " << l.i << " " << l.a << "   " << l.j << " " << l.b << "  " << num(l.v, g) << "\n"; }
  std::vector<Q> rec; for(auto& l : L) rec.push_back({l.i, l.a, l.j, l.b, l.v});
  Rec r("fci"); r("n", n)("real", real)("kind", kind)("lines", rec);
  bool js = false; intgrls::integrals x(n, real);
  auto st = tryq([&] { intgrls::integrals y(n, f, js, real); x = y; });
  r("out", st);
  if(st == "ok") r("t", tq(x, 4))("u", uq(x, 4))("core", I(x.get_core_energy(), 4))("js", js);
  else r("t", Q{})("u", Q{})("core", 0L)("js", false);
  // a second read into the same object replaces what it held
  if(st == "ok") {
    std::string f2 = dir + "/fci2.dat"; { std::ofstream o(f2); o << "1 1 0 0 2.5\n1 1 1 1 -0.75\n"; }
    tryq([&] { x.read_FCIdump(f2); x.copy_to_vectors(); });
    r("t2", tq(x, 4))("u2", uq(x, 4))("core2", I(x.get_core_energy(), 4));
  } else r("t2", Q{})("u2", Q{})("core2", 0L);
  (*out)(r);
}
VecD sym1(vh::Rng& g, int n) { VecD t(n * n); for(int i = 0; i < n; ++i) for(int a = 0; a <= i; ++a) t[i + n * a] = t[a + n * i] = g(-9, 9); return t; }
VecD tab2(vh::Rng& g, int n, bool real) {
  VecD u((size_t)n * n * n * n); auto ix = [&](int i, int a, int j, int b) { return i + n * (a + n * (j + n * b)); };
  for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) for(int j = 0; j < n; ++j) for(int b = 0; b < n; ++b) {
    int ii = real ? std::max(i, a) : i, aa = real ? std::min(i, a) : a, jj = real ? std::max(j, b) : j, bb = real ? std::min(j, b) : b;
    if(i == ii && a == aa && j == jj && b == bb) { double v = g(-9, 9); u[ix(i, a, j, b)] = v; if(real) u[ix(a, i, j, b)] = u[ix(i, a, b, j)] = u[ix(a, i, b, j)] = v; }
  }
  return u;
}
Q qi(const VecD& v, int s) { Q o; for(double x : v) o.push_back(I(x, s)); return o; }
void roundtrip(vh::Rng& g, int n, bool real) {
  auto t = sym1(g, n); auto u = tab2(g, n, real);
  for(auto& x : u) x += 0; 
  intgrls::integrals a(n, t, u, real); a.core_energy = g(-3, 3) / 4.0;
  std::string f = dir + "/rt.dat", f2 = dir + "/other.dat"; { std::ofstream o(f2); o << "untouched"; }
  auto st = tryq([&] { a.write_FCIdump(f); });
  intgrls::integrals b(n, real); bool js = false;
  auto st2 = tryq([&] { b = intgrls::integrals(n, f, js, real); });
  std::string keep; { std::ifstream i(f2); i >> keep; }
  Rec r("rt"); r("n", n)("real", real)("t", qi(t, 4))("u", qi(u, 4))("core", I(a.core_energy, 4))("out", st == "ok" && st2 == "ok" && keep == "untouched")
    ("t1", tq(a, 4))("u1", uq(a, 4))("t2", tq(b, 4))("u2", uq(b, 4))("core2", I(b.core_energy, 4));
  // new values, stored and written
  auto t3 = sym1(g, n); auto u3 = tab2(g, n, real);
  auto s3 = tryq([&] { b.updateInts(t3, u3); b.updateStoredInts(); b.write_FCIdump(f); intgrls::integrals c(n, f, bool(real)); b = c; });
  r("t3", qi(t3, 4))("u3", qi(u3, 4))("t4", tq(b, 4))("u4", uq(b, 4))("out3", s3);
  auto bad = tryq([&] { VecD w(n * n + 1); b.updateInts(w, u3); });
  auto bad2 = tryq([&] { VecD w(n * n); intgrls::integrals c(n, w, VecD(n * n * n * n + 1), real); });
  auto bad3 = tryq([&] { intgrls::integrals c(n, dir + "/none.dat", bool(real)); });
  r("bad", bad)("bad2", bad2)("bad3", bad3);
  (*out)(r);
}
void access(vh::Rng& g, int n) {
  auto t = sym1(g, n); auto u = tab2(g, n, false);
  intgrls::integrals a(n, t, u, false);
  cmz::ed::rdm::rdms d(n, t, u);
  std::vector<Q> two, four, up;
  for(int i = 0; i < 2 * n; ++i) for(int j = 0; j < 2 * n; ++j) two.push_back({i, j, I(a.get(i, j)), I(d.get(i, j)), a.same_spin(i, j) == a.indexer.same_spin(i, j) && a.same_spin(i, j) == d.indexer.same_spin(i, j) ? (long)a.same_spin(i, j) : 2L, (long)d.same_spin(i, j)});
  for(int k = 0; k < 60; ++k) { int i = g(0, 2 * n - 1), j = g(0, 2 * n - 1), p = g(0, 2 * n - 1), q = g(0, 2 * n - 1); four.push_back({i, j, p, q, I(a.getPhys(i, j, p, q)), I(a.getChem(i, p, j, q)), I(d.getPhys(i, j, p, q)), I(d.getChem(i, p, j, q))}); }
  Rec r("acc"); r("n", n)("t", qi(t, 1))("u", qi(u, 1))("two", two)("four", four);
  // one assignment changes one element
  for(int k = 0; k < 6; ++k) {
    int i = g(0, 2 * n - 1), j = g(0, 2 * n - 1), p = g(0, 2 * n - 1), q = g(0, 2 * n - 1);
    a = intgrls::integrals(n, t, u, false); d = cmz::ed::rdm::rdms(d);
    cmz::ed::rdm::rdms e(n, t, u);
    if(k % 2) { a.update(i, p, 77); e.update(i, p, 77); } else { a.update(i, j, p, q, 77); e.update(i, j, p, q, 77); }
    Q w = k % 2 ? Q{i, p} : Q{i, j, p, q};
    Rec s("upd"); s("n", n)("t", qi(t, 1))("u", qi(u, 1))("at", w)("t1", qi(a.t, 1))("u1", qi(a.u, 1))("t2", qi(e.rdm1, 1))("u2", qi(e.rdm2, 1)); (*out)(s);
  }
  (*out)(r);
}
void rot(vh::Rng& g, int n, bool unit) {
  auto t = sym1(g, n); for(auto& x : t) x = ((int)x) % 4; auto u = tab2(g, n, g(0, 1)); for(auto& x : u) x = ((int)x) % 4;
  for(int i = 0; i < n; ++i) for(int a = 0; a < i; ++a) t[i + n * a] += 1;  // not symmetric: index order matters
  eigMatD V(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) V(i, j) = unit ? (i == j) : g(-2, 2);
  std::vector<Q> v; for(int i = 0; i < n; ++i) { Q w; for(int j = 0; j < n; ++j) w.push_back((long)V(i, j)); v.push_back(w); }
  intgrls::integrals a(n, t, u, false); cmz::ed::rdm::rdms d(n, t, u);
  int ni = g(0, n), na = g(0, n - ni); a.UpdateActiveSpace(ni, na, n - ni - na);
  auto t1 = a.rotate1AS(V, t); auto u1 = a.rotate2AS(V, u);
  a.rotate_orbitals(V); d.rotate_orbitals(V);
  Rec r("rot"); r("n", n)("t", qi(t, 1))("u", qi(u, 1))("V", v)("occ", ni + na)("t1", qi(t1, 1))("u1", qi(u1, 1))("t2", qi(a.t, 1))("u2", qi(a.u, 1))("t3", qi(d.rdm1, 1))("u3", qi(d.rdm2, 1)); (*out)(r);
}
void space(int n, int ni, int na, int ns) {
  intgrls::integrals a(n);
  auto st = tryq([&] { a.UpdateActiveSpace(ni, na, ns); });
  Rec r("as"); r("n", n)("c", Q{ni, na, ns})("out", st)("i", a.iorbs)("a", a.aorbs)("s", a.sorbs); (*out)(r);
}
void embed(vh::Rng& g, int n, int ni, int na, int up, int dn) {
  auto S = BuildFullHilbertSpace(na, up, dn); VectorXd v(S.size()); Q c; long nrm = 0;
  for(size_t k = 0; k < S.size(); ++k) { long x = g(-2, 2); v(k) = x; c.push_back(x); nrm += x * x; }
  if(!nrm) { v(0) = 1; c[0] = 1; nrm = 1; }
  v /= std::sqrt((double)nrm);
  cmz::ed::rdm::rdms as(na, v, S);
  VecD g1 = as.rdm1, g2 = as.rdm2; for(auto& x : g2) x *= 2;
  intgrls::integrals a(n); a.UpdateActiveSpace(ni, na, n - ni - na);
  cmz::ed::rdm::rdms full(n); for(auto& x : full.rdm1) x = 5; for(auto& x : full.rdm2) x = 5;
  auto st = tryq([&] { full.UpdateFromAS(a, g1, g2); });
  auto back = full.GetASrdms(a);
  VecD w(na * na + 1);
  auto bad = tryq([&] { cmz::ed::rdm::rdms f(n); f.UpdateFromAS(a, w, g2); });
  std::vector<std::vector<int>> d; for(auto& x : S) { std::vector<int> o; for(int i = 0; i < 2 * na; ++i) if(x.GetState() >> i & 1) o.push_back(i); d.push_back(o); }
  Rec r("embed"); r("n", n)("ni", ni)("na", na)("d", d)("c", c)("nrm", nrm)("out", st)("bad", bad)("t", tq(full, (int)nrm))("u", uq(full, (int)nrm))("nb", (long)back.norbitals)("tb", tq(back, (int)nrm))("ub", uq(back, (int)nrm))("t0", qi(g1, (int)nrm))("u0", qi(g2, (int)nrm)); (*out)(r);
}
void rdmfile(vh::Rng& g, int n, int m) {
  std::string f = dir + "/rdm.bin"; auto t = sym1(g, n); for(int i = 0; i < n; ++i) for(int a = 0; a < i; ++a) t[i + n * a] += 1; auto u = tab2(g, n, false);
  { std::ofstream o(f, std::ios::binary); int k = n; o.write((char*)&k, sizeof k); o.write((char*)t.data(), t.size() * 8); o.write((char*)u.data(), u.size() * 8); }
  // whatever the stack held before must not matter
  auto dirty = [](int v) { volatile unsigned char b[4096]; for(auto& x : b) x = v; return b[17]; };
  for(int v : {0, 255, 1}) {
    volatile int sink = dirty(v); (void)sink;
    cmz::ed::rdm::rdms d(1);
    auto st = tryq([&] { volatile int s2 = dirty(v); (void)s2; cmz::ed::rdm::rdms e(m, f); d.norbitals = m; d.indexer = e.indexer; d.rdm1 = e.rdm1; d.rdm2 = e.rdm2; });
    Rec r("rdmf"); r("n", n)("m", m)("t", qi(t, 1))("u", qi(u, 1))("out", st)("t1", st == "ok" ? tq(d, 1) : Q{})("u1", st == "ok" ? uq(d, 1) : Q{}); (*out)(r);
  }
}
void input(vh::Rng& g, int kind) {
  // kind 1: a key twice
  std::vector<std::string> keys = {"norbs", "nups", "ndos", "print", "file", "Lantol", "list", "reals", "flags", "words"};
  std::vector<std::vector<std::string>> ent; std::string f = dir + "/in.dat";
  auto digits = [&](int k) { std::vector<std::string> o; for(int i = 0; i < k; ++i) o.push_back(std::to_string(g(-50, 50))); return o; };
  std::ofstream o(f); bool titled = false;
  std::vector<Q> nums; std::vector<std::vector<std::string>> strs;
  for(auto& k : keys) {
    if(g(0, 3) == 0) { const char* c[] = {"# ", "! ", "% ", "#"}; o << c[g(0, 3)] << k << " 12\n"; if(g(0, 1)) continue; }
    if(kind == 2 && g(0, 2) == 0) { const char* c[] = {"", "   ", "\t"}; o << c[g(0, 2)] << "\n"; }
    if(kind == 2 && k == "flags") titled = true, o << "title" << (g(0, 1) ? "\n" : "  \n");
    std::vector<std::string> w;
    if(k == "print") w = {g(0, 1) ? "T" : "F"}; else if(k == "file") w = {"some/file.dat"}; else if(k == "flags") for(int i = g(1, 4); i > 0; --i) w.push_back(g(0, 1) ? "T" : "F");
    else if(k == "words") { w = {"ab", "c", "def"}; } else if(k == "list" || k == "reals") w = digits(g(1, 5)); else w = digits(1);
    o << (g(0, 1) ? "" : "  ") << k << (g(0, 1) ? " " : "\t  ");
    for(size_t i = 0; i < w.size(); ++i) o << (i ? (g(0, 1) ? " " : "  ") : "") << w[i];
    o << "\n"; w.insert(w.begin(), k); ent.push_back(w);
  }
  if(kind == 1 && ent.size()) { o << ent[g(0, ent.size() - 1)][0] << " 3\n"; }
  o.close();
  Input_t in; auto st = tryq([&] { ReadInput(f, in); });
  Rec r("inp"); r("kind", kind)("titled", titled)("ent", ent)("out", st); std::vector<std::vector<std::string>> got;
  if(st == "ok") for(auto& k : keys) {
    std::vector<std::string> w{k}; bool here = true;
    auto s = tryq([&] {
      if(k == "print") w.push_back(getParam<bool>(in, k) ? "T" : "F");
      else if(k == "file") w.push_back(getParam<std::string>(in, k));
      else if(k == "flags") { for(bool b : getParam<std::vector<bool>>(in, k)) w.push_back(b ? "T" : "F"); }
      else if(k == "words") { for(auto& x : getParam<std::vector<std::string>>(in, k)) w.push_back(x); }
      else if(k == "list") { for(int x : getParam<VecInt>(in, k)) w.push_back(std::to_string(x)); }
      else if(k == "reals") { for(double x : getParam<VecD>(in, k)) w.push_back(std::to_string((long)x)); }
      else if(k == "Lantol") w.push_back(std::to_string((long)getParam<double>(in, k)));
      else w.push_back(std::to_string(getParam<int>(in, k)));
    });
    if(s == "ok") got.push_back(w);
  }
  r("got", got)("title", in.count("title") ? "[" + in["title"] + "]" : std::string("none"));
  // changing parameters: add only new ones, set only existing ones
  Input_t p; auto a1 = tryq([&] { addParam(p, "x", "1"); }), a2 = tryq([&] { addParam(p, "x", "2"); }), a3 = tryq([&] { setParam(p, "y", "2"); }), a4 = tryq([&] { setParam(p, "x", "7"); });
  auto b1 = tryq([&] { getParam<bool>(p, "x"); });
  int x = 0; tryq([&] { x = getParam<int>(p, "x"); });
  r("par", std::vector<std::string>{a1, a2, a3, a4, b1})("x", x);
  (*out)(r);
}
// what comes out with several threads is what one thread makes of it
template <class Fn> void threadsrec(const char* what, int rep, Fn fn) {
  omp_set_num_threads(1); std::vector<double> one = fn(); std::vector<long> d;
  for(int r = 0; r < rep; ++r) for(int t : {1, 2, 8}) {
    omp_set_num_threads(t); std::vector<double> x = fn(); double m = x.size() == one.size() ? 0 : 1e3;
    for(size_t i = 0; i < x.size() && i < one.size(); ++i) { double e = std::abs(x[i] - one[i]); if(!(e <= m)) m = e == e ? e : 1e3; }
    d.push_back((long)std::llround(std::min(m, 1e3) * 1e6)); }
  omp_set_num_threads(1); Rec r("threads"); r("what", what)("size", (long)one.size())("d", d); (*out)(r);
}
void innprod(vh::Rng& g, int n, bool par) {   // products of long vectors
  VecD a(n), b(n); VecCompD c(n), d(n); Q aq, bq, ci, di;
  for(int i = 0; i < n; ++i) { a[i] = g(-5, 5); b[i] = g(-5, 5); int x = g(-5, 5), y = g(-5, 5); c[i] = std::complex<double>(a[i], x); d[i] = std::complex<double>(b[i], y); aq.push_back(a[i]); bq.push_back(b[i]); ci.push_back(x); di.push_back(y); }
  VectorXcd ce(n), de(n); for(int i = 0; i < n; ++i) { ce(i) = c[i]; de(i) = d[i]; }
  auto z = MyInnProd(c, d), y = MyInnProd(c, b), w = MyInnProd(ce, de);
  if(!par) { Rec r("inn"); r("a", aq)("b", bq)("ai", ci)("bi", di)("z", Q{I(MyInnProd(a, b)), I(z.real()), I(z.imag()), I(y.real()), I(y.imag()), I(w.real()), I(w.imag())}); (*out)(r); return; }
  threadsrec("inn", 5, [&] { auto z = MyInnProd(c, d), y = MyInnProd(c, b); VecD s(n); MyAdd(2.0, a, -3.0, b, s); s.insert(s.end(), {MyInnProd(a, b), z.real(), z.imag(), y.real(), y.imag()}); return s; });
}
void matfile(vh::Rng& g, int n) {
  std::string f = dir + "/mat.dat"; std::vector<Q> e; std::set<std::pair<int, int>> s;
  for(int k = g(0, n * n); k > 0; --k) { int i = g(0, n - 1), j = g(0, i); if(g(0, 1)) std::swap(i, j); if(s.count({i, j}) || s.count({j, i})) continue; s.insert({i, j}); e.push_back({i, j, g(-40, 40)}); }
  { std::ofstream o(f); o << n << " " << n << " " << e.size() << "\n"; for(auto& x : e) o << x[0] << " " << x[1] << " " << num(x[2], g) << "\n"; }
  SpMatD m(n, n), w(n + 1, n + 1), w2(n, n + 1), w3(n + 2, n); bool ok = false, ok2 = true, ok3 = true; long sz = -1;
  tryq([&] { sz = ReadMatSize(f); ok = ReadMat(f, m); ok3 = ReadMat(dir + "/none", m); });
  auto* b = std::cerr.rdbuf(nullptr); tryq([&] { ok2 = ReadMat(f, w); ok2 = ReadMat(f, w2) || ok2; ok2 = ReadMat(f, w3) || ok2; ok2 = ReadMatSize(dir + "/none") != 0 || ok2; }); std::cerr.rdbuf(b);
  std::vector<Q> d; for(int i = 0; i < n; ++i) { Q q; for(int j = 0; j < n; ++j) q.push_back(I(m.coeff(i, j), 4)); d.push_back(q); }
  std::string fv = dir + "/vec.dat"; Q v; int len = g(1, 7); { std::ofstream o(fv); o << len << "\n"; for(int i = 0; i < len; ++i) { v.push_back(g(-40, 40)); o << num(v.back(), g) << (g(0, 1) ? "\n" : " "); } }
  VecD x; VectorXcd y; bool okv = false; tryq([&] { okv = ReadVec(fv, x) && ReadVec(fv, y); });
  Q x1, x2; for(double z : x) x1.push_back(I(z, 4)); for(int i = 0; i < y.size(); ++i) x2.push_back(y(i).imag() == 0 ? I(y(i).real(), 4) : BAD);
  // <vL| O |vR>
  eigMatD A(n, n); std::vector<Q> a; VectorXd l(n), rr(n); Q lq, rq; VecD l2(n), r2(n); VectorXcd lc(n), rc(n); SpMatD As(n, n);
  for(int i = 0; i < n; ++i) { Q q; for(int j = 0; j < n; ++j) { A(i, j) = g(-5, 5); As.insert(i, j) = A(i, j); q.push_back((long)A(i, j)); } a.push_back(q); l(i) = l2[i] = g(-3, 3); rr(i) = r2[i] = g(-3, 3); lc(i) = std::complex<double>(l(i), i); rc(i) = rr(i); lq.push_back((long)l(i)); rq.push_back((long)rr(i)); }
  auto ce = GetMatrixEl(lc, As, rc);
  Q el = {I(GetMatrixEl(l, A, rr)), I(GetMatrixEl(l2, A, r2)), I(ce.real()), I(ce.imag()), I(MyInnProd(l, rr)), I(MyInnProd(l2, r2))};
  VecD sum(n); MyAdd(2.0, l2, -3.0, r2, sum); VectorXd sum2(n); MyAdd(2.0, l, -3.0, rr, sum2); Q s1, s2; for(int i = 0; i < n; ++i) { s1.push_back(I(sum[i])); s2.push_back(I(sum2(i))); }
  Rec r("mat"); r("n", n)("e", e)("size", sz)("ok", ok && !ok2 && !ok3)("m", d)("v", v)("okv", okv)("x1", x1)("x2", x2)("A", a)("l", lq)("r", rq)("el", el)("s1", s1)("s2", s2);
  // nilpotent: the exponential is a finite integer sum
  eigMatD N = eigMatD::Zero(n, n); std::vector<Q> nq; for(int i = 0; i < n; ++i) { Q q; for(int j = 0; j < n; ++j) { if(j > i) N(i, j) = 6 * g(-2, 2); q.push_back((long)N(i, j)); } nq.push_back(q); }
  eigMatD E = GetMatExp(N); std::vector<Q> eq; for(int i = 0; i < n; ++i) { Q q; for(int j = 0; j < n; ++j) q.push_back(I(E(i, j), 1, 1e-6)); eq.push_back(q); }
  r("N", nq)("E", eq); (*out)(r);
}
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::string tmpl = (std::filesystem::temp_directory_path() / "legtabXXXXXX").string(); dir = mkdtemp(tmpl.data());
  { Out o(""); out = &o; vh::Rng g(31); int k = thorough() ? 4 : 1;
    std::string mode = argc > 1 ? argv[1] : "all";
    if(mode == "file" || mode == "all") {
      for(int n = 1; n <= 3; ++n) for(bool real : {true, false}) for(int kind = 0; kind <= 4; ++kind) for(int i = 0; i < k * (kind < 2 ? 4 : 1); ++i) fci(g, n, real, kind);
      fci(g, 4, true, 0); fci(g, 4, true, 1);
      for(int n = 1; n <= 3; ++n) for(bool real : {true, false}) for(int i = 0; i < 3 * k; ++i) roundtrip(g, n, real);
      for(int i = 0; i < 12 * k; ++i) input(g, i % 3);
      for(int i = 0; i < 10 * k; ++i) matfile(g, 1 + i % 4);
      for(int n = 0; n < 12; ++n) innprod(g, n, false);
      for(int n : {100, 2000, 9000}) innprod(g, n, true);
      for(int n = 1; n <= 3; ++n) for(int m = 1; m <= 3; ++m) if(n == m || g(0, 2) == 0) rdmfile(g, n, m);
    }
    if(mode == "tab" || mode == "all") {
      for(int n = 1; n <= 3; ++n) for(int i = 0; i < 2 * k; ++i) access(g, n);
      for(int n = 1; n <= 3; ++n) for(int i = 0; i < 4 * k; ++i) rot(g, n, i == 0);
      for(int n = 1; n <= 5; ++n) for(int i = 0; i <= n + 1; ++i) for(int a = 0; a <= n + 1; ++a) for(int s : {n - i - a, n - i - a + 1}) if(s >= 0) space(n, i, a, s);
      for(int n = 1; n <= 4; ++n) for(int ni = 0; ni < n; ++ni) for(int na = 1; na + ni <= n && na <= 3; ++na) for(int q = 0; q < (na == 1 ? 1 : 2); ++q) embed(g, n, ni, na, g(0, na), g(0, na));
    }
  }
  std::filesystem::remove_all(dir);
  MPI_Finalize();
}
