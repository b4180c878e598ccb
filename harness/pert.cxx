// P29: orbital energies, second-order amplitudes, density and natural orbitals.
#include "common.hpp"
#include "integrals.hpp"
#include <macis/util/moller_plesset.hpp>
#include <macis/util/orbital_energies.hpp>
#include <sstream>
#include <iostream>
using namespace vh;
using namespace macis;
typedef std::vector<double> DV;
static Out out;
static DV padded2(const DV& a, int n, int ld) { DV r((size_t)ld * ld, 1e5); for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) r[i + j * ld] = a[i + j * n]; return r; }
static DV padded4(const DV& a, int n, int ld) {
  DV r((size_t)ld * ld * ld * ld, 1e5);
  for(int s = 0; s < n; ++s) for(int q = 0; q < n; ++q) for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i)
    r[i + ld * (j + ld * (q + (size_t)ld * s))] = a[i + n * (j + n * (q + n * s))];
  return r;
}
static std::vector<long> ints(const DV& a, double sc = 1) { std::vector<long> v; for(auto x : a) v.push_back(I(x * sc, 1, 1e-5)); return v; }
static std::vector<std::vector<long>> rows(const DV& a, int n, int ld, double sc = 1) { std::vector<std::vector<long>> r(n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) r[i].push_back(I(a[i + j * ld] * sc, 1, 1e-5)); return r; }
int main() {
  out.open("");
  Rng R(29);
  int NT = thorough() ? 3000 : 400;
  for(int t = 0; t < NT; ++t) {
    int n = R(1, 4) , o = R(0, n), v = n - o, kind = R(0, 3);
    if(R(0, 4) == 0 && v > 1) --v;                     // an orbital left out
    if(thorough() && R(0, 20) == 0) { n = 5; o = R(1, 3); v = n - o; }
    if(kind < 2 && R(0, 11) == 0) { n = R(5, 9); o = R(0, n); v = n - o; }   // larger spaces
    double U = R.coin() ? 1. : std::ldexp(1., R(-30, 16)), UE = kind == 1 && R.coin() ? std::ldexp(1., R(-30, 16)) : U;
    auto times = [](DV a, double u) { for(auto& x : a) x *= u; return a; };
    int amp = kind < 2 || n < 4 ? R(1, 3) : 1;
    DV T(n * n), V((size_t)n * n * n * n);
    for(int j = 0; j < n; ++j) for(int i = 0; i <= j; ++i) T[i + j * n] = T[j + i * n] = R(-9, 9);
    for(int s = 0; s < n; ++s) for(int r = 0; r <= s; ++r) for(int q = 0; q <= s; ++q) for(int p = 0; p <= q; ++p) {
      double x = R(-amp, amp);
      auto put = [&](int a, int b, int c, int d) { V[a + n * (b + n * (c + n * d))] = x; };
      put(p, q, r, s); put(q, p, r, s); put(p, q, s, r); put(q, p, s, r); put(r, s, p, q); put(s, r, p, q); put(r, s, q, p); put(s, r, q, p);
    }
    if(kind < 2 && R.coin()) for(auto& x : V) x = R(-9, 9);   // no symmetry needed for the sums themselves
    int ldt = n + R(0, 2), ldv = n + R(0, 2), ldd = n + R(0, 2);
    auto full = [&] { std::vector<long> r; for(auto x : V) r.push_back((long)x); return r; };
    DV Tp, Vp;
    if(kind == 0) {
      Tp = times(padded2(T, n, ldt), U); Vp = times(padded4(V, n, ldv), U); DV T0 = Tp, V0 = Vp, e(n + 1, 777.);
      canonical_orbital_energies(NumOrbital(n), NumInactive(o), Tp.data(), ldt, Vp.data(), ldv, e.data());
      bool pad = e[n] == 777.; e.resize(n); e = times(e, 1 / U);
      out(Rec("energies")("n", n)("o", o)("T", rows(T, n, n))("V", full())("eps", ints(e))("pad", pad)("same", Tp == T0 && Vp == V0));
    } else if(kind == 1) {
      Vp = times(padded4(V, n, ldv), U); DV V0 = Vp, e(n);
      for(int i = 0; i < n; ++i) e[i] = i < o ? -R(1, 20) : R(0, 20);
      if(R(0, 3) == 0) for(auto& x : e) x -= 30;              // only differences matter
      const DV eu = e; e = times(e, UE);
      DV E0 = e, t2((size_t)o * o * v * v + 2, 777.);
      mp2_t2(NumCanonicalOccupied(o), NumCanonicalVirtual(v), Vp.data(), ldv, e.data(), t2.data());
      bool pad = t2[o*o*v*v] == 777. && t2[o*o*v*v+1] == 777.; t2.resize((size_t)o * o * v * v);
      std::vector<long> ts; for(auto x : t2) ts.push_back(F(x * UE / U, 1e6));
      out(Rec("amps")("n", n)("o", o)("v", v)("V", full())("eps", ints(eu))("t", ts)("pad", pad)("same", Vp == V0 && e == E0));
    } else {
      // choose the diagonal of T to give the energies wanted; the size of the
      // amplitudes stays moderate
      for(int p = 0; p < n; ++p) {
        double s = 0; for(int i = 0; i < o; ++i) s += 2 * V[p + n * (p + n * (i + n * i))] - V[p + n * (i + n * (i + n * p))];
        T[p + p * n] = (p < o ? -R(0, 1) : R(1, 2)) - s;
      }
      Tp = times(padded2(T, n, ldt), U); Vp = times(padded4(V, n, ldv), U); DV T0 = Tp, V0 = Vp;
      DV P((size_t)ldd * ldd, 777.), on(n + 1, 777.), C((size_t)ldd * ldd, 777.);
      double e2 = 0; bool printed = false;
      { std::ostringstream os; auto* ob = std::cout.rdbuf(os.rdbuf());
        mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(o), NumCanonicalVirtual(v), Tp.data(), ldt, Vp.data(), ldv, P.data(), ldd);
        std::string tx = os.str(); auto q = tx.find("EMP2 = "); printed = q != tx.npos; if(printed) e2 = std::stod(tx.substr(q + 7));
        mp2_natural_orbitals(NumOrbital(n), NumCanonicalOccupied(o), NumCanonicalVirtual(v), Tp.data(), ldt, Vp.data(), ldv, on.data(), C.data(), ldd);
        std::cout.rdbuf(ob); }
      bool pad = on[n] == 777.;
      for(int j = 0; j < ldd; ++j) for(int i = 0; i < ldd; ++i) if(i >= n || j >= n) pad = pad && P[i + j * ldd] == 777. && C[i + j * ldd] == 777.;
      std::vector<long> on4; std::vector<std::vector<long>> c4(n);
      for(int i = 0; i < n; ++i) { on4.push_back(F(on[i], 1e4)); for(int p = 0; p < n; ++p) c4[i].push_back(F(C[p + i * ldd], 1e4)); }
      out(Rec("density")("n", n)("o", o)("v", v)("T", rows(T, n, n))("V", full())("P", rows(P, n, ldd, 3600))("printed", printed)("e2", F(e2 / U, 1e4))("on", on4)("c", c4)("pad", pad)("same", Tp == T0 && Vp == V0));
    }
  }
}
