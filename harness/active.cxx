// Active-space reduction and Fock quantities (P20).
#include "common.hpp"
#include "integrals.hpp"
#include <limits>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_energies.hpp>
using namespace vh;
using namespace macis;
static Out out;
static Rng rnd(20);
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static bool padok;
// a padded column-major table of dimension n and rank r, everything else NaN / 777
struct Tab {
  int n, ld, r; std::vector<double> d;
  Tab(int nn, int rr, bool in) : n(nn), r(rr) {
    ld = std::max(1, n) + (rnd.coin() ? rnd(1, 2) : 0);
    size_t s = std::max(n, 1); for(int i = 1; i < r; ++i) s *= ld;
    d.assign(s, in ? NaN : 777.);
  }
  double& at(int a, int b) { return d[a + b * ld]; }
  double& at(int a, int b, int c, int e) { return d[a + (size_t)ld * (b + (size_t)ld * (c + (size_t)ld * e))]; }
  double* p() { return d.data(); }
  // entries in range; the padding must be as it was
  std::vector<double> get() {
    std::vector<double> o;
    size_t w = d.size();
    for(size_t q = 0; q < w; ++q) {
      size_t t = q; bool in = true;
      for(int k = 0; k < r; ++k) { int i = k + 1 < r ? t % ld : t; t /= ld; in = in && i < n; }
      if(in) o.push_back(d[q]); else padok = padok && d[q] == 777.;
    }
    return o;
  }
};
// rectangular output rows x cols
struct Rect {
  int m, n, ld; std::vector<double> d;
  Rect(int mm, int nn, double x) : m(mm), n(nn) { ld = std::max(1, m) + (rnd.coin() ? 1 : 0); d.assign((size_t)ld * std::max(n, 1), x); }
  std::vector<double> get() { std::vector<double> o; for(int j = 0; j < n; ++j) for(int i = 0; i < ld; ++i) { if(i < m) o.push_back(d[i + j * ld]); else padok = padok && d[i + j * ld] == 777.; } return o; }
};
int main() {
  out.open("");
  const int NR = thorough() ? 3000 : 500;
  for(int t = 0; t < NR; ++t) {
    int no = rnd(1, t % 16 == 0 ? 6 : 4), ni = rnd(0, no), na = rnd(0, std::min(no - ni, 4)), nv = no - ni - na;
    // powers of two: everything is linear in the integrals; two of the results also in the densities
    const double un = std::ldexp(1., std::vector<int>{0, -36, 0, 20}[t % 4]), ud = std::ldexp(1., t % 3 ? 0 : -30);
    auto W = [un](std::vector<double> v) { for(auto& z : v) z /= un; return v; };
    int k = rnd(0, 30), k1 = rnd(0, 30), k2 = rnd(0, 30);
    NumOrbital NO(no); NumInactive NI(ni); NumActive NA(na);
    Tab T(no, 2, true), V(no, 4, true), A1(na, 2, true), A2(na, 4, true);
    for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) T.at(p, q) = un * fT(k, p, q);
    for(int s = 0; s < no; ++s) for(int r = 0; r < no; ++r) for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) V.at(p, q, r, s) = un * fV(k, p, q, r, s);
    for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A1.at(p, q) = fT(k1, p, q);
    for(int s = 0; s < na; ++s) for(int r = 0; r < na; ++r) for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A2.at(p, q, r, s) = fV(k2, p, q, r, s);
    padok = true;
    Tab Fi(no, 2, false), Fi2(no, 2, false), TA(na, 2, false), VA(na, 4, false), Fa(no, 2, false), F(no, 2, false), F1(no, 2, false), F2(no, 2, false), S1(na, 2, false), S2(na, 4, false);
    Rect Q(na, no, 777.);
    inactive_fock_matrix(NO, NI, T.p(), T.ld, V.p(), V.ld, Fi.p(), Fi.ld);
    double Ei = inactive_energy(NI, T.p(), T.ld, Fi.p(), Fi.ld);
    active_hamiltonian(NO, NA, NI, T.p(), T.ld, V.p(), V.ld, Fi2.p(), Fi2.ld, TA.p(), TA.ld, VA.p(), VA.ld);
    active_submatrix_1body(NA, NI, T.p(), T.ld, S1.p(), S1.ld);
    active_subtensor_2body(NA, NI, V.p(), V.ld, S2.p(), S2.ld);
    active_fock_matrix(NO, NI, NA, V.p(), V.ld, A1.p(), A1.ld, Fa.p(), Fa.ld);
    aux_q_matrix(NA, NO, NI, V.p(), V.ld, A2.p(), A2.ld, Q.d.data(), Q.ld);
    generalized_fock_matrix(NO, NI, NA, Fi.p(), Fi.ld, Fa.p(), Fa.ld, A1.p(), A1.ld, Q.d.data(), Q.ld, F.p(), F.ld);
    generalized_fock_matrix_comp_mat1(NO, NI, NA, Fi.p(), Fi.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, F1.p(), F1.ld);
    generalized_fock_matrix_comp_mat2(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, F2.p(), F2.ld);
    // once more with the densities in their unit
    auto B1 = A1, B2 = A2; for(auto* b : {&B1, &B2}) for(auto& z : b->d) z *= ud;
    Tab Fs(no, 2, false); Rect Qs(na, no, 777.);
    active_fock_matrix(NO, NI, NA, V.p(), V.ld, B1.p(), B1.ld, Fs.p(), Fs.ld);
    aux_q_matrix(NA, NO, NI, V.p(), V.ld, B2.p(), B2.ld, Qs.d.data(), Qs.ld);
    auto fs = Fs.get(), qs = Qs.get(); for(auto* b : {&fs, &qs}) for(auto& z : *b) z /= ud;
    double Eg = energy_from_generalized_fock(NI, NA, T.p(), T.ld, A1.p(), A1.ld, F.p(), F.ld);
    std::vector<double> eps(no + 1, 777.);
    canonical_orbital_energies(NO, NI, T.p(), T.ld, V.p(), V.ld, eps.data());
    padok = padok && eps[no] == 777.; eps.pop_back();
    Rec r("act");
    r("no", no)("ni", ni)("na", na)("nv", nv)("k", k)("k1", k1)("k2", k2)("fi", I(W(Fi.get())))("fi2", I(W(Fi2.get())))("ei", I(Ei / un))("ta", I(W(TA.get())))("va", I(W(VA.get())))
     ("s1", I(W(S1.get())))("s2", I(W(S2.get())))("fa2", I(W(fs), 2))("q", I(W(qs)))("f", I(W(F.get())))("f1", I(W(F1.get())))("f2", I(W(F2.get())))("eg2", I(Eg / un, 2))("eps", I(W(eps)))("pad", padok);
    out(r);
  }
}
