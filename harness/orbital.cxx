// Orbital-rotation parameters, gradients, Hessians and rotations (P21).
#include "common.hpp"
#include "integrals.hpp"
#include <limits>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_steps.hpp>
using namespace vh;
using namespace macis;
static Out out;
static Rng rnd(21);
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static bool padok;
struct Tab {
  int n, ld, r; double fill; std::vector<double> d;
  Tab(int nn, int rr, double f) : n(nn), r(rr), fill(f) {
    ld = std::max(1, n) + (rnd.coin() ? rnd(1, 2) : 0);
    size_t s = std::max(n, 1); for(int i = 1; i < r; ++i) s *= ld;
    d.assign(s, f);
  }
  double& at(int a, int b) { return d[a + b * ld]; }
  double& at(int a, int b, int c, int e) { return d[a + (size_t)ld * (b + (size_t)ld * (c + (size_t)ld * e))]; }
  double* p() { return d.data(); }
  std::vector<double> get() {
    std::vector<double> o;
    for(size_t q = 0; q < d.size(); ++q) {
      size_t t = q; bool in = true;
      for(int k = 0; k < r; ++k) { int i = k + 1 < r ? t % ld : t; t /= ld; in = in && i < n; }
      if(in) o.push_back(d[q]); else padok = padok && (d[q] == fill || (fill != fill && d[q] != d[q]));
    }
    return o;
  }
};
static int fM(int k, int p, int q) { return ((p * 7 + q * 4 + p * q * 3 + k) % 19) - 9; }
static void zero(Tab& t) { for(int q = 0; q < t.n; ++q) for(int p = 0; p < t.n; ++p) t.at(p, q) = 0; }

static void packing() {
  int no = rnd(0, 7), ni = rnd(0, no), na = rnd(0, no - ni), nv = no - ni - na, np = nv * ni + nv * na + na * ni, k = rnd(0, 18);
  NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv); NumOrbital NO(no);
  std::vector<double> x(np + 1, 777.), back(np + 1, 777.), y(np + 1, 777.), g(np + 1, 777.);
  for(int i = 0; i < np; ++i) x[i] = rnd(-50, 50);
  padok = true;
  Tab K(no, 2, 777.), F(no, 2, 777.), OG(no, 2, 777.);
  zero(K); zero(OG);
  linear_orb_rot_to_matrix(NI, NA, NV, x.data(), K.p(), K.ld);
  matrix_to_linear_orb_rot(NI, NA, NV, K.p(), K.ld, back.data());
  for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) F.at(p, q) = fM(k, p, q);
  matrix_to_linear_orb_rot(NI, NA, NV, F.p(), F.ld, y.data());
  fock_to_linear_orb_grad(NI, NA, NV, F.p(), F.ld, g.data());
  fock_to_gradient(NO, NI, NA, NV, F.p(), F.ld, OG.p(), OG.ld);
  // pieces addressed one by one
  std::vector<double> pvi(nv * ni), pva(nv * na), pai(na * ni), parts;
  fock_to_linear_orb_grad(NI, NA, NV, F.p(), F.ld, pvi.data(), pva.data(), pai.data());
  for(auto* v : {&pvi, &pva, &pai}) for(double z : *v) parts.push_back(z);
  for(auto* v : {&back, &y, &g}) { padok = padok && v->back() == 777.; v->pop_back(); }
  x.pop_back();
  Rec r("pack");
  r("ni", ni)("na", na)("nv", nv)("k", k)("x", I(x))("K", I(K.get()))("back", I(back))("y", I(y))("g", I(g))("parts", I(parts))("og", I(OG.get()))("pad", padok);
  out(r);
}
static void derivatives(int nmax, bool hess) {
  int no = rnd(1, nmax), ni = rnd(0, no), na = rnd(0, no - ni), nv = no - ni - na, np = nv * ni + nv * na + na * ni;
  // a power of two the integrals are scaled by; everything else here is linear in them
  static int calls = 0; static const int ex[] = {0, -22, 0, 10}; const double un = std::ldexp(1., ex[calls++ % 4]);
  auto W = [un](std::vector<double> v) { for(auto& z : v) z /= un; return v; };
  int k = rnd(0, 30), k1 = rnd(0, 30), k2 = rnd(0, 30), kv = rnd(0, 30);
  NumOrbital NO(no); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
  Tab T(no, 2, NaN), V(no, 4, NaN), A1(na, 2, NaN), A2(na, 4, NaN), Fi(no, 2, 777.), Fa(no, 2, 777.), F(no, 2, 777.);
  for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) T.at(p, q) = un * fT(k, p, q);
  for(int s = 0; s < no; ++s) for(int r = 0; r < no; ++r) for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) V.at(p, q, r, s) = un * fV(kv, p, q, r, s);
  for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A1.at(p, q) = fT(k1, p, q);
  for(int s = 0; s < na; ++s) for(int r = 0; r < na; ++r) for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A2.at(p, q, r, s) = fV(k2, p, q, r, s);
  padok = true;
  inactive_fock_matrix(NO, NI, T.p(), T.ld, V.p(), V.ld, Fi.p(), Fi.ld);
  active_fock_matrix(NO, NI, NA, V.p(), V.ld, A1.p(), A1.ld, Fa.p(), Fa.ld);
  generalized_fock_matrix_comp_mat2(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, F.p(), F.ld);
  std::vector<double> g(np), x(np), hk(np + 1, 777.), dh(np + 1, 777.), dh2(np + 1, 777.), st(np + 1, 777.), sd;
  fock_to_linear_orb_grad(NI, NA, NV, F.p(), F.ld, g.data());
  for(auto& z : x) z = rnd(-3, 3);
  orb_orb_hessian_contract(NO, NI, NA, NV, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, g.data(), x.data(), hk.data());
  approx_diag_hessian(NI, NA, NV, Fi.p(), Fi.ld, Fa.p(), Fa.ld, A1.p(), A1.ld, F.p(), F.ld, dh.data());
  approx_diag_hessian(NO, NI, NA, NV, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, dh2.data());
  precond_cg_orbital_step(NO, NI, NA, NV, Fi.p(), Fi.ld, Fa.p(), Fa.ld, F.p(), F.ld, A1.p(), A1.ld, g.data(), st.data());
  for(auto* v : {&hk, &dh, &dh2, &st}) { padok = padok && v->back() == 777.; v->pop_back(); }
  for(int i = 0; i < np; ++i) sd.push_back(dh[i] == 0 ? -g[i] : st[i] * dh[i]);   // a zero diagonal has no step
  // energy of rotated integrals for an integer matrix
  Tab U(no, 2, NaN), Tt(no, 2, 777.), Vt(no, 4, 777.), Fr(no, 2, 777.), Fr2(no, 2, 777.), Tt2(no, 2, 777.), Vt2(no, 4, 777.);
  std::vector<double> u; for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) u.push_back(U.at(p, q) = rnd(-1, 1));
  double er = orbital_rotated_energy(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, U.p(), U.ld);
  double er2 = orbital_rotated_energy(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, U.p(), U.ld, Tt2.p(), Tt2.ld, Vt2.p(), Vt2.ld, Fr2.p(), Fr2.ld);
  orbital_rotated_generalized_fock(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, U.p(), U.ld, Tt.p(), Tt.ld, Vt.p(), Vt.ld, Fr.p(), Fr.ld);
  Rec r("der");
  r("no", no)("ni", ni)("na", na)("nv", nv)("k", k)("kv", kv)("k1", k1)("k2", k2)("f", I(W(F.get())))("g", I(W(g)))("x", I(x))("hk2", I(W(hk), 2))("dh2", I(W(dh), 2))("dh2b", I(W(dh2), 2))("sd", I(W(sd)))
   ("u", I(u))("er2", I(er / un, 2))("er2b", I(er2 / un, 2))("tt", I(W(Tt.get())))("vt", I(W(Vt.get())))("fr", I(W(Fr.get())));
  bool same = Tt.get() == Tt2.get() && Vt.get() == Vt2.get() && Fr.get() == Fr2.get();
  r("same", same);
  std::vector<long> ng, nh;
  if(hess) {
    // central differences of the energy of rotated orbitals; entries below
    // the diagonal are defined
    std::vector<double> NG(no * no, 0.), NH(no * no * no * no, 0.);
    numerical_orbital_gradient(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, NG.data(), no);
    numerical_orbital_hessian(NO, NI, NA, T.p(), T.ld, V.p(), V.ld, A1.p(), A1.ld, A2.p(), A2.ld, NH.data(), no);
    for(double z : NG) ng.push_back(I(z / un, 1, 0.02));
    for(double z : NH) nh.push_back(I(2 * z / un, 1, 0.1));
  }
  r("hess", hess)("ng", ng)("nh", nh)("pad", padok);
  out(r);
}
// Rotations in disjoint planes by angles with sine 3/5 or 5/13: entries times
// 65 are integers.
static void rotation() {
  int no = rnd(1, 6);
  std::vector<int> p(no); for(int i = 0; i < no; ++i) p[i] = i;
  for(int i = no; i-- > 1;) std::swap(p[i], p[rnd(0, i)]);
  Tab K(no, 2, NaN); zero(K);
  std::vector<std::vector<int>> pl;
  const double ang[3] = {std::asin(3. / 5), std::asin(5. / 13), 2 * std::asin(1.)};
  int am = rnd(0, 4); double alpha = am == 0 ? 1 : am == 1 ? 2 : am == 2 ? -1 : am == 3 ? 0.5 : -3;
  for(int i = 0; i + 1 < no; i += 2) {
    if(rnd(0, 4) == 0) continue;
    int a = p[i], b = p[i + 1], w = rnd(0, 2);
    // the rotation by exactly the angle results for alpha * K
    K.at(a, b) = ang[w] / alpha; K.at(b, a) = -ang[w] / alpha;
    pl.push_back({a, b, w});
  }
  padok = true;
  Tab U(no, 2, 777.);
  compute_orbital_rotation(NumOrbital(no), alpha, K.p(), K.ld, U.p(), U.ld);
  Rec r("rot"); r("n", no)("pl", pl)("u65", I(U.get(), 65, 1e-8))("pad", padok);
  out(r);
}
// A general antisymmetric matrix: residuals in units of 1e-9.
static void general() {
  int no = rnd(1, 7); double sc = std::pow(10., rnd(-3, 1));
  Tab K(no, 2, NaN); zero(K);
  for(int q = 0; q < no; ++q) for(int p = 0; p < q; ++p) { double v = sc * rnd(-100, 100) / 100.; K.at(p, q) = v; K.at(q, p) = -v; }
  Tab U(no, 2, 777.), W(no, 2, 777.), D(no, 2, 777.), S(no, 2, 777.);
  compute_orbital_rotation(NumOrbital(no), 1., K.p(), K.ld, U.p(), U.ld);
  compute_orbital_rotation(NumOrbital(no), -1., K.p(), K.ld, W.p(), W.ld);
  compute_orbital_rotation(NumOrbital(no), 2., K.p(), K.ld, D.p(), D.ld);
  const double h = 1e-6 / std::max(1., sc * no);
  compute_orbital_rotation(NumOrbital(no), h, K.p(), K.ld, S.p(), S.ld);
  double orth = 0, inv = 0, dbl = 0, gen = 0, det = 1;
  for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) {
    double a = 0, b = 0, c = 0;
    for(int o = 0; o < no; ++o) { a += U.at(o, p) * U.at(o, q); b += U.at(p, o) * W.at(o, q); c += U.at(p, o) * U.at(o, q); }
    double id = p == q;
    orth = std::max(orth, std::abs(a - id)); inv = std::max(inv, std::abs(b - id)); dbl = std::max(dbl, std::abs(c - D.at(p, q)));
    gen = std::max(gen, std::abs((S.at(p, q) - id) / h + K.at(p, q)) / std::max(1., sc * no));
  }
  // determinant by elimination
  std::vector<double> M; for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) M.push_back(U.at(p, q));
  for(int c = 0; c < no; ++c) {
    int b = c; for(int i = c; i < no; ++i) if(std::abs(M[i + c * no]) > std::abs(M[b + c * no])) b = i;
    if(b != c) { det = -det; for(int q = 0; q < no; ++q) std::swap(M[b + q * no], M[c + q * no]); }
    det *= M[c + c * no];
    for(int i = c + 1; i < no; ++i) { double f = M[i + c * no] / M[c + c * no]; for(int q = c; q < no; ++q) M[i + q * no] -= f * M[c + q * no]; }
  }
  Rec r("gen"); r("n", no)("orth", F(orth, 1e9))("inv", F(inv, 1e9))("dbl", F(dbl, 1e9))("gen", F(gen, 1e4))("det", F(det - 1, 1e9)); out(r);
}
int main() {
  out.open("");
  const int m = thorough() ? 6 : 1;
  for(int t = 0; t < 200 * m; ++t) packing();
  for(int t = 0; t < 200 * m; ++t) rotation();
  for(int t = 0; t < 100 * m; ++t) general();
  for(int t = 0; t < 90 * m; ++t) derivatives(4, false);
  for(int t = 0; t < 24 * m; ++t) derivatives(3, true);
  for(int t = 0; t < 3 * m; ++t) derivatives(4, true);
}
