// P26: orbital optimisation.  The solver for the active space is either a
// stand-in with fixed density matrices or the library's own, wrapped so that
// what it was given is recorded.
#include "mpi_common.hpp"
#include "integrals.hpp"
#include <spdlog/sinks/base_sink.h>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/mcscf.hpp>
#include <macis/util/mcscf_impl.hpp>
#include <mutex>
using namespace vh;
using namespace macis;
typedef std::vector<double> DV;
static Out out;
static int wrank = 0, wsize = 1;

struct Watch : spdlog::sinks::base_sink<std::mutex> {
  int conv = 0;
  void sink_it_(const spdlog::details::log_msg& m) override {
    std::string s(m.payload.data(), m.payload.size());
    for(auto& c : s) c = tolower(c);
    if(s.find("converged") != std::string::npos && s.find("not") == std::string::npos) ++conv;
  }
  void flush_() override {}
};
static std::shared_ptr<Watch> watch;

// padded tables
struct Tab {
  int n, ld, r; DV d;
  Tab(int nn, int rr, int pad, double fill) : n(nn), r(rr) {
    ld = std::max(1, nn) + pad;
    size_t s = std::max(n, 1); for(int i = 1; i < r; ++i) s *= ld;
    d.assign(s, fill);
  }
  double& at(int a, int b) { return d[a + b * ld]; }
  double& at(int a, int b, int c, int e) { return d[a + (size_t)ld * (b + (size_t)ld * (c + (size_t)ld * e))]; }
  bool in(size_t q) { for(int k = 0; k < r; ++k) { int i = k + 1 < r ? q % ld : q; q /= ld; if(i >= n) return false; } return true; }
  DV get() { DV o; for(size_t q = 0; q < d.size(); ++q) if(in(q)) o.push_back(d[q]); return o; }
  bool padded(double f) { for(size_t q = 0; q < d.size(); ++q) if(!in(q) && d[q] != f) return false; return true; }
};

// stand-in: fixed density matrices, consistent energy; keeps what it was given
struct Fixed {
  DV g1, g2;
  mutable std::vector<DV> Ts, Vs;
  mutable bool clean = true;
  mutable DV es;
  double rdms(MCSCFSettings, NumOrbital na, size_t, size_t, double* T, double* V, double* A1, double* A2, DV&, MPI_Comm) const {
    size_t n = na.get(), n2 = n * n, n4 = n2 * n2;
    double e = 0;
    for(size_t i = 0; i < n2; ++i) { clean = clean && A1[i] == 0; A1[i] += g1[i]; e += A1[i] * T[i]; }
    for(size_t i = 0; i < n4; ++i) { clean = clean && A2[i] == 0; A2[i] += g2[i]; e += A2[i] * V[i]; }
    Ts.emplace_back(T, T + n2); Vs.emplace_back(V, V + n4); es.push_back(e);
    return e;
  }
};
// the library's, recorded
struct Real {
  mutable int calls = 0;
  mutable double e = 0, con = 0, drift = 0;
  double rdms(MCSCFSettings s, NumOrbital na, size_t a, size_t b, double* T, double* V, double* A1, double* A2, DV& C, MPI_Comm c) const {
    e = CASRDMFunctor<DoubleLoopHamiltonianGenerator<64>>::rdms(s, na, a, b, T, V, A1, A2, C, c);
    size_t n = na.get(), n2 = n * n, n4 = n2 * n2;
    con = 0;
    for(size_t i = 0; i < n2; ++i) con += A1[i] * T[i];
    for(size_t i = 0; i < n4; ++i) con += A2[i] * V[i];
    drift = std::max(drift, std::abs(con - e));
    ++calls;
    return e;
  }
};

// ------------------------------------------------- nothing to be iterated
static void zero(Rng& R, int t) {
  int no = R(1, 4), ni = R(0, no), na = R(0, std::min(3, no - ni)), nv = no - ni - na;
  if(na == 0) return;
  int k = R(0, 30), k1 = R(0, 30), k2 = R(0, 30), pt = R(0, 1), pv = R(0, 1), p1 = R(0, 1), p2 = R(0, 1), ec = R(-9, 9);
  Tab T(no, 2, pt, 5.), V(no, 4, pv, 7.), A1(na, 2, p1, 3.), A2(na, 4, p2, 2.);
  for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) T.at(p, q) = fT(k, p, q);
  for(int s = 0; s < no; ++s) for(int r = 0; r < no; ++r) for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) V.at(p, q, r, s) = fV(k, p, q, r, s);
  int tr = 0;
  for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A1.at(p, q) = fT(k1, p, q);
  for(int q = 0; q < na; ++q) tr += (int)A1.at(q, q);
  for(int s = 0; s < na; ++s) for(int r = 0; r < na; ++r) for(int q = 0; q < na; ++q) for(int p = 0; p < na; ++p) A2.at(p, q, r, s) = fV(k2, p, q, r, s);
  // make the trace a possible electron count, or another one
  int el = R(0, 2 * na), ael = R(std::max(0, el - na), std::min(el, na));
  int off = R(0, 2) ? 0 : R(-1, 1);
  A1.at(na - 1, na - 1) += el - tr + off;
  Fixed f;
  int k3 = R(0, 30), k4 = R(0, 30);
  f.g1.resize(na * na); f.g2.resize(na * na * na * na);
  { int q = 0; for(int b = 0; b < na; ++b) for(int a = 0; a < na; ++a) f.g1[q++] = fT(k3, a, b); }
  { int q = 0; for(int d = 0; d < na; ++d) for(int c = 0; c < na; ++c) for(int b = 0; b < na; ++b) for(int a = 0; a < na; ++a) f.g2[q++] = fV(k4, a, b, c, d); }
  DV a1 = A1.get(), a2 = A2.get(), t0 = T.d, v0 = V.d;
  MCSCFSettings s; s.max_macro_iter = 0; s.enable_diis = R.coin();
  // a tolerance nothing misses: already converged, so that nothing is iterated
  bool loose = R.coin();
  if(loose) { s.max_macro_iter = 5; s.orb_grad_tol_mcscf = 1e9; }
  watch->conv = 0;
  double E = mcscf_impl(f, s, NumElectron(ael), NumElectron(el - ael), NumOrbital(no), NumInactive(ni), NumActive(na), NumVirtual(nv), (double)ec,
                        T.d.data(), T.ld, V.d.data(), V.ld, A1.d.data(), A1.ld, A2.d.data(), A2.ld, MPI_COMM_SELF);
  Rec r("zero");
  r("no", no)("ni", ni)("na", na)("nv", nv)("k", k)("ec", ec)("el", el)("off", off)("a1", I(a1))("a2", I(a2))("g1", I(f.g1))("g2", I(f.g2))
   ("b1", I(A1.get()))("b2", I(A2.get()))("pad", A1.padded(3.) && A2.padded(2.) && T.d == t0 && V.d == v0)("clean", f.clean)
   ("calls", (int)f.Ts.size())("ta", f.Ts.empty() ? std::vector<long>{} : I(f.Ts[0]))("va", f.Vs.empty() ? std::vector<long>{} : I(f.Vs[0]))
   ("E", I(E))("loose", loose)("conv", watch->conv)("par", nv * (ni + na) + na * ni);
  out(r);
}

// ------------------------- non-interacting electrons, half-filled active part
// eigenvalues lam (ascending); starting orbitals: a few plane rotations away
static void free_(Rng& R, int t) {
  int no = R(2, 5), ni, na, nv;
  do { ni = R(0, no - 1); na = R(1, no - ni); nv = no - ni - na; } while(nv * (ni + na) + na * ni == 0);
  std::vector<int> lam(no);
  lam[0] = R(-20, -5); for(int i = 1; i < no; ++i) lam[i] = lam[i - 1] + R(2, 8);
  DV Q(no * no, 0.); for(int i = 0; i < no; ++i) Q[i + i * no] = 1;
  int rot = R(0, 4); bool tiny = R(0, 2) == 0;
  for(int x = 0; x < rot; ++x) {
    int a = R(0, no - 1), b = R(0, no - 1); if(a == b) continue;
    double th = tiny ? std::pow(10., -R(2, 8)) * R(1, 9) : 0.05 * R(-4, 4);
    for(int i = 0; i < no; ++i) { double u = Q[a + i * no], w = Q[b + i * no]; Q[a + i * no] = cos(th) * u - sin(th) * w; Q[b + i * no] = sin(th) * u + cos(th) * w; }
  }
  Tab T(no, 2, R(0, 1), 5.), V(no, 4, R(0, 1), 0.), A1(na, 2, R(0, 1), 0.), A2(na, 4, 0, 0.);
  for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) { double z = 0; for(int m = 0; m < no; ++m) z += Q[p + m * no] * lam[m] * Q[q + m * no]; T.at(p, q) = z; }
  bool reuse = R.coin();
  Fixed f; f.g1.assign(na * na, 0.); f.g2.assign(na * na * na * na, 0.);
  for(int i = 0; i < na; ++i) { f.g1[i + i * na] = 1; if(reuse) A1.at(i, i) = 1; }
  double e0 = 0;
  for(int i = 0; i < ni + na; ++i) e0 += (i < ni ? 2 : 1) * T.at(i, i);
  int ec = R(-9, 9);
  MCSCFSettings s;
  s.max_macro_iter = R(0, 3) ? 200 : R(0, 6);
  s.enable_diis = R.coin(); s.diis_start_iter = R(0, 4); s.diis_nkeep = R(2, 8);
  s.max_orbital_step = R.coin() ? 0.5 : 0.1;
  int tk = R(0, 2); s.orb_grad_tol_mcscf = tk == 0 ? 5e-6 : tk == 1 ? 1e-4 : 1e-2;
  // gradient of the starting orbitals: 2 (occupation difference) T(a,i)
  double g0 = 0;
  for(int a = ni; a < no; ++a) for(int i = 0; i < ni + na; ++i) if(i < ni || a >= ni + na) {
    double g = 2. * ((i < ni ? 2 : 1) - (a < ni + na ? 1 : 0)) * T.at(a, i); g0 += g * g;
  }
  int par = nv * (ni + na) + na * ni;
  g0 = std::sqrt(g0 / par) / s.orb_grad_tol_mcscf;
  watch->conv = 0;
  double E = mcscf_impl(f, s, NumElectron(na), NumElectron(0), NumOrbital(no), NumInactive(ni), NumActive(na), NumVirtual(nv), (double)ec,
                        T.d.data(), T.ld, V.d.data(), V.ld, A1.d.data(), A1.ld, A2.d.data(), A2.ld, MPI_COMM_SELF);
  std::vector<long> tr;
  for(auto& x : f.Ts) { double z = 0; for(int i = 0; i < na; ++i) z += x[i + i * na]; tr.push_back(F(z, 1e6)); }
  // squared gradient from the invariants of T when one block is one orbital
  Rec r("free");
  r("ni", ni)("na", na)("nv", nv)("lam", lam)("ec", ec)("reuse", reuse)("max", (int)s.max_macro_iter)("diis", s.enable_diis)("calls", (int)f.Ts.size())
   ("tr6", tr)("E6", F(E, 1e6))("S6", F(e0 + ec, 1e6))("conv", watch->conv)("clean", f.clean)("small", s.max_orbital_step < 0.3)("b1", I(A1.get()))("none", rot == 0)("par", par)("tk", tk)("g0", F(std::min(g0, 1000.), 1000));
  out(r);
}

// ----------------------------- one step of one pair of orbitals, limited step
static void limit(Rng& R, int t) {
  // pair (a,b) coupled, everything else diagonal; blocks chosen by kind
  int kind = R(0, 2), no = R(2, 4), ni, na, nv, a, b;
  do { no = R(2, 4); ni = R(0, no); na = R(0, no - ni); nv = no - ni - na; } while(na < 1 || (kind == 0 && (ni < 1 || nv < 1)) || (kind == 1 && nv < 1) || (kind == 2 && ni < 1));
  if(kind == 0) { a = ni + na + R(0, nv - 1); b = R(0, ni - 1); }
  if(kind == 1) { a = ni + na + R(0, nv - 1); b = ni + R(0, na - 1); }
  if(kind == 2) { a = ni + R(0, na - 1); b = R(0, ni - 1); }
  std::vector<int> dg(no); dg[0] = R(-9, 9); for(int i = 1; i < no; ++i) dg[i] = dg[i - 1] + R(1, 3);
  int off = R(10, 20) * (R.coin() ? 1 : -1);
  Tab T(no, 2, R(0, 1), 5.), V(no, 4, R(0, 1), 0.), A1(na, 2, 0, 0.), A2(na, 4, 0, 0.);
  for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) T.at(p, q) = p == q ? dg[p] : 0;
  T.at(a, b) = T.at(b, a) = off;
  Fixed f; f.g1.assign(na * na, 0.); f.g2.assign(na * na * na * na, 0.);
  for(int i = 0; i < na; ++i) f.g1[i + i * na] = 1;
  // extrapolation, which may go further, begins with the third step
  int steps = t % 2 ? 2 : 1;
  MCSCFSettings s; s.max_macro_iter = steps; s.enable_diis = R.coin(); s.diis_start_iter = R(0, 2);
  static const int C[] = {4, 12, 15, 24, 40}, S[] = {3, 5, 8, 7, 9}, H[] = {5, 13, 17, 25, 41};
  int trip = R(steps == 1 ? 0 : 1, 4), h = H[trip];
  s.max_orbital_step = std::atan2((double)S[trip], (double)C[trip]);
  watch->conv = 0;
  double E = mcscf_impl(f, s, NumElectron(na), NumElectron(0), NumOrbital(no), NumInactive(ni), NumActive(na), NumVirtual(nv), 0.,
                        T.d.data(), T.ld, V.d.data(), V.ld, A1.d.data(), A1.ld, A2.d.data(), A2.ld, MPI_COMM_SELF);
  out(Rec("limit")("ni", ni)("na", na)("nv", nv)("dg", dg)("off", off)("pa", a)("pb", b)("h", h)("c", C[trip])("s", S[trip])("steps", steps)
      ("calls", (int)f.Ts.size())("ta", f.Ts.size() >= 2 ? I(f.Ts[1], h * h) : std::vector<long>{})
      ("E", steps == 1 ? I(E, h * h) : F(E, (double)h * h * h * h))("conv", watch->conv));
}

// ------------ stopping after a step and starting again from the new orbitals
static void resume(Rng& R, int t) {
  int no, ni, na, nv;
  do { no = R(2, 4); ni = R(0, no - 1); na = R(1, no - ni); nv = no - ni - na; } while(nv * (ni + na) + na * ni == 0);
  NumOrbital NO(no); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
  int n2 = no * no, n4 = n2 * n2, k = R(0, 30), kv = R(0, 30);
  DV T(n2), V(n4), T1(n2), V1(n4);
  double sv = R.coin() ? 0. : 1. / 64;
  for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) T[p + q * no] = p == q ? 3 * p - 5 + fT(k, p, p) / 8. : fT(k, p, q) / 4.;
  { int c = 0; for(int d = 0; d < no; ++d) for(int r = 0; r < no; ++r) for(int q = 0; q < no; ++q) for(int p = 0; p < no; ++p) V[c++] = sv * fV(kv, p, q, r, d); }
  Fixed f; f.g1.assign(na * na, 0.); f.g2.assign(na * na * na * na, 0.);
  for(int i = 0; i < na; ++i) f.g1[i + i * na] = 1;
  if(R.coin()) for(auto& x : f.g2) x = R(-2, 2) / 16.;
  MCSCFSettings s; s.orb_grad_tol_mcscf = 1e-13; s.enable_diis = false; s.max_orbital_step = R.coin() ? 0.5 : 0.2;
  int steps = R(2, 4);
  auto run = [&](int n, DV& t0, DV& v0, DV& ta) {
    Fixed g = f; s.max_macro_iter = n;
    DV a1 = g.g1, a2 = g.g2;
    double e = mcscf_impl(g, s, NumElectron(na), NumElectron(0), NO, NI, NA, NV, 0., t0.data(), no, v0.data(), no, a1.data(), na, a2.data(), na, MPI_COMM_SELF);
    ta = g.Ts.empty() ? DV{} : g.Ts.back();
    return e;
  };
  DV ta; double E = run(steps, T, V, ta);
  std::vector<long> Es, ds; std::vector<double> mx;
  int par = nv * (ni + na) + na * ni;
  DV t0 = T, v0 = V;
  for(int q = 1; q < steps; ++q) {
    DV Fi(n2), Fa(n2), Fg(n2), Ta(na * na), Va(na * na * na * na), Q(na * no), OG(par), K(par), KK(n2), U(n2);
    active_hamiltonian(NO, NA, NI, t0.data(), no, v0.data(), no, Fi.data(), no, Ta.data(), na, Va.data(), na);
    active_fock_matrix(NO, NI, NA, v0.data(), no, f.g1.data(), na, Fa.data(), no);
    aux_q_matrix(NA, NO, NI, v0.data(), no, f.g2.data(), na, Q.data(), na);
    generalized_fock_matrix(NO, NI, NA, Fi.data(), no, Fa.data(), no, f.g1.data(), na, Q.data(), na, Fg.data(), no);
    fock_to_linear_orb_grad(NI, NA, NV, Fg.data(), no, OG.data());
    precond_cg_orbital_step(NO, NI, NA, NV, Fi.data(), no, Fa.data(), no, Fg.data(), no, f.g1.data(), na, OG.data(), K.data());
    double m = 0; for(double x : K) m = std::max(m, std::abs(x));
    if(m > s.max_orbital_step) for(double& x : K) x *= s.max_orbital_step / m;
    linear_orb_rot_to_matrix(NI, NA, NV, K.data(), KK.data(), no);
    compute_orbital_rotation(NO, 1.0, KK.data(), no, U.data(), no);
    two_index_transform(no, no, t0.data(), no, U.data(), no, T1.data(), no);
    four_index_transform(no, no, v0.data(), no, U.data(), no, V1.data(), no);
    t0 = T1; v0 = V1;
    DV tb; Es.push_back(F(run(steps - q, t0, v0, tb), 1e6));
    double d = 0; if(!tb.empty())   // empty: nothing was left to do
      for(size_t i = 0; i < ta.size(); ++i) d = std::max(d, std::abs(ta[i] - tb[i]));
    ds.push_back(F(d, 1e6));
  }
  out(Rec("resume")("ni", ni)("na", na)("nv", nv)("steps", steps)("E6", F(E, 1e6))("Es", Es)("ds", ds));
}

// ------------------------------------------------ hidden uncoupled problem
static void cas(Rng& R, int t) {
  int ni = R(0, 1), na = 2, nv = R(0, 2); if(!thorough() && ni + nv == 3) nv = 1;
  if(ni + nv == 0) nv = 1;
  int no = ni + na + nv;
  DV T0(no * no, 0.), V0(no * no * no * no, 0.);
  auto v = [&](int p, int q, int r, int s) -> double& { return V0[p + no * (q + no * (r + no * s))]; };
  auto cls = [&](int p) { return p < ni ? p : p < ni + na ? 100 : p; };
  int base = R(0, 5);
  for(int p = 0; p < no; ++p) T0[p + p * no] = p < ni ? -60 - R(0, 9) : p < ni + na ? -12 + R(0, 3) : 20 + R(0, 9);
  T0[ni + (ni + 1) * no] = T0[ni + 1 + ni * no] = R(-3, 3);
  auto put = [&](int p, int q, int r, int s, int x) { v(p,q,r,s)=v(q,p,r,s)=v(p,q,s,r)=v(q,p,s,r)=v(r,s,p,q)=v(s,r,p,q)=v(r,s,q,p)=v(s,r,q,p)=x; };
  for(int p = 0; p < no; ++p) for(int q = 0; q <= p; ++q) {
    put(p, p, q, q, p == q ? R(5, 8) : R(2, 4));
    if(p != q) put(p, q, p, q, 1);
  }
  if(R.coin()) { put(ni, ni + 1, ni, ni, R(-1, 1)); put(ni, ni + 1, ni + 1, ni + 1, R(-1, 1)); }
  int el = R(1, 3), ua = el == 2 ? (R(0, 3) ? 1 : 2) : el == 1 ? 1 : 2, ub = el - ua;
  // the reference in the uncoupled basis, by dense diagonalisation
  DV Ta(na * na), Va(na * na * na * na);
  for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) {
    double z = T0[x + ni + (y + ni) * no];
    for(int i = 0; i < ni; ++i) z += 2 * v(x + ni, y + ni, i, i) - v(x + ni, i, i, y + ni);
    Ta[x + y * na] = z;
    for(int c = 0; c < na; ++c) for(int d = 0; d < na; ++d) Va[x + na * (y + na * (c + na * d))] = v(x + ni, y + ni, c + ni, d + ni);
  }
  DoubleLoopHamiltonianGenerator<64> gen(matrix_span<double>(Ta.data(), na, na), rank4_span<double>(Va.data(), na, na, na, na));
  auto dets = generate_hilbert_space<64>(na, ua, ub);
  size_t nd = dets.size();
  DV H(nd * nd), w(nd);
  for(size_t i = 0; i < nd; ++i) for(size_t j = 0; j < nd; ++j) H[i + j * nd] = gen.matrix_element(dets[i], dets[j]);
  lapack::syev(lapack::Job::Vec, lapack::Uplo::Lower, nd, H.data(), nd, w.data());
  DV x(H.begin(), H.begin() + nd);
  if(nd > 1 && w[1] - w[0] < 0.3) return;
  double closed = 0;
  for(size_t i = 0; i < nd; ++i) { auto u = dets[i].to_ullong(); if((u & 0xffffffffu) == (u >> 32)) closed += x[i] * x[i]; }
  if(ua == 1 && ub == 1 && closed < 1e-3) return;
  if(ua == 1 && ub == 1) {   // natural occupations away from two and zero
    double m[2][2];
    for(size_t i = 0; i < nd; ++i) { auto u = dets[i].to_ullong(); m[(u & 2) != 0][(u >> 33) & 1] = x[i]; }
    double d2 = m[0][0] * m[1][1] - m[0][1] * m[1][0]; d2 *= d2;
    if(d2 < 0.03) return;
  }
  std::vector<double> Q(no * no, 0.); for(int i = 0; i < no; ++i) Q[i + i * no] = 1;
  int rot = R(0, 4);
  for(int x = 0; x < rot; ++x) {
    int a = R(0, no - 1), b = R(0, no - 1); if(a == b) continue;
    double th = 0.02 * R(-3, 3);
    if(cls(a) == cls(b)) th *= 12;
    for(int i = 0; i < no; ++i) { double u = Q[a + i * no], w = Q[b + i * no]; Q[a + i * no] = cos(th) * u - sin(th) * w; Q[b + i * no] = sin(th) * u + cos(th) * w; }
  }
  DV T1(no * no, 0.), V1 = V0, V2;
  for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) for(int m = 0; m < no; ++m) for(int k = 0; k < no; ++k) T1[p + q * no] += Q[p + m * no] * Q[q + k * no] * T0[m + k * no];
  for(int ix = 0; ix < 4; ++ix) {   // rotate the first index, then turn the indices round
    V2.assign(V1.size(), 0.);
    for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) for(int r = 0; r < no; ++r) for(int s = 0; s < no; ++s)
      for(int m = 0; m < no; ++m) V2[q + no * (r + no * (s + no * p))] += Q[p + m * no] * V1[m + no * (q + no * (r + no * s))];
    V1 = V2;
  }
  int ec = R(-9, 9), p1 = R(0, 1);
  MCSCFSettings s;
  auto run = [&](MCSCFSettings ss, Real* f, Tab& A1, Tab& A2, int& conv) {
    Tab T(no, 2, R(0, 1), 5.), V(no, 4, R(0, 1), 7.);
    for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) T.at(p, q) = T1[p + q * no];
    for(int p = 0; p < no; ++p) for(int q = 0; q < no; ++q) for(int r = 0; r < no; ++r) for(int u = 0; u < no; ++u) V.at(p, q, r, u) = V1[p + no * (q + no * (r + no * u))];
    watch->conv = 0;
    double e;
    if(f) e = mcscf_impl(*f, ss, NumElectron(ua), NumElectron(ub), NumOrbital(no), NumInactive(ni), NumActive(na), NumVirtual(nv), (double)ec,
                         T.d.data(), T.ld, V.d.data(), V.ld, A1.d.data(), A1.ld, A2.d.data(), A2.ld, MPI_COMM_WORLD);
    else e = casscf_diis(ss, NumElectron(ua), NumElectron(ub), NumOrbital(no), NumInactive(ni), NumActive(na), NumVirtual(nv), (double)ec,
                         T.d.data(), T.ld, V.d.data(), V.ld, A1.d.data(), A1.ld, A2.d.data(), A2.ld, MPI_COMM_WORLD);
    conv = watch->conv;
    return e;
  };
  Tab A1(na, 2, p1, 0.), A2(na, 4, p1, 0.), B1 = A1, B2 = A2, C1 = A1, C2 = A2, D1 = A1, D2 = A2;
  int c0 = 0, c1 = 0, c2 = 0, c3 = 0;
  MCSCFSettings z = s; z.max_macro_iter = 0; 
  Real f0, f1;
  double E0 = run(z, &f0, A1, A2, c0);
  double E1 = run(s, &f1, B1, B2, c1);                       // defaults
  MCSCFSettings o = s; o.enable_diis = R.coin(); o.diis_start_iter = R(0, 3); o.diis_nkeep = R(2, 10); o.max_orbital_step = R.coin() ? 0.1 : 0.5; o.max_macro_iter = 300;
  double E2 = run(o, nullptr, C1, C2, c2);                    // other settings, public entry
  // density matrices of the starting orbitals given
  D1 = A1; D2 = A2;
  double E3 = run(o, nullptr, D1, D2, c3);
  double tr = B1.at(0, 0) + B1.at(1, 1), sq = 0; for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) sq += B1.at(i, j) * B1.at(i, j);
  if(wrank == 0) out(Rec("cas")("no", no)("ni", ni)("nv", nv)("T0", I(T0))("V0", I(V0))("ua", ua)("ub", ub)("ec", ec)("S6", F(E0, 1e6))("E6", F(E1, 1e6))("c1", c1)("F6", F(E2, 1e6))("c2", c2)("G6", F(E3, 1e6))("c3", c3)
      ("e6", F(f1.e, 1e6))("drift9", F(std::max(f0.drift, f1.drift), 1e9))("tr6", F(tr, 1e6))("sq6", F(sq, 1e6))("calls", f1.calls)("rot", rot)("np", wsize)("dets", dets)("x", F(x, 1e4))("l6", F(w[0], 1e6)));
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank); MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  for(auto n : {"diis", "ci_solver", "davidson"}) spdlog::null_logger_mt(n);
  watch = std::make_shared<Watch>();
  auto lg = std::make_shared<spdlog::logger>("mcscf", watch); spdlog::register_logger(lg);
  if(wrank == 0) out.open("");
  Rng R(26);
  std::string m = argv[1];
  int N = thorough() ? 40 : 3;
  if(m == "fixed") {
    for(int t = 0; t < 300 * N; ++t) zero(R, t);
    for(int t = 0; t < 300 * N; ++t) free_(R, t);
    for(int t = 0; t < 200 * N; ++t) limit(R, t);
    for(int t = 0; t < 100 * N; ++t) resume(R, t);
  } else
    for(int t = 0; t < 40 * N; ++t) cas(R, t);
  MPI_Finalize();
}
