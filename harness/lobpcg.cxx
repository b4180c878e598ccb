// P27: the block eigensolver.
#include "common.hpp"
#include <lobpcgxx/lobpcg.hpp>
using namespace vh;
using namespace lobpcgxx;
typedef std::vector<double> DV;
static Out out;
int main() {
  out.open("");
  Rng R(27);
  int NT = thorough() ? 6000 : 700;
  for(int t = 0; t < NT; ++t) {
    int N, K, NR;
    bool odd = R(0, 9) == 0;        // dimensions the method may have to refuse
    if(odd) { N = R(1, 8); K = R(1, N); } else { K = R(1, 4); N = 3 * K + R(0, 12); }
    NR = R(1, K);
    int amp = R(1, 9);
    DV A(N * N);
    int mk = R(0, 2);               // dense, nearly diagonal, reflected spectrum
    for(int i = 0; i < N; ++i) for(int j = 0; j <= i; ++j) A[i + j * N] = A[j + i * N] = mk != 1 ? R(-amp, amp) : i == j ? R(-30, 30) : R(-1, 1);
    DV M = A, w(N);
    lapack::syev(lapack::Job::NoVec, lapack::Uplo::Lower, N, M.data(), N, w.data());
    int ldv = N + R(0, 2);
    DV V(ldv * K, 777.), lam(K + 1, 777.), res(K + 1, 777.);
    bool unit = R(0, 3) == 0;
    std::vector<int> un;
    DV X0(N * K);
    if(unit) { std::vector<int> p(N); for(int i = 0; i < N; ++i) p[i] = i; for(int i = N - 1; i > 0; --i) std::swap(p[i], p[R(0, i)]);
      for(int k = 0; k < K; ++k) { X0[p[k] + k * N] = 1; un.push_back(p[k] + 1); } }
    else { for(auto& x : X0) x = R(-1000, 1000) / 1000.; try { cholqr<double>(N, K, X0.data(), N); } catch(std::exception&) { continue; } }
    for(int k = 0; k < K; ++k) for(int i = 0; i < N; ++i) V[i + k * ldv] = X0[i + k * N];
    const DV V00 = V;
    int bad = 0;
    operator_action_type<double> Aop = [&](int64_t n, int64_t k, const double* X, int64_t lx, double* Y, int64_t ly) {
      if(n != N || k < 1 || lx < N || ly < N) ++bad;
      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, n, k, n, 1., A.data(), n, X, lx, 0., Y, ly);
    };
    // a positive definite preconditioner
    operator_action_type<double> Kop = [&](int64_t n, int64_t k, const double* X, int64_t lx, double* Y, int64_t ly) {
      if(n != N || k != K || lx < N || ly < N) ++bad;
      for(int j = 0; j < k; ++j) for(int i = 0; i < n; ++i) Y[i + j * ly] = X[i + j * lx] / (1 + std::abs(A[i + i * N] - w[0]));
    };
    bool prec = R.coin();
    lobpcg_operator<double> op = prec ? lobpcg_operator<double>(Aop, Kop) : lobpcg_operator<double>(Aop);
    lobpcg_settings s;
    int te = R(0, 3); s.conv_tol = te == 0 ? 1e-2 : te == 1 ? 1e-4 : 1e-7;
    s.maxiter = R(0, 3) ? 400 : R(0, 12);
    s.print_iter = false; s.track_convergence = R.coin();
    int how = R(0, 5);   // 0..2 simplified interfaces, 3 relative, 4 absolute, 5 first time
    int64_t lw = lobpcg_lwork(N, K), lw0 = lw;
    DV W(lw + 4, 777.);
    lobpcg_convergence<double> conv;
    if(how) conv.conv_data.resize(R(0, 2));  // left over from an earlier run
    int checks = 0; bool args = true;
    lobpcg_convergence_check<double> ck = [&](int64_t n, const double* a, const double* r, double tol) {
      ++checks; args = args && n == NR && tol == s.conv_tol;
      return how == 3 ? lobpcg_relres_convergence_check<double>(n, a, r, tol) : how == 4 ? lobpcg_absres_convergence_check<double>(n, a, r, tol) : true;
    };
    std::string oc = "ok";
    try {
      if(how == 0) lobpcg<double>(s, N, K, NR, op, lam.data(), V.data(), ldv, res.data());
      else if(how == 1) lobpcg<double>(s, N, K, NR, op, lam.data(), V.data(), ldv, res.data(), conv);
      else if(how == 2) lobpcg<double>(s, N, K, NR, op, lam.data(), V.data(), ldv, res.data(), W.data(), lw, conv);
      else lobpcg<double>(s, N, K, NR, op, lam.data(), V.data(), ldv, res.data(), W.data(), lw, ck, conv);
    } catch(std::exception& e) { oc = std::string(e.what()).find("CONVERGE") != std::string::npos ? "notconv" : "error"; }
    bool pad = lw == lw0 && lam[K] == 777. && res[K] == 777.;
    for(int k = NR; k < K; ++k) pad = pad && lam[k] == 777. && res[k] == 777.;
    for(int k = 0; k < K; ++k) for(int i = N; i < ldv; ++i) pad = pad && V[i + k * ldv] == 777.;
    for(int i = 0; i < 4; ++i) pad = pad && W[lw0 + i] == 777.;
    Rec r("run");
    std::vector<std::vector<long>> Am(N), xs, W6, Wr, Wa;
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) Am[i].push_back((long)A[i + j * N]);
    std::vector<long> l6, ref, rr, dr, rq;
    if(oc != "error") for(int k = 0; k < NR; ++k) {
      DV y(N, 0.), x(V.begin() + k * ldv, V.begin() + k * ldv + N);
      blas::gemv(blas::Layout::ColMajor, blas::Op::NoTrans, N, N, 1., A.data(), N, x.data(), 1, 0., y.data(), 1);
      double ny = blas::nrm2(N, y.data(), 1); rq.push_back(F(blas::dot(N, x.data(), 1, y.data(), 1), 1e6));
      blas::axpy(N, -lam[k], x.data(), 1, y.data(), 1);
      double a = blas::nrm2(N, y.data(), 1), rel = ny + std::abs(lam[k]) > 0 ? a / (ny + std::abs(lam[k])) : a;
      rr.push_back(F(std::min((how == 4 ? a : rel) / s.conv_tol, 1e5), 1000)); 
      // relative to a vanishing value the norm means nothing
      dr.push_back(ny + std::abs(lam[k]) < 1e-5 ? 0 : F(std::min(std::abs(rel - res[k]), 1.), 1e9));
      l6.push_back(F(lam[k], 1e6)); ref.push_back(F(w[k], 1e6)); xs.push_back(F(x, 1e4));
    }
    bool full = true;
    for(auto& c : conv.conv_data) {
      full = full && (int)c.W.size() == K && (int)c.res.size() == K && (int)c.rel_res.size() == K;
      for(int i = 0; full && i < K; ++i) full = (c.res[i] < 1e-9 || c.rel_res[i] > 0) && (c.rel_res[i] < 1e-9 || c.res[i] > 0) && !(c.rel_res[i] > c.res[i] / std::abs(c.W[i]) * 1.0001 + 1e-9);
      std::vector<long> a; for(auto z : how == 4 ? c.res : c.rel_res) a.push_back(F(std::min(z / s.conv_tol, 1e5), 1000));
      W6.push_back(F(c.W, 1e6)); Wr.push_back(a);
    }
    std::vector<long> lastw, lastres;
    r("N", N)("K", K)("NR", NR)("odd", odd)("A", Am)("un", un)("how", how)("te", te)("max", (int)s.maxiter)("track", s.track_convergence)("out", oc)("pad", pad)("bad", bad)("args", args)("checks", checks)
     ("l6", l6)("ref", ref)("rr", rr)("dr", dr)("rq", rq)("x", xs)("full", full)("W", W6)("Wr", Wr);
    out(r);
  }
  // refused calls
  for(int t = 0; t < 80; ++t) {
    int N = R(1, 9), K = R(1, N), NR = R(1, K), kind = R(0, 4);
    DV V(N * K, 1.), lam(K, 777.), res(K, 777.), V0 = V;
    bool called = false;
    operator_action_type<double> Aop = [&](int64_t, int64_t, const double*, int64_t, double*, int64_t) { called = true; }, null;
    lobpcg_settings s;
    int64_t lw = lobpcg_lwork(N, K), need = lw;
    if(kind == 0) lw = -R(1, 3);
    if(kind == 1) lw = R.coin() ? lw - 1 : R(0, (int)lw - 1);
    if(kind == 2) s.maxiter = -R(1, 5);
    if(kind == 3) s.conv_tol = -1e-3 * R(1, 5);
    int64_t in = lw;
    DV W(std::max<int64_t>(lw, 1), 777.), W0 = W;
    std::string oc = "ok";
    try {
      lobpcg_operator<double> op = kind == 4 ? lobpcg_operator<double>(null) : lobpcg_operator<double>(Aop);
      lobpcg<double>(s, N, K, NR, op, lam.data(), V.data(), N, res.data(), W.data(), lw);
    } catch(std::exception&) { oc = "error"; }
    bool same = V == V0 && lam == DV(K, 777.) && res == DV(K, 777.) && W == W0;
    out(Rec("refuse")("N", N)("K", K)("kind", kind)("out", oc)("same", same)("called", called)("lwin", (long)in)("lw", (long)lw)("need", (long)need));
  }
}
