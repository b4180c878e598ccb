// Integer integral tables given by a formula the specification (Fock.tla)
// shares, so that no table has to be written into a trace.
#pragma once
#include <macis/types.hpp>
#include <vector>
#include <algorithm>
namespace vh {
inline int fT(int k, int p, int q) {
  int i = std::min(p, q), j = std::max(p, q);
  return ((i * 7 + j * 13 + i * j * 3 + k * 5) % 11) - 4;
}
inline int pairix(int p, int q) { int i = std::min(p, q), j = std::max(p, q); return j * (j + 1) / 2 + i; }
inline int fV(int k, int p, int q, int r, int s) {
  int a = pairix(p, q), b = pairix(r, s);
  if(a > b) std::swap(a, b);
  return ((a * 5 + b * 3 + a * b + k) % 7) - 3;
}
// unit: a power of two the tables are multiplied by, which is exact; what is
// linear in the integrals is divided by it again before it is recorded
struct Ints {
  int norb, k;
  std::vector<double> T, V;
  Ints(int n, int kk, double unit = 1) : norb(n), k(kk), T(n * n), V((size_t)n * n * n * n) {
    for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) T[p + q * n] = unit * fT(k, p, q);
    size_t c = 0;
    for(int s = 0; s < n; ++s) for(int r = 0; r < n; ++r) for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p)
      V[c++] = unit * fV(k, p, q, r, s);
  }
  auto Ts() { return macis::matrix_span<double>(T.data(), norb, norb); }
  auto Vs() { return macis::rank4_span<double>(V.data(), norb, norb, norb, norb); }
};
}  // namespace vh
