#pragma once
#include <mpi.h>
#include "common.hpp"
namespace vmpi {
// collective/point-to-point log of this process (pmpi.cxx)
void log_start();
std::vector<std::string> log_stop();   // one JSON array per call
void set_jitter(unsigned s, int maxus);
inline int rank(MPI_Comm c = MPI_COMM_WORLD) { int r; PMPI_Comm_rank(c, &r); return r; }
inline int size(MPI_Comm c = MPI_COMM_WORLD) { int r; PMPI_Comm_size(c, &r); return r; }
// gather every process's JSON text at rank 0, as a JSON array in rank order
inline std::string gather(const std::string& s, MPI_Comm c = MPI_COMM_WORLD) {
  int n = size(c), me = rank(c), len = s.size();
  std::vector<int> ls(n), ds(n);
  PMPI_Gather(&len, 1, MPI_INT, ls.data(), 1, MPI_INT, 0, c);
  int tot = 0; for(int i = 0; i < n; ++i) { ds[i] = tot; tot += ls[i]; }
  std::string all(me == 0 ? tot : 0, ' ');
  PMPI_Gatherv(s.data(), len, MPI_CHAR, me == 0 ? &all[0] : nullptr, ls.data(), ds.data(), MPI_CHAR, 0, c);
  std::string o = "[";
  if(me == 0) for(int i = 0; i < n; ++i) { if(i) o += ","; o += all.substr(ds[i], ls[i]); }
  return o + "]";
}
inline std::string arr(const std::vector<std::string>& v) { std::string o = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) o += ","; o += v[i]; } return o + "]"; }
struct Obj {
  std::string s = "{";
  template <class T> Obj& operator()(const char* k, const T& v) { if(s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; s += vh::js(v); return *this; }
  Obj& raw(const char* k, const std::string& v) { if(s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; s += v; return *this; }
  std::string str() const { return s + "}"; }
};
}  // namespace vmpi
