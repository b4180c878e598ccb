// PMPI interposer: records the communication calls each process makes between
// log_start and log_stop, and optionally delays them (seeded jitter).
//
// Every entry names the communicator by the path of collective creations that
// produced it (the same on all its processes) and numbers the call within its
// channel: collectives within the communicator, messages within
// (communicator, peer, tag, direction).
#include <mpi.h>
#include <unistd.h>
#include <map>
#include <tuple>
#include "mpi_common.hpp"
namespace vmpi {
static bool on = false;
static std::vector<std::string> lg;
static std::map<MPI_Comm, std::string> names; static std::map<std::string, int> kids;
static std::map<std::string, int> colls; static std::map<std::tuple<std::string, int, int, int>, int> chan;
static std::map<MPI_Request, std::vector<int>> reqs;   // several eager sends may share a handle
 static int nreq = 0;
static std::mt19937 jg; static int jmax = 0;
void log_start() { lg.clear(); colls.clear(); chan.clear(); reqs.clear(); nreq = 0; on = true; }
std::vector<std::string> log_stop() { on = false; auto r = lg; lg.clear(); return r; }
void set_jitter(unsigned s, int m) { jg.seed(s * 1000003u + rank() * 97u + 5u); jmax = m; }
static void jit() { if(jmax > 0) { int u = jg() % (unsigned)(jmax * 2); if(u > jmax) usleep(u - jmax); } }
static std::vector<int> members(MPI_Comm c) {
  MPI_Group g, w; PMPI_Comm_group(c, &g); PMPI_Comm_group(MPI_COMM_WORLD, &w); int n; MPI_Group_size(g, &n);
  std::vector<int> a(n), b(n); for(int i = 0; i < n; ++i) a[i] = i; if(n) MPI_Group_translate_ranks(g, n, a.data(), w, b.data()); MPI_Group_free(&g); MPI_Group_free(&w); return b; }
static std::string name(MPI_Comm c) { if(c == MPI_COMM_WORLD) return "w"; auto it = names.find(c); return it != names.end() ? it->second : "g" + vh::js(members(c)); }
static void born(MPI_Comm parent, MPI_Comm c) { if(c == MPI_COMM_NULL) return; std::string p = name(parent); names[c] = p + "." + std::to_string(kids[p]) + vh::js(members(c)); }
static int tsz(MPI_Datatype t) { int s = 0; PMPI_Type_size(t, &s); return s; }
static int opid(MPI_Op o) { return o == MPI_SUM ? 1 : o == MPI_MAX ? 2 : o == MPI_MIN ? 3 : o == MPI_PROD ? 4 : o == MPI_LAND ? 5 : o == MPI_LOR ? 6 : o == MPI_MAXLOC ? 7 : o == MPI_MINLOC ? 8 : 9; }
// the arithmetic a reduction does depends on the element type, not on its name
static std::string kind(MPI_Datatype t) {
  int ni, na, nd, cb; PMPI_Type_get_envelope(t, &ni, &na, &nd, &cb); if(cb != MPI_COMBINER_NAMED) return "derived";
  char nm[MPI_MAX_OBJECT_NAME]; int l; MPI_Type_get_name(t, nm, &l); std::string s(nm, l);
  if(s.find("FLOAT") != s.npos || s.find("DOUBLE") != s.npos || s.find("REAL") != s.npos) return "float" + std::to_string(tsz(t));
  if(s.find("UNSIGNED") != s.npos || s.find("UINT") != s.npos) return "uint" + std::to_string(tsz(t));
  return "int" + std::to_string(tsz(t)); }
static void put(const std::string& s) { if(on) lg.push_back(s); }
// collective: n name, g communicator, m members, i ordinal, r root (world rank), o op, k element kind, b bytes, v counts
static void coll(const char* nm, MPI_Comm c, int root, int op, const std::string& k, long bytes, const std::vector<int>& cnt = {}) {
  jit(); if(!on || size(c) == 1) return;
  auto g = name(c); auto m = members(c);
  put(Obj()("n", nm)("g", g)("m", m)("i", ++colls[g])("r", root < 0 ? -1 : m[root])("o", op)("k", k)("b", bytes)("v", cnt).str());
}
// message: d direction, p peer (world rank), t tag, q request number
static int msg(const char* d, MPI_Comm c, int peer, int tag, long bytes) {
  jit(); if(!on || peer == MPI_PROC_NULL) return 0;
  auto g = name(c); int w = members(c)[peer];
  put(Obj()("n", d)("g", g)("p", w)("t", tag)("i", ++chan[{g, w, tag, d[0]}])("b", bytes)("q", ++nreq).str()); return nreq;
}
static void wait(const std::vector<int>& q) { if(on && q.size()) put(Obj()("n", "wait")("q", q).str()); }
static std::vector<int> take(int n, MPI_Request* q) { std::vector<int> v; for(int i = 0; i < n; ++i) { auto it = reqs.find(q[i]); if(q[i] != MPI_REQUEST_NULL && it != reqs.end()) { v.push_back(it->second.front()); it->second.erase(it->second.begin()); if(it->second.empty()) reqs.erase(it); } } return v; }
static std::vector<int> cvec(const int* a, MPI_Comm c, MPI_Datatype t) { int n; PMPI_Comm_size(c, &n); std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(a[i] * tsz(t)); return v; }
static int idx(MPI_Comm c) { return rank(c); }
}  // namespace vmpi
using namespace vmpi;
extern "C" {
int MPI_Barrier(MPI_Comm c) { coll("barrier", c, -1, 0, "", 0); return PMPI_Barrier(c); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { coll("bcast", c, root, 0, kind(t), (long)n * tsz(t)); return PMPI_Bcast(b, n, t, root, c); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll("allreduce", c, -1, opid(o), kind(t), (long)n * tsz(t)); return PMPI_Allreduce(s, r, n, t, o, c); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { coll("reduce", c, root, opid(o), kind(t), (long)n * tsz(t)); return PMPI_Reduce(s, r, n, t, o, root, c); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll("scan", c, -1, opid(o), kind(t), (long)n * tsz(t)); return PMPI_Scan(s, r, n, t, o, c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll("exscan", c, -1, opid(o), kind(t), (long)n * tsz(t)); return PMPI_Exscan(s, r, n, t, o, c); }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  coll("allgather", c, -1, 0, kind(rt), s == MPI_IN_PLACE ? (long)rn * tsz(rt) : (long)n * tsz(t), {rn * tsz(rt)}); return PMPI_Allgather(s, n, t, r, rn, rt, c); }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { coll("gather", c, root, 0, "", s == MPI_IN_PLACE ? (long)rn * tsz(rt) : (long)n * tsz(t), idx(c) == root ? std::vector<int>{rn * tsz(rt)} : std::vector<int>{}); return PMPI_Gather(s, n, t, r, rn, rt, root, c); }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { coll("scatter", c, root, 0, "", r == MPI_IN_PLACE ? (long)n * tsz(t) : (long)rn * tsz(rt), idx(c) == root ? std::vector<int>{n * tsz(t)} : std::vector<int>{}); return PMPI_Scatter(s, n, t, r, rn, rt, root, c); }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* rc, const int* ds, MPI_Datatype rt, MPI_Comm c) {
  auto v = cvec(rc, c, rt); coll("allgatherv", c, -1, 0, kind(rt), s == MPI_IN_PLACE ? v[idx(c)] : (long)n * tsz(t), v); return PMPI_Allgatherv(s, n, t, r, rc, ds, rt, c); }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* rc, const int* ds, MPI_Datatype rt, int root, MPI_Comm c) {
  auto v = idx(c) == root ? cvec(rc, c, rt) : std::vector<int>{}; coll("gatherv", c, root, 0, "", s == MPI_IN_PLACE ? v[root] : (long)n * tsz(t), v); return PMPI_Gatherv(s, n, t, r, rc, ds, rt, root, c); }
int MPI_Scatterv(const void* s, const int* sc, const int* ds, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  auto v = idx(c) == root ? cvec(sc, c, t) : std::vector<int>{}; coll("scatterv", c, root, 0, "", r == MPI_IN_PLACE ? v[root] : (long)rn * tsz(rt), v); return PMPI_Scatterv(s, sc, ds, t, r, rn, rt, root, c); }
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { coll("alltoall", c, -1, 0, "", s == MPI_IN_PLACE ? (long)rn * tsz(rt) : (long)n * tsz(t), {rn * tsz(rt)}); return PMPI_Alltoall(s, n, t, r, rn, rt, c); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { coll("dup", c, -1, 0, "", 0); int e = PMPI_Comm_dup(c, d); ++kids[name(c)]; born(c, *d); return e; }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* d) { coll("split", c, -1, 0, "", 0); int e = PMPI_Comm_split(c, col, key, d); ++kids[name(c)]; born(c, *d); return e; }
int MPI_Comm_free(MPI_Comm* c) { names.erase(*c); return PMPI_Comm_free(c); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { int k = msg("send", c, d, tag, (long)n * tsz(t)); int e = PMPI_Isend(b, n, t, d, tag, c, q); if(k) reqs[*q].push_back(k); return e; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { int k = msg("recv", c, d, tag, (long)n * tsz(t)); int e = PMPI_Irecv(b, n, t, d, tag, c, q); if(k) reqs[*q].push_back(k); return e; }
// blocking calls are a message and the wait for it (jitter after the log entry)
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int k = msg("send", c, d, tag, (long)n * tsz(t)); if(k) wait({k}); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int k = msg("send", c, d, tag, (long)n * tsz(t)); if(k) wait({k}); return PMPI_Ssend(b, n, t, d, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status* q) { int k = msg("recv", c, d, tag, (long)n * tsz(t)); if(k) wait({k}); return PMPI_Recv(b, n, t, d, tag, c, q); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* q) {
  int k1 = msg("recv", c, s, rtag, (long)rn * tsz(rt)), k2 = msg("send", c, d, stag, (long)sn * tsz(st)); std::vector<int> v; if(k1) v.push_back(k1); if(k2) v.push_back(k2); wait(v);
  return PMPI_Sendrecv(sb, sn, st, d, stag, rb, rn, rt, s, rtag, c, q); }
int MPI_Wait(MPI_Request* q, MPI_Status* s) { jit(); wait(take(1, q)); return PMPI_Wait(q, s); }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) { jit(); wait(take(n, q)); return PMPI_Waitall(n, q, s); }
// completion observed without blocking on a particular request
int MPI_Waitany(int n, MPI_Request* q, int* i, MPI_Status* s) { jit(); std::vector<MPI_Request> o(q, q + n); int e = PMPI_Waitany(n, q, i, s); if(*i != MPI_UNDEFINED) wait(take(1, &o[*i])); return e; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* s) { MPI_Request o = *q; int e = PMPI_Test(q, f, s); if(*f) wait(take(1, &o)); return e; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* s) { std::vector<MPI_Request> o(q, q + n); int e = PMPI_Testall(n, q, f, s); if(*f) wait(take(n, o.data())); return e; }
}
