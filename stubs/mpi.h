// A stand-in for MPI in the contracts: the calling process sees a communicator of `size` processes, of which it is `rank`.
// What the other processes contribute to a collective is given by the contract (arbitrary).  Only the calls below exist.
#ifndef CPPVC_STUB_MPI_H
#define CPPVC_STUB_MPI_H
#include <algorithm>
#include <vector>
#include <cstddef>
#include <type_traits>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; };
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_INT 1
#define MPI_DOUBLE 2
#define MPI_CXX_DOUBLE_COMPLEX 3
#define MPI_UNSIGNED_LONG_LONG 4
#define MPI_UNSIGNED_LONG 5
#define MPI_CHAR 6
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_BOR 3
#define MPI_ANY_SOURCE (-1)
#define MPI_DATATYPE_NULL 0
namespace vcmpi {
struct World { int size = 1; int rank = 0; };
#ifdef VC_VERIFY
inline World world;
#else
inline thread_local World world;
inline thread_local bool threads = false;      // the processes are threads that meet in collective calls
inline std::vector<char> (*meet)(const void *, size_t) = nullptr;
#endif
}
inline int MPI_Comm_rank(MPI_Comm, int *rank) { *rank = vcmpi::world.rank; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int *size) { *size = vcmpi::world.size; return MPI_SUCCESS; }
inline int MPI_Barrier(MPI_Comm) { return MPI_SUCCESS; }
inline int MPI_Abort(MPI_Comm, int) { throw 1; }
// a message leaves the caller and is what the next receive (or broadcast on another rank) delivers
#ifndef VC_VERIFY
#include <cstring>
namespace vcmpi {
inline std::vector<char> box;
template<class T> inline void post(const T *p, int n) { box.assign((const char *) p, (const char *) (p + n)); }
template<class T> inline void deliver(T *p, int n) { std::memcpy(p, box.data(), std::min(box.size(), sizeof(T) * (size_t) n)); }
}
// a journal of broadcasts: the root runs first, every other process replays the journal from its beginning
namespace vcmpi {
struct Mismatch {};
inline bool journal = false;
inline std::vector<std::vector<char>> sent;
inline size_t cursor = 0;
}
template<class T> inline int MPI_Bcast(T *p, int n, MPI_Datatype, int root, MPI_Comm) {
  if (vcmpi::threads) { size_t k = sizeof(T) * (size_t) n; std::vector<char> all = vcmpi::meet(p, k); std::memcpy((void *) p, all.data() + k * root, k); return MPI_SUCCESS; }
  if (vcmpi::journal) {
    size_t k = sizeof(T) * (size_t) n;
    if (vcmpi::world.rank == root) vcmpi::sent.push_back(std::vector<char>((const char *) p, (const char *) p + k));
    else if (vcmpi::cursor >= vcmpi::sent.size() || vcmpi::sent[vcmpi::cursor].size() != k) throw vcmpi::Mismatch{};
    else { std::memcpy((void *) p, vcmpi::sent[vcmpi::cursor].data(), k); vcmpi::cursor++; }
  } else if (vcmpi::world.rank == root) vcmpi::post(p, n);
  else vcmpi::deliver(p, n);
  return MPI_SUCCESS;
}
template<class T> inline int MPI_Send(const T *p, int n, MPI_Datatype, int, int, MPI_Comm) { vcmpi::post(p, n); return MPI_SUCCESS; }
template<class T> inline int MPI_Recv(T *p, int n, MPI_Datatype, int, int, MPI_Comm, MPI_Status *) { vcmpi::deliver(p, n); return MPI_SUCCESS; }
template<class T, class U> inline int MPI_Sendrecv(const T *p, int n, MPI_Datatype, int, int, U *q, int m, MPI_Datatype, int, int, MPI_Comm, MPI_Status *) { std::vector<char> in = vcmpi::box; vcmpi::post(p, n); std::swap(in, vcmpi::box); vcmpi::deliver(q, m); vcmpi::box = in; return MPI_SUCCESS; }
// gathering: every other process runs first and posts its part, the root runs last and collects the parts in order
#include <deque>
namespace vcmpi {
inline std::vector<std::deque<std::vector<char>>> parts(64);
inline size_t width(MPI_Datatype t) { return t == MPI_INT ? 4 : t == MPI_CHAR ? 1 : t == MPI_CXX_DOUBLE_COMPLEX ? 16 : 8; }
inline void collect(const void *own, int n, MPI_Datatype t, void *to, const int *counts, const int *displ, int each) {
  for (int i = 0; i < world.size; i++) {
    size_t k = (size_t) (counts ? counts[i] : each) * width(t), off = (size_t) (displ ? displ[i] : i * each) * width(t);
    const char *src = (const char *) own;
    std::vector<char> b;
    if (i != world.rank) { b = parts[i].front(); parts[i].pop_front(); src = b.data(); if (b.size() < k) k = b.size(); }
    if (k) std::memcpy((char *) to + off, src, k);
  }
}
}
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm) {
  if (vcmpi::world.rank == root) vcmpi::collect(s, n, u, r, nullptr, nullptr, m);
  else vcmpi::parts[vcmpi::world.rank].push_back(std::vector<char>((const char *) s, (const char *) s + n * vcmpi::width(t)));
  return MPI_SUCCESS;
}
inline int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *counts, const int *displ, MPI_Datatype u, int root, MPI_Comm) {
  if (vcmpi::world.rank == root) vcmpi::collect(s, n, u, r, counts, displ, 0);
  else vcmpi::parts[vcmpi::world.rank].push_back(std::vector<char>((const char *) s, (const char *) s + n * vcmpi::width(t)));
  return MPI_SUCCESS;
}
template<class T, class U> inline int MPI_Allgather(const T *p, int n, MPI_Datatype, U *q, int, MPI_Datatype, MPI_Comm) {
  if (!vcmpi::threads) { std::memcpy((void *) q, p, sizeof(T) * n); return MPI_SUCCESS; }
  std::vector<char> all = vcmpi::meet(p, sizeof(T) * n); std::memcpy((void *) q, all.data(), all.size()); return MPI_SUCCESS;
}
template<class T> inline int MPI_Allreduce(const T *p, T *q, int n, MPI_Datatype, MPI_Op op, MPI_Comm) {
  std::vector<char> all = vcmpi::threads ? vcmpi::meet(p, sizeof(T) * n) : std::vector<char>((const char *) p, (const char *) (p + n));
  size_t m = all.size() / sizeof(T) / n;
  for (int i = 0; i < n; i++) { T s = ((const T *) all.data())[i]; for (size_t r = 1; r < m; r++) { T x = ((const T *) all.data())[r * n + i]; if (op == MPI_SUM) s += x; else if (op == MPI_BOR) { if constexpr (std::is_integral_v<T>) s |= x; } else if (x > s) s = x; } q[i] = s; }
  return MPI_SUCCESS;
}
template<class T> inline int MPI_Reduce(const T *p, T *q, int n, MPI_Datatype, MPI_Op, int root, MPI_Comm) {
  std::vector<char> all = vcmpi::threads ? vcmpi::meet(p, sizeof(T) * n) : std::vector<char>((const char *) p, (const char *) (p + n));
  if (vcmpi::world.rank == root) for (int i = 0; i < n; i++) { T s(0); for (int r = 0; r < vcmpi::world.size; r++) s += ((const T *) all.data())[r * n + i]; q[i] = s; }
  return MPI_SUCCESS;
}
#else
template<class T> int MPI_Allgather(const T *p, int n, MPI_Datatype, T *q, int, MPI_Datatype, MPI_Comm) { for (int i = 0; i < n; i++) q[i] = p[i]; return MPI_SUCCESS; }   // one process
template<class T> int MPI_Allreduce(const T *, T *, int, MPI_Datatype, MPI_Op, MPI_Comm);
template<class T> int MPI_Reduce(const T *p, T *q, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { *q = *p; return MPI_SUCCESS; }   // one process, one value
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
namespace vcmpi { template<class T> void received(T *); }      // no body: outside the verifier's reach
template<class T> int MPI_Bcast(T *p, int, MPI_Datatype, int root, MPI_Comm) { if (vcmpi::world.rank != root) vcmpi::received(p); return MPI_SUCCESS; }
template<class T> int MPI_Send(const T *, int, MPI_Datatype, int, int, MPI_Comm);
template<class T> int MPI_Recv(T *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
template<class T, class U> int MPI_Sendrecv(const T *, int, MPI_Datatype, int, int, U *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
#endif
#endif
