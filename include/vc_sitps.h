// Stand-in for SplitIndexTPS in the contracts on code that is generic in the vector space of variational parameters:
// every tensor is one number. The verifier reads it with one component; executed, it has rows x cols x d components.
#ifndef CPPVC_SITPS_H
#define CPPVC_SITPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#include <algorithm>
#include <array>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
struct VcQN {};
namespace qlten {
template<class E, class QNT> struct QLTensor {
  E v = E(0);
  QLTensor() = default;
  QLTensor(int) {}
  int GetIndexes() const { return 0; }
  QNT Div() const { return QNT(); }
  void Fill(const QNT &, E x) { v = x; }
  QLTensor operator-() const { QLTensor r; r.v = -v; return r; }
  QLTensor &operator+=(const QLTensor &o) { v += o.v; return *this; }
  QLTensor operator*(E s) const { QLTensor r; r.v = v * s; return r; }
};
template<class E, class QNT> QLTensor<E, QNT> ElementWiseMultiply(const QLTensor<E, QNT> &a, const QLTensor<E, QNT> &b) { QLTensor<E, QNT> r; r.v = a.v * b.v; return r; }
template<class T> T Dag(const T &x) { return x; }
template<class A, class B, class C> void Contract(A, std::initializer_list<int>, B, std::initializer_list<int>, C) {}
}
#include "qlpeps/utility/helpers.h"
namespace qlpeps {
using namespace qlten;
inline double vc_conj(double x) { return x; }
inline std::complex<double> vc_conj(std::complex<double> x) { return std::conj(x); }
inline double vc_re(double x) { return x; }
inline double vc_re(std::complex<double> x) { return x.real(); }
template<class E, class QNT> struct SplitIndexTPS {
  using Tensor = qlten::QLTensor<E, QNT>;
#ifdef VC_VERIFY
  struct Site {
    Tensor t;
    size_t size() const { return 1; }
    Tensor &operator[](size_t) { return t; }
    const Tensor &operator[](size_t) const { return t; }
  };
  size_t n = 0;
  Site s;
  SplitIndexTPS() = default;
  SplitIndexTPS(size_t, size_t, size_t) : n(1) {}
  static SplitIndexTPS of(E x) { SplitIndexTPS r(1, 1, 1); r.s.t.v = x; return r; }
  size_t rows() const { return n; }
  size_t cols() const { return n; }
  size_t PhysicalDim() const { return n; }
  Site &operator()(const SiteIdx &) { return s; }
  const Site &operator()(const SiteIdx &) const { return s; }
  template<class F> void each(F f) { f(s.t.v, s.t.v); }
  E at(size_t) const { return s.t.v; }
  size_t size() const { return 1; }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; r.s.t.v += o.s.t.v; return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; r.s.t.v -= o.s.t.v; return r; }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { s.t.v += o.s.t.v; return *this; }
  SplitIndexTPS operator*(E x) const { SplitIndexTPS r = *this; r.s.t.v = x * r.s.t.v; return r; }
  SplitIndexTPS &operator*=(E x) { s.t.v *= x; return *this; }
  E operator*(const SplitIndexTPS &o) const { return vc_conj(s.t.v) * o.s.t.v; }
  double NormSquare() const { return vc_re(vc_conj(s.t.v) * s.t.v); }
#else
  using Site = std::vector<Tensor>;
  size_t r_ = 0, c_ = 0, d_ = 0;
  std::vector<Site> s;
  SplitIndexTPS() = default;
  SplitIndexTPS(size_t r, size_t c, size_t d) : r_(r), c_(c), d_(d), s(r * c, Site(d)) {}
  static SplitIndexTPS of(E x) { SplitIndexTPS r(1, 1, 1); r.s[0][0].v = x; return r; }
  static SplitIndexTPS of(const std::vector<E> &x) { SplitIndexTPS r(1, 1, x.size()); for (size_t k = 0; k < x.size(); k++) r.s[0][k].v = x[k]; return r; }
  size_t rows() const { return r_; }
  size_t cols() const { return c_; }
  size_t PhysicalDim() const { return d_; }
  Site &operator()(const SiteIdx &p) { return s.at(p[0] * c_ + p[1]); }
  const Site &operator()(const SiteIdx &p) const { return s.at(p[0] * c_ + p[1]); }
  E at(size_t k) const { return s.at(k / d_).at(k % d_).v; }
  E &at(size_t k) { return s.at(k / d_).at(k % d_).v; }
  size_t size() const { return r_ * c_ * d_; }
  void match(const SplitIndexTPS &o) const { if (r_ != o.r_ || c_ != o.c_ || d_ != o.d_) throw std::runtime_error("shapes differ"); }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { match(o); SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) += o.at(k); return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { match(o); SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) -= o.at(k); return r; }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { return *this = *this + o; }
  SplitIndexTPS operator*(E x) const { SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) *= x; return r; }
  SplitIndexTPS &operator*=(E x) { return *this = *this * x; }
  E operator*(const SplitIndexTPS &o) const { match(o); E r(0); for (size_t k = 0; k < size(); k++) r += vc_conj(at(k)) * o.at(k); return r; }
  double NormSquare() const { return vc_re(*this * *this); }
#endif
  void ElementWiseClipTo(double) {}
  void ElementWiseBoundTo(double) {}
  void ClipByGlobalNorm(double) {}
  bool Dump(const std::string &) { return true; }
};
template<class E, class QNT> SplitIndexTPS<E, QNT> operator*(E x, const SplitIndexTPS<E, QNT> &t) { return t * x; }
#ifndef VC_VERIFY
template<class QNT> SplitIndexTPS<std::complex<double>, QNT> operator*(double x, const SplitIndexTPS<std::complex<double>, QNT> &t) { return t * std::complex<double>(x); }
#endif
inline double vc_inv(double x, double eps) { return std::abs(x) > eps ? 1.0 / x : 0.0; }
#ifdef VC_VERIFY
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseSquaredNorm(const SplitIndexTPS<E, QNT> &t) { SplitIndexTPS<E, QNT> r = t; r.s.t.v = vc_re(vc_conj(t.s.t.v) * t.s.t.v); return r; }
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseSqrt(const SplitIndexTPS<E, QNT> &t) { SplitIndexTPS<E, QNT> r = t; r.s.t.v = std::sqrt(vc_re(t.s.t.v)); return r; }
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseInverse(const SplitIndexTPS<E, QNT> &t, double eps) { SplitIndexTPS<E, QNT> r = t; r.s.t.v = vc_inv(vc_re(t.s.t.v), eps); return r; }
#else
template<class E, class QNT, class F> SplitIndexTPS<E, QNT> vc_map(const SplitIndexTPS<E, QNT> &t, F f) { SplitIndexTPS<E, QNT> r = t; for (size_t k = 0; k < t.size(); k++) r.at(k) = f(t.at(k)); return r; }
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseSquaredNorm(const SplitIndexTPS<E, QNT> &t) { return vc_map(t, [](E x) { return E(std::norm(x)); }); }
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseSqrt(const SplitIndexTPS<E, QNT> &t) { return vc_map(t, [](E x) { return E(std::sqrt(vc_re(x))); }); }
template<class E, class QNT> SplitIndexTPS<E, QNT> ElementWiseInverse(const SplitIndexTPS<E, QNT> &t, double eps) { return vc_map(t, [&](E x) { return E(vc_inv(vc_re(x), eps)); }); }
// processes as threads: blocking messages (a send returns when the message has been received), collective calls meet
struct VcDeadlock {};
struct VcNet {
  std::mutex m; std::condition_variable cv;
  std::map<std::pair<int, int>, std::vector<const void *>> pending;
  std::map<std::pair<int, int>, size_t> taken, posted;
  int waiting = 0; size_t gen = 0; std::vector<std::vector<char>> part; std::vector<char> all;
  bool broken = false;
  template<class P> void wait(std::unique_lock<std::mutex> &l, P p) {
    if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return broken || p(); }) || broken) { broken = true; cv.notify_all(); throw VcDeadlock{}; }
  }
};
inline VcNet *vc_net = nullptr;
template<class T> void vc_send(const T &x, int to) {
  std::unique_lock<std::mutex> l(vc_net->m); std::pair<int, int> k(vcmpi::world.rank, to);
  vc_net->pending[k].push_back(&x); size_t mine = ++vc_net->posted[k]; vc_net->cv.notify_all();
  vc_net->wait(l, [&] { return vc_net->taken[k] >= mine; });
}
template<class T> void vc_recv(T &x, int from) {
  std::unique_lock<std::mutex> l(vc_net->m); std::pair<int, int> k(from, vcmpi::world.rank);
  if (from == MPI_ANY_SOURCE) vc_net->wait(l, [&] { for (int q = 0; q < vcmpi::world.size; q++) if (!vc_net->pending[{q, vcmpi::world.rank}].empty()) { k.first = q; return true; } return false; });
  vc_net->wait(l, [&] { return !vc_net->pending[k].empty(); });
  x = *(const T *) vc_net->pending[k].front(); vc_net->pending[k].erase(vc_net->pending[k].begin());
  vc_net->taken[k]++; vc_net->cv.notify_all();
}
// every process contributes its bytes and gets all of them in the order of the ranks
inline std::vector<char> vc_meet(const void *p, size_t n) {
  if (vcmpi::world.size == 1) return std::vector<char>((const char *) p, (const char *) p + n);
  std::unique_lock<std::mutex> l(vc_net->m); VcNet &w = *vc_net; size_t g = w.gen;
  w.part.resize(vcmpi::world.size); w.part[vcmpi::world.rank].assign((const char *) p, (const char *) p + n);
  if (++w.waiting == vcmpi::world.size) { w.all.clear(); for (auto &q : w.part) w.all.insert(w.all.end(), q.begin(), q.end()); w.waiting = 0; w.gen++; w.cv.notify_all(); }
  else w.wait(l, [&] { return w.gen != g; });
  return w.all;
}
template<class F> bool vc_processes(int n, F f) {      // f(rank) on n processes; false: some process never finished its communication
  VcNet net; vc_net = &net; bool dead = false; std::mutex m; std::vector<std::thread> t; std::string err;
  for (int r = 0; r < n; r++) t.emplace_back([&, r] {
    vcmpi::world.size = n; vcmpi::world.rank = r; vcmpi::threads = true; vcmpi::meet = vc_meet;
    try { f(r); } catch (VcDeadlock &) { std::lock_guard<std::mutex> g(m); dead = true; }
    catch (...) { std::lock_guard<std::mutex> g(m); err = "exception"; std::lock_guard<std::mutex> h(net.m); net.broken = true; net.cv.notify_all(); } });
  for (auto &x : t) x.join();
  vc_net = nullptr; return !dead && err.empty();
}
#endif
template<class E, class QNT> void MPI_Send(const SplitIndexTPS<E, QNT> &t, int to, const MPI_Comm &, int = 0)
#ifdef VC_VERIFY
;
#else
{ vc_send(t, to); }
#endif
template<class E, class QNT> MPI_Status MPI_Recv(SplitIndexTPS<E, QNT> &t, int from, const MPI_Comm &, int = 0)
#ifdef VC_VERIFY
;
#else
{ vc_recv(t, from); return MPI_Status{from, 0, 0}; }
#endif
#ifdef VC_VERIFY
template<class E, class QNT> void MPI_Bcast(SplitIndexTPS<E, QNT> &, const MPI_Comm &, int = 0);
#else
template<class E, class QNT> void MPI_Bcast(SplitIndexTPS<E, QNT> &t, const MPI_Comm &, int root = 0) {
  if (vcmpi::world.size == 1) return;
  if (vcmpi::world.rank == root) { for (int k = 0; k < vcmpi::world.size; k++) if (k != root) vc_send(t, k); } else vc_recv(t, root);
}
#endif
}
#endif
