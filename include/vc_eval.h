// Stand-ins for the contracts on the Monte-Carlo energy and gradient evaluator: the engine delivers a given sequence of
// samples (local energy, amplitude, holes, configuration); tensors are numbers. Verified with one site and one component,
// and with the reported mean energy an arbitrary number (its contract is C14); executed with r x c x d and the real statistics.
#ifndef CPPVC_EVAL_H
#define CPPVC_EVAL_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MONTE_CARLO_ENGINE_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_ENERGY_SOLVER_H
#ifdef VC_VERIFY
#define QLPEPS_VMC_BASIC_MONTE_CARLO_TOOLS_STATISTICS_H
#define QLPEPS_VMC_BASIC_STATISTICS_TENSOR_H
#endif
#include <algorithm>
#include <array>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
struct VcQN {};
namespace vce {
#ifdef VC_VERIFY
inline double sq(double x) { return x * x; }
inline double sq(std::complex<double> x) { return x.real() * x.real() + x.imag() * x.imag(); }
inline double mean_energy = 0, mean_imag = 0, mean_error = 0;
#else
// processes as threads: messages are buffered per (sender, receiver, tag), collective calls meet
struct Deadlock {};
struct Net {
  std::mutex m; std::condition_variable cv; std::map<std::array<int, 3>, std::deque<std::vector<char>>> box;
  int waiting = 0; size_t gen = 0; std::vector<std::vector<char>> part; std::vector<char> all; bool broken = false;
  template<class P> void wait(std::unique_lock<std::mutex> &l, P p) {
    if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return broken || p(); }) || broken) { broken = true; cv.notify_all(); throw Deadlock{}; }
  }
};
inline Net *net = nullptr;
inline void put(int to, int tag, const void *p, size_t n) { std::lock_guard<std::mutex> l(net->m); net->box[{vcmpi::world.rank, to, tag}].push_back(std::vector<char>((const char *) p, (const char *) p + n)); net->cv.notify_all(); }
inline std::vector<char> get(int from, int tag) {
  std::unique_lock<std::mutex> l(net->m); std::array<int, 3> k{from, vcmpi::world.rank, tag};
  net->wait(l, [&] { return !net->box[k].empty(); }); std::vector<char> r = net->box[k].front(); net->box[k].pop_front(); return r;
}
inline std::vector<char> meet(const void *p, size_t n) {
  if (vcmpi::world.size == 1) return std::vector<char>((const char *) p, (const char *) p + n);
  std::unique_lock<std::mutex> l(net->m); Net &w = *net; size_t g = w.gen;
  w.part.resize(vcmpi::world.size); w.part[vcmpi::world.rank].assign((const char *) p, (const char *) p + n);
  if (++w.waiting == vcmpi::world.size) { w.all.clear(); for (auto &q : w.part) w.all.insert(w.all.end(), q.begin(), q.end()); w.waiting = 0; w.gen++; w.cv.notify_all(); }
  else w.wait(l, [&] { return w.gen != g; });
  return w.all;
}
template<class F> bool processes(int n, F f) {
  Net nn; net = &nn; bool bad = false; std::mutex m; std::vector<std::thread> t;
  for (int r = 0; r < n; r++) t.emplace_back([&, r] {
    vcmpi::world.size = n; vcmpi::world.rank = r; vcmpi::threads = true; vcmpi::meet = meet;
    try { f(r); } catch (...) { std::lock_guard<std::mutex> g(m); bad = true; std::lock_guard<std::mutex> h(nn.m); nn.broken = true; nn.cv.notify_all(); } });
  for (auto &x : t) x.join();
  net = nullptr;
  return !bad;
}
inline int Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *counts, const int *displ, int each, int root) {
  size_t w = vcmpi::width(t);
  if (vcmpi::world.rank != root) { put(root, -7, s, n * w); return MPI_SUCCESS; }
  for (int q = 0; q < vcmpi::world.size; q++) {
    std::vector<char> b = q == root ? std::vector<char>((const char *) s, (const char *) s + n * w) : get(q, -7);
    size_t k = std::min(b.size(), (size_t) (counts ? counts[q] : each) * w), off = (size_t) (displ ? displ[q] : q * each) * w;
    if (k) std::memcpy((char *) r + off, b.data(), k);
  }
  return MPI_SUCCESS;
}
inline int Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype, int root, MPI_Comm) { return Gatherv(s, n, t, r, nullptr, nullptr, m, root); }
inline int GatherV(const void *s, int n, MPI_Datatype t, void *r, const int *c, const int *d, MPI_Datatype, int root, MPI_Comm) { return Gatherv(s, n, t, r, c, d, 0, root); }
#endif
}
namespace qlten {
template<class E, class QNT> struct QLTensor {
  E v = E(0);
  bool shaped = false;
  QLTensor() = default;
  explicit QLTensor(int) : shaped(true) {}
  static constexpr bool IsFermionic() { return false; }
  int GetIndexes() const { return 0; }
  void ActFermionPOps() {}
  E GetElem(std::initializer_list<int>) const { return v; }
  QLTensor operator*(E s) const { QLTensor r; r.shaped = shaped; r.v = s * v; return r; }
  QLTensor &operator+=(const QLTensor &o) { v += o.v; shaped = true; return *this; }
  QLTensor &operator*=(E s) { v = s * v; return *this; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r; r.shaped = true; r.v = v + o.v; return r; }
  QLTensor operator-(const QLTensor &o) const { QLTensor r; r.shaped = true; r.v = v - o.v; return r; }
  QLTensor operator-() const { QLTensor r; r.shaped = shaped; r.v = -v; return r; }
#ifndef VC_VERIFY
  void MPI_Send(int to, int tag, const MPI_Comm &) const { vce::put(to, tag, &v, sizeof(E)); }
  void MPI_Recv(int from, int tag, const MPI_Comm &) { std::vector<char> b = vce::get(from, tag); std::memcpy((void *) &v, b.data(), sizeof(E)); shaped = true; }
#endif
};
template<class E, class QNT> QLTensor<E, QNT> operator*(E s, const QLTensor<E, QNT> &t) { return t * s; }
template<class E, class QNT> void LinearCombine(const std::vector<E> &c, const std::vector<QLTensor<E, QNT> *> &t, E, QLTensor<E, QNT> *r) { r->v = E(0); for (size_t k = 0; k < t.size(); k++) r->v += c[k] * t[k]->v; }
template<class T> T Dag(const T &x) { return x; }
template<class A, class B, class C> void Contract(A, std::initializer_list<int>, B, std::initializer_list<int>, C) {}
}
#include "qlpeps/utility/helpers.h"
namespace qlpeps {
using namespace qlten;
struct NoDress {};
template<class E, class QNT> struct BMPSContractor {};
#ifdef VC_VERIFY
template<class T> struct VcSite {
  T t;
  VcSite() = default;
  VcSite &operator=(const std::vector<T> &) { t = T(); return *this; }
  VcSite &operator=(const VcSite &o) = default;
  VcSite(const VcSite &o) = default;
  size_t size() const { return 1; }
  T &operator[](size_t) { return t; }
  const T &operator[](size_t) const { return t; }
};
#endif
template<class E, class QNT> struct SplitIndexTPS {
  using Tensor = QLTensor<E, QNT>;
#ifdef VC_VERIFY
  VcSite<Tensor> s;
  SplitIndexTPS() = default;
  SplitIndexTPS(size_t, size_t) {}
  SplitIndexTPS(size_t, size_t, size_t) {}
  size_t PhysicalDim() const { return 1; }
  VcSite<Tensor> &operator()(const SiteIdx &) { return s; }
  const VcSite<Tensor> &operator()(const SiteIdx &) const { return s; }
  E at(size_t) const { return s.t.v; }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; r.s.t.v += o.s.t.v; return r; }
  SplitIndexTPS operator*(E x) const { SplitIndexTPS r = *this; r.s.t.v = x * r.s.t.v; return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; r.s.t.v -= o.s.t.v; return r; }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { s.t.v += o.s.t.v; return *this; }
  SplitIndexTPS &operator-=(const SplitIndexTPS &o) { s.t.v -= o.s.t.v; return *this; }
  SplitIndexTPS &operator*=(E x) { s.t.v = x * s.t.v; return *this; }
  size_t rows() const { return 1; }
  size_t cols() const { return 1; }
  double NormSquare() const { return vce::sq(s.t.v); }
#else
  using Site = std::vector<Tensor>;
  size_t r_ = 0, c_ = 0;
  std::vector<Site> s;
  SplitIndexTPS() = default;
  SplitIndexTPS(size_t r, size_t c, size_t d = 0) : r_(r), c_(c), s(r * c, Site(d)) {}
  size_t PhysicalDim() const { return s.at(0).size(); }
  Site &operator()(const SiteIdx &p) { return s.at(p[0] * c_ + p[1]); }
  const Site &operator()(const SiteIdx &p) const { return s.at(p[0] * c_ + p[1]); }
  size_t size() const { return s.size() * PhysicalDim(); }
  E at(size_t k) const { return s.at(k / PhysicalDim()).at(k % PhysicalDim()).v; }
  E &at(size_t k) { return s.at(k / PhysicalDim()).at(k % PhysicalDim()).v; }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) += o.at(k); return r; }
  SplitIndexTPS operator*(E x) const { SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) *= x; return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { SplitIndexTPS r = *this; for (size_t k = 0; k < size(); k++) r.at(k) -= o.at(k); return r; }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { return *this = *this + o; }
  SplitIndexTPS &operator-=(const SplitIndexTPS &o) { return *this = *this - o; }
  SplitIndexTPS &operator*=(E x) { return *this = *this * x; }
  size_t rows() const { return r_; }
  size_t cols() const { return c_; }
  double NormSquare() const { double r = 0; for (size_t k = 0; k < size(); k++) r += std::norm(at(k)); return r; }
#endif
};
template<class E, class QNT> SplitIndexTPS<E, QNT> operator*(E x, const SplitIndexTPS<E, QNT> &t) { return t * x; }
template<class E, class QNT> struct TensorNetwork2D {
#ifdef VC_VERIFY
  QLTensor<E, QNT> t;
  TensorNetwork2D(size_t, size_t) {}
  QLTensor<E, QNT> &operator()(const SiteIdx &) { return t; }
#else
  size_t c_ = 0; std::vector<QLTensor<E, QNT>> t;
  TensorNetwork2D(size_t r, size_t c) : c_(c), t(r * c) {}
  QLTensor<E, QNT> &operator()(const SiteIdx &p) { return t.at(p[0] * c_ + p[1]); }
#endif
};
template<class E, class QNT, class D = NoDress, template<class, class> class C = BMPSContractor> struct TPSWaveFunctionComponent {
  E amp = E(1);
  std::vector<size_t> cfg; size_t c_ = 1;
  TensorNetwork2D<E, QNT> tn{1, 1};
  E GetAmplitude() const { return amp; }
  bool IsAmplitudeSquareLegal() const { return true; }
#ifdef VC_VERIFY
  size_t GetConfiguration(const SiteIdx &) const { return 0; }
#else
  size_t GetConfiguration(const SiteIdx &p) const { return cfg.at(p[0] * c_ + p[1]); }
#endif
};
// the samples: number k of this process has energy[k], amplitude[k] (for a state of parameter `state`), holes and configuration
template<class E> struct VcSamples {
  std::vector<E> energy, amp;
#ifdef VC_VERIFY
  std::vector<E> hole; bool same = false;      // same: one amplitude for all samples
#else
  std::vector<std::vector<E>> hole; std::vector<std::vector<size_t>> cfg; std::vector<std::vector<double>> rate;
#endif
};
template<class E, class QNT, class U, template<class, class> class C = BMPSContractor> struct MonteCarloEngine {
  SplitIndexTPS<E, QNT> state; TPSWaveFunctionComponent<E, QNT, NoDress, C> comp; MPI_Comm comm = MPI_COMM_WORLD;
  VcSamples<E> *smp = nullptr; size_t ly = 1, lx = 1, n = 0, next = 0; bool fresh = false;
  int Rank() const { return vcmpi::world.rank; }
  int MpiSize() const { return vcmpi::world.size; }
  size_t Ly() const { return ly; }
  size_t Lx() const { return lx; }
  size_t SamplesPerRank() const { return n; }
  const MPI_Comm &Comm() const { return comm; }
  SplitIndexTPS<E, QNT> &State() { return state; }
  const SplitIndexTPS<E, QNT> &State() const { return state; }
  TPSWaveFunctionComponent<E, QNT, NoDress, C> &WavefuncComp() { return comp; }
  const TPSWaveFunctionComponent<E, QNT, NoDress, C> &WavefuncComp() const { return comp; }
  size_t TotalSamples() const { return n * (size_t) vcmpi::world.size; }
  void AssignState(const SplitIndexTPS<E, QNT> &s) { state = s; fresh = false; }
  void RefreshWavefunctionComponent() { fresh = true; }
  std::vector<double> StepSweep() {
#ifndef VC_VERIFY
    comp.amp = smp->amp.at(next);
    if (!fresh) throw std::runtime_error("sampling with an outdated wave function");
    comp.cfg = smp->cfg.at(next); comp.c_ = lx; next++;
    return smp->rate.at(next - 1);
#else
    if (!smp->same) comp.amp = smp->amp[next];
    next++;
    return std::vector<double>();
#endif
  }
};
template<class E> struct VcSolver {
  VcSamples<E> *smp = nullptr; size_t next = 0; E shift = E(0);
  template<class T, class Q, bool H> E CalEnergyAndHoles(const SplitIndexTPS<T, Q> *, TPSWaveFunctionComponent<T, Q> *, TensorNetwork2D<T, Q> &holes) {
#ifdef VC_VERIFY
    holes.t.v = smp->hole[next];
#else
    for (size_t k = 0; k < holes.t.size(); k++) { holes.t[k].v = smp->hole.at(next).at(k); holes.t[k].shaped = true; }
#endif
    return smp->energy[next++];
  }
  template<class T, class Q> E CalEnergy(const SplitIndexTPS<T, Q> *, TPSWaveFunctionComponent<T, Q> *) { return smp->energy[next++]; }
};
#ifdef VC_VERIFY
inline std::pair<double, double> MeanAndBinnedErrorSqrtNUniformBin(const std::vector<double> &, const MPI_Comm &) { return std::pair<double, double>(vce::mean_energy, vce::mean_error); }
inline std::pair<std::complex<double>, double> MeanAndBinnedErrorSqrtNUniformBin(const std::vector<std::complex<double>> &, const MPI_Comm &) { return std::pair<std::complex<double>, double>(std::complex<double>(vce::mean_energy, vce::mean_imag), vce::mean_error); }
template<class E, class QNT> QLTensor<E, QNT> MPIMeanTensor(const QLTensor<E, QNT> &t, const MPI_Comm &) { return t; }
template<class E, class QNT> void MPI_Bcast(SplitIndexTPS<E, QNT> &, const MPI_Comm &, int = 0) {}
#else
template<class E, class QNT> void MPI_Bcast(SplitIndexTPS<E, QNT> &t, const MPI_Comm &, int root = 0) {
  if (vcmpi::world.size == 1) return;
  if (vcmpi::world.rank == root) { for (int k = 0; k < vcmpi::world.size; k++) if (k != root) for (size_t i = 0; i < t.size(); i++) vce::put(k, -9, &t.at(i), sizeof(E)); }
  else for (size_t i = 0; i < t.size(); i++) { std::vector<char> b = vce::get(root, -9); std::memcpy((void *) &t.at(i), b.data(), sizeof(E)); }
}
#endif
}
#ifndef VC_VERIFY
#define MPI_Gather vce::Gather
#define MPI_Gatherv vce::GatherV
#include <chrono>
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#endif
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
#endif
