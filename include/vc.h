// vc.h - the specification vocabulary of the contracts in /verif/contracts.
//
// The same contract source is used twice.  The deductive verifier (cppvc) reads it with clang and gives every function
// in namespace vc its logical meaning (any_* = for all values, require = precondition, check = postcondition,
// sum/forall = mathematical sum / quantifier).  Compiled natively it replays one concrete input against the real code:
// any_* then read the solver's counterexample from a tape (or draw from a seeded generator).
#ifndef CPPVC_VC_H
#define CPPVC_VC_H
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace vc {
struct Discard {};
struct Failed { std::string label; };
struct Ctx {
  std::map<std::string, std::vector<std::vector<double>>> tape_d;
  std::map<std::string, std::vector<std::vector<long long>>> tape_i;
  std::map<std::string, size_t> pos;
  bool use_tape = false;
  std::mt19937_64 rng;
  std::vector<std::string> log;
  std::string fail;
  size_t checks = 0;
  int scale = 0;
};
inline Ctx &ctx() { static Ctx c; return c; }
struct Goal { const char *name; void (*fn)(); };
inline std::vector<Goal> &registry() { static std::vector<Goal> r; return r; }
struct Reg { Reg(const char *n, void (*f)()) { registry().push_back({n, f}); } };
inline void logv(const std::string &name, const std::string &v) { if (ctx().log.size() < 4000) ctx().log.push_back(name + " " + v); }
inline std::string fmt(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
template<class T> inline std::string fmtl(const std::vector<T> &v) { std::string s; for (auto x : v) { if (!s.empty()) s += ' '; if constexpr (std::is_floating_point_v<T>) s += fmt(x); else s += std::to_string((long long) x); } return s; }
inline const std::vector<long long> *tape_i(const char *name) {
  auto &c = ctx(); if (!c.use_tape) return nullptr;
  auto it = c.tape_i.find(name); if (it == c.tape_i.end()) return nullptr;
  size_t &p = c.pos[name]; if (p >= it->second.size()) return nullptr; return &it->second[p++];
}
inline const std::vector<double> *tape_d(const char *name) {
  auto &c = ctx(); if (!c.use_tape) return nullptr;
  auto it = c.tape_d.find(name); if (it == c.tape_d.end()) return nullptr;
  size_t &p = c.pos[name]; if (p >= it->second.size()) return nullptr; return &it->second[p++];
}
inline unsigned long long draw_u(unsigned long long lo, unsigned long long hi) {
  auto &r = ctx().rng;
  unsigned long long span = hi - lo;
  switch (r() % 8) {
    case 0: return lo;
    case 1: return span >= 1 ? lo + 1 : lo;
    case 2: return span <= 64 ? hi : lo + r() % 17;
    case 3: case 4: case 5: { unsigned long long m = span < 6 ? span : 6; return lo + (m == ~0ull ? r() : r() % (m + 1)); }
    case 6: { unsigned long long m = span < 40 ? span : 40; return lo + r() % (m + 1); }
    default: return span > 100000 ? lo + r() % 1000 : lo + r() % (span + 1);
  }
}
inline double draw_d() {
  auto &r = ctx().rng;
  static const double sp[] = {0, 1, -1, 0.5, 2, -2, 0.1, 0.25, 3, -0.5, 1e-3, 10, 100, -1e-3, 1e-6, 1.5};
  auto u = [&] { return (double) (r() >> 11) / 9007199254740992.0; };
  switch (r() % 6) {
    case 0: return sp[r() % 16];
    case 1: return (double) ((long long) (r() % 9) - 4);
    case 2: return u();
    case 3: return -1.0 + 2.0 * u();
    case 4: return 20 * (u() - 0.5);
    default: return std::ldexp(u() - 0.5, (int) (r() % 16) - 8);
  }
}
// ---- inputs: universally quantified -------------------------------------------------------------------------------
inline size_t any_size(const char *name, size_t lo, size_t hi) {
  if (auto *t = tape_i(name)) { logv(name, std::to_string((size_t) (*t)[0])); return (size_t) (*t)[0]; }
  size_t v = draw_u(lo, hi); logv(name, std::to_string(v)); return v;
}
inline long any_int(const char *name, long lo, long hi) {
  if (auto *t = tape_i(name)) { logv(name, std::to_string((*t)[0])); return (long) (*t)[0]; }
  long v = (long) (lo + (long) (ctx().rng() % (unsigned long long) (hi - lo + 1))); logv(name, std::to_string(v)); return v;
}
inline bool any_bool(const char *name) {
  if (auto *t = tape_i(name)) { logv(name, std::to_string((*t)[0])); return (*t)[0] != 0; }
  bool v = ctx().rng() & 1; logv(name, v ? "1" : "0"); return v;
}
// any string (0: the empty one); the verifier treats contents as opaque
inline std::string any_string(const char *name) {
  long k; if (auto *t = tape_i(name)) k = (long) (*t)[0]; else k = (long) (ctx().rng() % 4);
  logv(name, std::to_string(k)); return k == 0 ? std::string() : "s" + std::to_string(k);
}
inline double any_double(const char *name) {
  if (auto *t = tape_d(name)) { logv(name, fmt((*t)[0])); return (*t)[0]; }
  double v = draw_d(); logv(name, fmt(v)); return v;
}
// an arbitrary function (uninterpreted for the verifier; the second one is not negative); not for execution
inline double uf(const char *, double, double) { throw Discard{}; }
inline double uf_nonneg(const char *, double) { throw Discard{}; }
inline std::vector<double> any_doubles(const char *name, size_t n) {
  if (auto *t = tape_d(name)) { std::vector<double> v = *t; v.resize(n, 0.0); logv(name, fmtl(v)); return v; }
  std::vector<double> v(n); for (auto &x : v) x = draw_d(); logv(name, fmtl(v)); return v;
}
inline double draw_unit() { auto &r = ctx().rng; switch (r() % 4) { case 0: return (double) (r() % 8) / 8; case 1: return 1.0 - 1.0 / (double) (1ull << (1 + r() % 50)); default: return (double) (r() >> 11) / 9007199254740992.0; } }
inline std::vector<double> any_units(const char *name, size_t n) {   // in [0, 1)
  if (auto *t = tape_d(name)) { std::vector<double> v = *t; v.resize(n, 0.0); for (auto &x : v) if (x >= 1) x = 1.0 - 1e-16; logv(name, fmtl(v)); return v; }
  std::vector<double> v(n); for (auto &x : v) x = draw_unit(); logv(name, fmtl(v)); return v;
}
inline std::vector<double> any_nonneg(const char *name, size_t n) {
  if (auto *t = tape_d(name)) { std::vector<double> v = *t; v.resize(n, 0.0); logv(name, fmtl(v)); return v; }
  std::vector<double> v(n); for (auto &x : v) x = std::fabs(draw_d()); logv(name, fmtl(v)); return v;
}
inline std::vector<size_t> any_sizes(const char *name, size_t n, size_t lo, size_t hi) {
  std::vector<size_t> v(n, lo);
  if (auto *t = tape_i(name)) { for (size_t i = 0; i < n && i < t->size(); i++) v[i] = (size_t) (*t)[i]; logv(name, fmtl(v)); return v; }
  for (auto &x : v) x = draw_u(lo, hi); logv(name, fmtl(v)); return v;
}
inline std::vector<int> any_ints(const char *name, size_t n, int lo, int hi) {
  std::vector<int> v(n, lo);
  if (auto *t = tape_i(name)) { for (size_t i = 0; i < n && i < t->size(); i++) v[i] = (int) (*t)[i]; logv(name, fmtl(v)); return v; }
  for (auto &x : v) x = lo + (int) (ctx().rng() % (unsigned) (hi - lo + 1)); logv(name, fmtl(v)); return v;
}
// the complex numbers with these parts
inline std::vector<std::complex<double>> complexes(const std::vector<double> &re, const std::vector<double> &im) {
  std::vector<std::complex<double>> v; for (size_t k = 0; k < re.size(); k++) v.push_back({re[k], im[k]}); return v;
}
// every r x c table of numbers
inline std::vector<std::vector<double>> any_table(const char *name, size_t r, size_t c) {
  std::vector<std::vector<double>> t(r, std::vector<double>(c, 0.0)); std::vector<double> flat;
  if (r > 1000 || c > 1000 || r * c > 20000) throw Discard{};
  if (auto *q = tape_d(name)) { for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (i * c + j < q->size()) t[i][j] = (*q)[i * c + j]; }
  else for (auto &row : t) for (auto &x : row) x = draw_d();
  for (auto &row : t) for (auto &x : row) flat.push_back(x);
  logv(name, fmtl(flat)); return t;
}
inline std::vector<std::vector<int>> any_itable(const char *name, size_t r, size_t c, int lo, int hi) {
  std::vector<std::vector<int>> t(r, std::vector<int>(c, lo)); std::vector<int> flat;
  if (r > 1000 || c > 1000 || r * c > 20000) throw Discard{};
  if (auto *q = tape_i(name)) { for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (i * c + j < q->size()) t[i][j] = (int) (*q)[i * c + j]; }
  else for (auto &row : t) for (auto &x : row) x = lo + (int) (ctx().rng() % (unsigned) (hi - lo + 1));
  for (auto &row : t) for (auto &x : row) flat.push_back(x);
  logv(name, fmtl(flat)); return t;
}
inline std::vector<std::vector<size_t>> any_stable(const char *name, size_t r, size_t c, size_t lo, size_t hi) {
  std::vector<std::vector<size_t>> t(r, std::vector<size_t>(c, lo)); std::vector<size_t> flat;
  if (r > 1000 || c > 1000 || r * c > 20000) throw Discard{};
  if (auto *q = tape_i(name)) { for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (i * c + j < q->size()) t[i][j] = (size_t) (*q)[i * c + j]; }
  else for (auto &row : t) for (auto &x : row) x = draw_u(lo, hi);
  for (auto &row : t) for (auto &x : row) flat.push_back(x);
  logv(name, fmtl(flat)); return t;
}
// every object of type T that was allocated with new has been deleted (natively: leak checker)
template<class T> inline bool none_alive(T *) { return true; }
// an element type whose heap objects are counted when the contracts are executed; a plain double for the verifier
#ifdef VC_VERIFY
typedef double Cell;
#else
struct Cell {
  double v;
  Cell() : v(0) {}
  Cell(double x) : v(x) {}
  operator double() const { return v; }
  static long &live() { static long n = 0; return n; }
  static void *operator new(size_t s) { live()++; return ::operator new(s); }
  static void operator delete(void *p) { if (p) live()--; ::operator delete(p); }
};
inline bool none_alive(Cell *) { return Cell::live() == 0; }
#endif
// ---- clauses -----------------------------------------------------------------------------------------------------------
// a generator whose draws are given: std::uniform_real_distribution maps draw k to us[k] exactly
struct Rng {
  std::vector<double> us; size_t pos = 0;
  using result_type = unsigned long long;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  result_type operator()() { double u = us.empty() ? 0.0 : us[pos % us.size()]; pos++; return (result_type) (u * 18446744073709551616.0); }
};
inline void require(bool c) { if (!c) throw Discard{}; }
// inputs too large to execute are skipped when the contract is executed; no meaning for the verifier
inline void tractable(bool c) { if (!c) throw Discard{}; }
inline void check(bool c, const char *label) { ctx().checks++; if (!c) throw Failed{label}; }
// a fact that holds because of an assumed contract on a dependency (listed in the evidence); never checked natively
inline void assume(bool) {}
// ---- spec functions ------------------------------------------------------------------------------------------------------
inline bool close(double a, double b) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  double m = std::fmax(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= 1e-9 * m + 1e-12;
}
inline bool eq(double a, double b) { return close(a, b); }
inline bool eq(const std::complex<double> &a, const std::complex<double> &b) { double m = std::abs(a) + std::abs(b); return std::abs(a - b) <= 1e-9 * m + 1e-12; }
// a <= b up to rounding
inline bool le(double a, double b) { return a <= b || close(a, b); }
template<class F> inline double sum(size_t n, F f) { double s = 0; for (size_t k = 0; k < n; k++) s += f(k); return s; }
template<class F> inline size_t count(size_t n, F f) { size_t s = 0; for (size_t k = 0; k < n; k++) s += f(k) ? 1 : 0; return s; }
template<class F> inline bool forall(size_t n, F f) { for (size_t k = 0; k < n; k++) if (!f(k)) return false; return true; }
template<class F> inline bool exists(size_t n, F f) { for (size_t k = 0; k < n; k++) if (f(k)) return true; return false; }
// check the clauses in f for every k < n
template<class F> inline void each(size_t n, F f) { for (size_t k = 0; k < n; k++) f(k); }
template<class F> inline bool throws(F f) { try { f(); } catch (Discard &) { throw; } catch (Failed &) { throw; } catch (...) { return true; } return false; }
// induction: checks p(0) and p(j) => p(j+1) for every j < n, then p(n) may be used
template<class P> inline void induct(size_t n, P p, const char *label) { for (size_t k = 0; k <= n; k++) check(p(k), label); }
// every input satisfying the preconditions so far reaches here (vacuity cover: proof side asks for one witness)
inline void reach(const char *) {}
// number of heap objects of type T alive (proof: exact ghost; native: counted by the type itself)
}
// a bounded clause: only executed on the real code with generated inputs, never counted as proved
#ifdef VC_VERIFY
#define BGOAL(id) static void vc_bounded_##id()
#else
#define BGOAL(id) GOAL(id)
#endif
#define GOAL(id) namespace goal { void id(); } static vc::Reg vc_reg_##id(#id, goal::id); void goal::id()
#endif
