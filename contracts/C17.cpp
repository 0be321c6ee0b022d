// C17: the conjugate gradient solver: what each termination reason guarantees, and the master/slave protocol of the parallel solver.
#include "vc.h"
#include <cassert>
#include <cstring>
#include "qlpeps/utility/conjugate_gradient_solver.h"
using namespace qlpeps;

namespace two {
struct V {
  double a, b;
  double NormSquare() const { return a * a + b * b; }
  V operator+(const V &o) const { return V{a + o.a, b + o.b}; }
  V operator-(const V &o) const { return V{a - o.a, b - o.b}; }
  V &operator+=(const V &o) { a += o.a; b += o.b; return *this; }
  double operator*(const V &o) const { return a * o.a + b * o.b; }
};
inline V operator*(double s, const V &v) { return V{s * v.a, s * v.b}; }
struct M {
  double aa, ab, ba, bb;
  V operator*(const V &v) const { return V{aa * v.a + ab * v.b, ba * v.a + bb * v.b}; }
};
}
// vectors of which only linearity is known: the inner product and the norm are arbitrary functions for the verifier
namespace abst {
struct V {
  double v;
#ifdef VC_VERIFY
  double NormSquare() const { return vc::uf_nonneg("norm", v); }
  double operator*(const V &o) const { return vc::uf("dot", v, o.v); }
#else
  double NormSquare() const { return v * v; }
  double operator*(const V &o) const { return v * o.v; }
#endif
  V operator+(const V &o) const { return V{v + o.v}; }
  V operator-(const V &o) const { return V{v - o.v}; }
  V &operator+=(const V &o) { v += o.v; return *this; }
};
inline V operator*(double s, const V &v) { return V{s * v.v}; }
inline void MPI_Bcast(V &, const MPI_Comm &) {}
inline void MPI_Send(const V &, int, const MPI_Comm &, int) {}
inline MPI_Status MPI_Recv(V &, int, const MPI_Comm &, int) { return MPI_Status{0, 0, 0}; }
struct M { double a; V operator*(const V &v) const { return V{a * v.v}; } };
}
typedef two::V V;
typedef two::M M;
#define SYSTEM M A{vc::any_double("aa"), vc::any_double("ab"), vc::any_double("ba"), vc::any_double("bb")}; \
  V b{vc::any_double("b1"), vc::any_double("b2")}, x0{vc::any_double("x1"), vc::any_double("x2")}; \
  ConjugateGradientParams pr; pr.max_iter = vc::any_size("max_iter", 0, 100000); pr.relative_tolerance = vc::any_double("rel"); \
  pr.absolute_tolerance = vc::any_double("abs"); pr.residual_recompute_interval = (int) vc::any_int("every", 0, 1000); pr.orthogonality_threshold = vc::any_double("orth"); \
  vc::require(pr.relative_tolerance >= 0 && pr.absolute_tolerance >= 0); vc::tractable(pr.max_iter <= 60); \
  V r0 = b - A * x0; double n0 = r0.NormSquare(); \
  double tol2 = std::max(pr.relative_tolerance * pr.relative_tolerance * b.NormSquare(), pr.absolute_tolerance * pr.absolute_tolerance); \
  vc::tractable(std::isfinite(n0) && std::isfinite(tol2));

#define ABSTRACT abst::M A{vc::any_double("a")}; abst::V b{vc::any_double("b")}, x0{vc::any_double("x")}; \
  ConjugateGradientParams pr; pr.max_iter = vc::any_size("max_iter", 0, 100000); pr.relative_tolerance = vc::any_double("rel"); \
  pr.absolute_tolerance = vc::any_double("abs"); pr.residual_recompute_interval = (int) vc::any_int("every", 0, 1000); pr.orthogonality_threshold = vc::any_double("orth"); \
  vc::require(pr.relative_tolerance >= 0 && pr.absolute_tolerance >= 0); vc::tractable(pr.max_iter <= 60); \
  double n0 = (b - A * x0).NormSquare(); \
  double tol2 = std::max(pr.relative_tolerance * pr.relative_tolerance * b.NormSquare(), pr.absolute_tolerance * pr.absolute_tolerance); \
  vc::tractable(std::isfinite(n0) && std::isfinite(tol2));

GOAL(within_tolerance_at_once) {
  SYSTEM
  vc::require(n0 <= tol2);
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(r.x.a == x0.a && r.x.b == x0.b, "the initial guess is returned unchanged");
  vc::check(r.iterations == 0 && r.reason == CGTerminationReason::kConverged && r.converged(), "converged without an iteration");
  vc::check(vc::eq(r.residual_norm * r.residual_norm, n0), "with its residual");
}
GOAL(no_iterations_allowed) {
  SYSTEM
  pr.max_iter = 0;
  vc::require(n0 > tol2);
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(r.x.a == x0.a && r.x.b == x0.b && r.iterations == 0 && r.reason == CGTerminationReason::kMaxIterations && !r.converged(), "the guess comes back, not converged");
  vc::check(vc::eq(r.residual_norm * r.residual_norm, n0), "with its residual");
}
GOAL(no_curvature) {
  SYSTEM
  vc::require(n0 > tol2 && pr.max_iter > 0);
  vc::require(r0 * (A * r0) <= 0);
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(r.x.a == x0.a && r.x.b == x0.b && r.iterations == 0 && r.reason == CGTerminationReason::kIndefiniteMatrix, "a direction without positive curvature ends the solve at the best iterate");
}
//!opt reasons timeout=40
//!opt parallel_reasons timeout=40
GOAL(reasons) {
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(r.iterations <= pr.max_iter, "never more iterations than allowed");
  vc::check(r.converged() == (r.reason == CGTerminationReason::kConverged), "converged() is the reason");
  vc::check(r.reason != CGTerminationReason::kMaxIterations || r.iterations == pr.max_iter, "the iteration limit was reached");
  vc::check(r.reason != CGTerminationReason::kStagnated || r.iterations >= 3, "stagnation needs three steps");
  vc::check(r.residual_norm >= 0, "a norm is not negative");
  vc::check(!(r.residual_norm * r.residual_norm > n0 && !vc::close(r.residual_norm * r.residual_norm, n0)), "never worse than the initial guess");
}
GOAL(converged_means_within_tolerance) {
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(!r.converged() || vc::le(r.residual_norm * r.residual_norm, tol2), "the reported residual is within the tolerance");
}
GOAL(not_converged_means_outside) {
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(r.converged() || vc::le(tol2, r.residual_norm * r.residual_norm), "an unconverged result is outside the tolerance");
}
GOAL(residual_is_true) {
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr);
#ifndef VC_VERIFY
  double m = std::abs(b.v) + std::abs(A.a * x0.v);
  vc::tractable(std::abs((b - A * r.x).v) > 1e-9 * m && r.residual_norm > 1e-9 * m);
#endif
  vc::check(vc::eq(r.residual_norm * r.residual_norm, (b - A * r.x).NormSquare()), "the reported residual is that of the returned vector");
}
// the parallel solver, one process
GOAL(parallel_reasons) {
  vcmpi::world.size = 1; vcmpi::world.rank = 0;
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr, MPI_Comm(1));
  vc::check(r.iterations <= pr.max_iter, "never more iterations than allowed");
  vc::check(r.converged() == (r.reason == CGTerminationReason::kConverged), "converged() is the reason");
  vc::check(r.reason != CGTerminationReason::kMaxIterations || r.iterations == pr.max_iter, "the iteration limit was reached");
  vc::check(r.reason != CGTerminationReason::kStagnated || r.iterations >= 3, "stagnation needs three steps");
  vc::check(r.residual_norm >= 0, "a norm is not negative");
  vc::check(!(r.residual_norm * r.residual_norm > n0 && !vc::close(r.residual_norm * r.residual_norm, n0)), "never worse than the initial guess");
}
GOAL(parallel_converged_means_within_tolerance) {
  vcmpi::world.size = 1; vcmpi::world.rank = 0;
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr, MPI_Comm(1));
  vc::check(!r.converged() || vc::le(r.residual_norm * r.residual_norm, tol2), "the reported residual is within the tolerance");
}
GOAL(parallel_not_converged_means_outside) {
  vcmpi::world.size = 1; vcmpi::world.rank = 0;
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr, MPI_Comm(1));
  vc::check(r.converged() || vc::le(tol2, r.residual_norm * r.residual_norm), "an unconverged result is outside the tolerance");
}
GOAL(parallel_residual_is_true) {
  vcmpi::world.size = 1; vcmpi::world.rank = 0;
  ABSTRACT
  auto r = ConjugateGradientSolver(A, b, x0, pr, MPI_Comm(1));
#ifndef VC_VERIFY
  double m = std::abs(b.v) + std::abs(A.a * x0.v);
  vc::tractable(std::abs((b - A * r.x).v) > 1e-9 * m && r.residual_norm > 1e-9 * m);
#endif
  vc::check(vc::eq(r.residual_norm * r.residual_norm, (b - A * r.x).NormSquare()), "the reported residual is that of the returned vector");
}
GOAL(one_step) {
  ABSTRACT
  pr.max_iter = 1; pr.absolute_tolerance = 0; pr.relative_tolerance = 0; pr.residual_recompute_interval = 0;
  abst::V r0 = b - A * x0, ap = A * r0;
  double pap = r0 * ap;
  vc::require(n0 > 0 && pap > 0);
#ifndef VC_VERIFY
  vc::tractable(n0 > 1e-12 && n0 < 1e12 && pap > 1e-9 && pap < 1e15);
#endif
  double alpha = n0 / pap;
  abst::V x1 = x0 + alpha * r0;
  double n1 = (r0 - alpha * ap).NormSquare();
  auto r = ConjugateGradientSolver(A, b, x0, pr);
  vc::check(!(n1 < 0.999 * n0) || vc::eq(r.x.v, x1.v), "one step is the exact line search along the residual");
  vc::check(!(n1 > 1.001 * n0) || r.x.v == x0.v, "a step that made it worse is not returned");
}
GOAL(names) {
  static const CGTerminationReason R[5] = {CGTerminationReason::kConverged, CGTerminationReason::kMaxIterations, CGTerminationReason::kIndefiniteMatrix, CGTerminationReason::kNumericalBreakdown, CGTerminationReason::kStagnated};
  vc::check(std::string(to_string(R[0])) == "kConverged" && std::string(to_string(R[1])) == "kMaxIterations" && std::string(to_string(R[2])) == "kIndefiniteMatrix"
            && std::string(to_string(R[3])) == "kNumericalBreakdown" && std::string(to_string(R[4])) == "kStagnated", "every reason has its own name");
}

#ifndef VC_VERIFY
namespace many {
static const size_t N = 5;
template<class T> struct Vec {
  T e[N];
  double NormSquare() const { double s = 0; for (auto &x : e) s += std::norm(x); return s; }
  Vec operator+(const Vec &o) const { Vec r; for (size_t i = 0; i < N; i++) r.e[i] = e[i] + o.e[i]; return r; }
  Vec operator-(const Vec &o) const { Vec r; for (size_t i = 0; i < N; i++) r.e[i] = e[i] - o.e[i]; return r; }
  Vec &operator+=(const Vec &o) { for (size_t i = 0; i < N; i++) e[i] += o.e[i]; return *this; }
  T operator*(const Vec &o) const { T s = 0; for (size_t i = 0; i < N; i++) { if constexpr (std::is_same_v<T, double>) s += e[i] * o.e[i]; else s += std::conj(e[i]) * o.e[i]; } return s; }
  Vec operator-() const { Vec r; for (size_t i = 0; i < N; i++) r.e[i] = -e[i]; return r; }
};
template<class T> inline Vec<T> operator*(T s, const Vec<T> &v) { Vec<T> r; for (size_t i = 0; i < N; i++) r.e[i] = s * v.e[i]; return r; }
inline Vec<std::complex<double>> operator*(double s, const Vec<std::complex<double>> &v) { return std::complex<double>(s) * v; }
struct Poison {};
template<class T> struct Mat {
  T m[N][N];
  size_t poison_after = 0; mutable size_t calls = 0;
  Vec<T> operator*(const Vec<T> &v) const {
    Vec<T> r;
    for (size_t i = 0; i < N; i++) { r.e[i] = 0; for (size_t j = 0; j < N; j++) r.e[i] += m[i][j] * v.e[j]; }
    calls++;
    if (poison_after && calls > poison_after) r.e[0] = std::numeric_limits<double>::infinity();
    return r;
  }
};
// the other processes of the parallel solver: what each of them holds, what it answered
inline std::vector<Mat<double>> parts; inline std::vector<Mat<std::complex<double>>> cparts;
inline Vec<double> last; inline Vec<std::complex<double>> clast;
inline std::vector<std::vector<Vec<double>>> given; inline std::vector<std::vector<Vec<std::complex<double>>>> cgiven;
inline size_t next_source = 0, sends = 0; inline bool answers_agree = true;
template<class T> auto &parts_of() { if constexpr (std::is_same_v<T, double>) return parts; else return cparts; }
template<class T> auto &last_of() { if constexpr (std::is_same_v<T, double>) return last; else return clast; }
template<class T> auto &given_of() { if constexpr (std::is_same_v<T, double>) return given; else return cgiven; }
template<class T> inline void MPI_Bcast(Vec<T> &v, const MPI_Comm &c) { ::MPI_Bcast(&v, 1, MPI_DOUBLE, 0, c); last_of<T>() = v; next_source = 0; }
template<class T> inline void MPI_Send(const Vec<T> &v, int dest, const MPI_Comm &, int tag) {
  auto &g = given_of<T>()[vcmpi::world.rank];
  if (dest != 0 || tag != 0 || sends >= g.size() || std::memcmp(&g[sends], &v, sizeof v) != 0) answers_agree = false;
  sends++;
}
template<class T> inline MPI_Status MPI_Recv(Vec<T> &v, int, const MPI_Comm &, int) {
  // any order of arrival: from the last process to the first
  int n = vcmpi::world.size, src = n - 1 - (int) (next_source++ % (size_t) (n - 1));
  v = parts_of<T>()[src] * last_of<T>();
  given_of<T>()[src].push_back(v);
  return MPI_Status{src, 0, 0};
}
}
template<class T> static T draw(const char *re, const char *im, long lo, long hi) {
  double r = (double) vc::any_int(re, lo, hi);
  if constexpr (std::is_same_v<T, double>) return r; else return T(r, (double) vc::any_int(im, lo, hi));
}
template<class T> static T cj(T v) { if constexpr (std::is_same_v<T, double>) return v; else return std::conj(v); }
// self-adjoint, diagonally dominant: well conditioned
template<class T> static many::Mat<T> spd() {
  many::Mat<T> A;
  for (size_t i = 0; i < many::N; i++) for (size_t j = 0; j <= i; j++) {
    if (i == j) A.m[i][i] = (double) vc::any_int("d", 20, 40);
    else { A.m[i][j] = draw<T>("re", "im", -4, 4); A.m[j][i] = cj(A.m[i][j]); }
  }
  return A;
}
template<class T> static many::Vec<T> vec(long lo, long hi) { many::Vec<T> v; for (auto &x : v.e) x = draw<T>("vre", "vim", lo, hi); return v; }
template<class T> static double true_residual(const many::Mat<T> &A, const many::Vec<T> &b, const many::Vec<T> &x) { many::Mat<T> B = A; B.poison_after = 0; return std::sqrt((b - B * x).NormSquare()); }
static ConjugateGradientParams params() {
  ConjugateGradientParams p; p.max_iter = vc::any_size("max_iter", 0, 12); p.residual_recompute_interval = (int) vc::any_int("every", 0, 4);
  p.relative_tolerance = vc::any_bool("tight") ? 1e-10 : 1e-3; p.absolute_tolerance = vc::any_bool("abs") ? 0.5 : 0.0; return p;
}
template<class T> static void solve_once() {
  auto A = spd<T>(); auto b = vec<T>(-9, 9), x0 = vec<T>(-3, 3);
  auto p = params();
  double scale = std::sqrt(b.NormSquare()) + 80 * std::sqrt(x0.NormSquare()) + 1;
  auto r = ConjugateGradientSolver(A, b, x0, p);
  double t = true_residual(A, b, r.x), tol = std::max(p.relative_tolerance * std::sqrt(b.NormSquare()), p.absolute_tolerance);
  vc::check(std::abs(t - r.residual_norm) <= 1e-9 * scale, "the reported residual is that of the returned vector");
  vc::check(!r.converged() || t <= tol + 1e-9 * scale, "converged: the returned vector solves the system to the tolerance");
  vc::check(t <= true_residual(A, b, x0) + 1e-9 * scale, "not worse than the initial guess");
  vc::check(p.max_iter < many::N + 2 || r.converged(), "a well conditioned system is solved within its dimension");
}
BGOAL(solves_real) { solve_once<double>(); }
BGOAL(solves_complex) { solve_once<std::complex<double>>(); }
BGOAL(best_iterate) {
  // the best iterate over the allowed iterations: more iterations never give a worse result
  auto A = spd<double>(); auto b = vec<double>(-9, 9), x0 = vec<double>(-3, 3);
  for (size_t i = 0; i < many::N; i++) A.m[i][i] = (double) vc::any_int("wide", 1, 60);      // may be indefinite
  ConjugateGradientParams p; p.relative_tolerance = 0; p.residual_recompute_interval = 0;
  double prev = std::numeric_limits<double>::infinity(), scale = std::sqrt(b.NormSquare()) + 80 * std::sqrt(x0.NormSquare()) + 1;
  for (size_t m = 0; m <= 8; m++) {
    p.max_iter = m;
    auto r = ConjugateGradientSolver(A, b, x0, p);
    vc::check(r.residual_norm <= prev, "the residual of the result does not grow with the iterations allowed");
    vc::check(std::abs(true_residual(A, b, r.x) - r.residual_norm) <= 1e-6 * scale, "the reported residual is that of the returned vector");
    prev = r.residual_norm;
  }
}
BGOAL(not_finite) {
  auto A = spd<double>(); auto b = vec<double>(-9, 9), x0 = vec<double>(-3, 3);
  b.e[0] = 9; A.poison_after = vc::any_size("after", 1, 4);
  ConjugateGradientParams p; p.relative_tolerance = 1e-12; p.residual_recompute_interval = (int) vc::any_int("every", 0, 2);
  auto r = ConjugateGradientSolver(A, b, x0, p);
  vc::check(std::isfinite(r.residual_norm), "the residual of a finite guess stays finite");
  for (double v : r.x.e) vc::check(std::isfinite(v), "no infinity or NaN is returned");
  vc::check(r.converged() ? true_residual(A, b, r.x) < 1e-6 : true_residual(A, b, r.x) <= true_residual(A, b, x0) + 1e-6, "the best finite iterate is returned");
}
BGOAL(infinite_right_hand_side) {
  auto A = spd<double>(); auto b = vec<double>(-9, 9), x0 = vec<double>(-3, 3);
  size_t at = vc::any_size("at", 0, many::N - 1), kind = vc::any_size("kind", 0, 2);
  b.e[at] = kind == 0 ? std::numeric_limits<double>::infinity() : kind == 1 ? std::numeric_limits<double>::quiet_NaN() : 1e200;
  ConjugateGradientParams p;
  vc::check(!ConjugateGradientSolver(A, b, x0, p).converged(), "no convergence without a finite residual");
}
BGOAL(stagnation) {
  // a huge component in the null space: no step changes the vector any more
  many::Mat<double> A; std::memset(A.m, 0, sizeof A.m);
  for (size_t i = 0; i + 1 < many::N; i++) A.m[i][i] = (double) (i + 1);
  auto b = vec<double>(1, 9), x0 = vec<double>(0, 0);
  b.e[many::N - 1] = 0; x0.e[many::N - 1] = 1e25;
  ConjugateGradientParams p; p.relative_tolerance = 0;
  auto r = ConjugateGradientSolver(A, b, x0, p);
  vc::check(r.reason == CGTerminationReason::kStagnated && r.iterations == 3, "three steps without progress end the solve");
  vc::check(r.residual_norm <= std::sqrt(b.NormSquare()), "at the best iterate");
}
template<class T> static void parallel_once() {
  auto whole = spd<T>(); auto b = vec<T>(-9, 9), x0 = vec<T>(-3, 3);
  auto p = params();
  if (vc::any_bool("indefinite")) whole.m[0][0] = -50.0;
  int n = (int) vc::any_size("processes", 1, 4);
  auto &parts = many::parts_of<T>(); auto &given = many::given_of<T>();
  parts.assign(n, many::Mat<T>{}); given.assign(n, {});
  for (size_t i = 0; i < many::N; i++) for (size_t j = 0; j < many::N; j++) for (int k = 0; k < n; k++) parts[k].m[i][j] = k == 0 ? whole.m[i][j] - (double) (n - 1) * (double) (i + j) : T((double) (i + j));
  vcmpi::journal = true; vcmpi::sent.clear(); many::answers_agree = true;
  vcmpi::world.size = n; vcmpi::world.rank = 0;
  auto s = ConjugateGradientSolver(whole, b, x0, p);
  auto r = ConjugateGradientSolver(parts[0], b, x0, p, MPI_Comm(1));
  bool complete = true;
  for (int k = 1; k < n; k++) {
    vcmpi::world.rank = k; vcmpi::cursor = 0; many::sends = 0;
    try { auto q = ConjugateGradientSolver(parts[k], b, x0, p, MPI_Comm(1)); if (q.converged()) complete = false; } catch (vcmpi::Mismatch &) { complete = false; }
    if (vcmpi::cursor != vcmpi::sent.size() || many::sends != given[k].size()) complete = false;
  }
  vcmpi::world.rank = 0; vcmpi::world.size = 1; vcmpi::journal = false;
  vc::check(complete, "every process follows the master to the end: each broadcast is received, each product answered");
  vc::check(many::answers_agree, "every answer is the product with the vector sent");
  double scale = std::sqrt(b.NormSquare()) + 200 * std::sqrt(x0.NormSquare()) + 1;
  vc::check(std::abs(true_residual(whole, b, r.x) - r.residual_norm) <= 1e-6 * scale, "the reported residual is that of the returned vector for the summed matrix");
  if (s.residual_norm > 1e-5 && r.residual_norm > 1e-5) {
    vc::check(r.reason == s.reason && r.iterations == s.iterations && std::abs(r.residual_norm - s.residual_norm) <= 1e-6 * scale, "as the serial solver");
    for (size_t i = 0; i < many::N; i++) vc::check(std::abs(r.x.e[i] - s.x.e[i]) <= 1e-6 * scale, "the same solution");
  } else vc::check(r.residual_norm <= 1e-4 && s.residual_norm <= 1e-4, "both solve it");
}
BGOAL(parallel_real) { parallel_once<double>(); }
BGOAL(parallel_complex) { parallel_once<std::complex<double>>(); }
BGOAL(parallel_breakdown) {
  // the master must end the protocol on every path: poisoned products
  int n = 3; auto b = vec<double>(1, 9), x0 = vec<double>(-3, 3);
  many::parts.assign(n, spd<double>()); many::given.assign(n, {});
  many::parts[0].poison_after = vc::any_size("after", 1, 5);
  if (vc::any_bool("at the start")) b.e[0] = std::numeric_limits<double>::infinity();
  ConjugateGradientParams p; p.relative_tolerance = 1e-12; p.residual_recompute_interval = (int) vc::any_int("every", 0, 2);
  vcmpi::journal = true; vcmpi::sent.clear(); many::answers_agree = true; vcmpi::world.size = n; vcmpi::world.rank = 0;
  auto r = ConjugateGradientSolver(many::parts[0], b, x0, p, MPI_Comm(1));
  bool complete = true;
  for (int k = 1; k < n; k++) {
    vcmpi::world.rank = k; vcmpi::cursor = 0; many::sends = 0;
    try { ConjugateGradientSolver(many::parts[k], b, x0, p, MPI_Comm(1)); } catch (vcmpi::Mismatch &) { complete = false; }
    if (vcmpi::cursor != vcmpi::sent.size() || many::sends != many::given[k].size()) complete = false;
  }
  vcmpi::world.rank = 0; vcmpi::world.size = 1; vcmpi::journal = false;
  vc::check(complete && many::answers_agree, "every process follows the master to the end");
  vc::check(!r.converged() || std::isfinite(r.residual_norm), "no convergence without a finite residual");
}
#endif

#include "vc_main.h"
