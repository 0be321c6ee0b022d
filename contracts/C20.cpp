// C20: linear algebra of stochastic reconfiguration and MinSR: pseudo-inverse, centred Gram matrix, S-matrix, directions.
#include "vc.h"
#include "vc_sitps.h"
#include <cassert>
#include <cstring>
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
typedef std::complex<double> lapack_complex_double;
#ifdef VC_VERIFY
namespace eig { inline std::vector<double> Z, L; inline int info = 0; }
// the eigensolver: any answer
inline int LAPACKE_dsyev(int, char, char, int n, double *a, int, double *w) {
  for (int i = 0; i < n * n; i++) a[i] = eig::Z[(size_t) i];
  for (int i = 0; i < n; i++) w[i] = eig::L[(size_t) i];
  return eig::info;
}
int LAPACKE_zheev(int, char, char, int, lapack_complex_double *, int, double *);
#else
// cyclic Jacobi on a Hermitian matrix (column-major in, eigenvectors as columns out, ascending eigenvalues); reads the upper triangle only
template<class E> int jacobi(int n, E *a, double *w) {
  std::vector<std::complex<double>> A(n * n), V(n * n, 0.0);
  for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { A[i + j * n] = a[i + j * n]; A[j + i * n] = std::conj(A[i + j * n]); if (i == j) A[i + j * n] = std::real(A[i + j * n]); }
  for (int i = 0; i < n; i++) V[i + i * n] = 1.0;
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off += std::norm(A[i + j * n]);
    if (off < 1e-300) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      std::complex<double> h = A[p + q * n]; double r = std::abs(h); if (r < 1e-300) continue;
      std::complex<double> ph = h / r; double th = 0.5 * std::atan2(2 * r, std::real(A[q + q * n] - A[p + p * n])), c = std::cos(th), s = std::sin(th);
      // columns: u_p = c e_p - s conj(ph) e_q ; u_q = s ph e_p + c e_q
      for (int k = 0; k < n; k++) { auto x = A[k + p * n], y = A[k + q * n]; A[k + p * n] = c * x - s * std::conj(ph) * y; A[k + q * n] = s * ph * x + c * y; auto v = V[k + p * n], z = V[k + q * n]; V[k + p * n] = c * v - s * std::conj(ph) * z; V[k + q * n] = s * ph * v + c * z; }
      for (int k = 0; k < n; k++) { auto x = A[p + k * n], y = A[q + k * n]; A[p + k * n] = c * x - s * ph * y; A[q + k * n] = s * std::conj(ph) * x + c * y; }
    }
  }
  std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
  std::sort(o.begin(), o.end(), [&](int x, int y) { return A[x + x * n].real() < A[y + y * n].real(); });
  for (int k = 0; k < n; k++) { w[k] = A[o[k] + o[k] * n].real(); for (int i = 0; i < n; i++) { if constexpr (std::is_same_v<E, double>) a[i + k * n] = V[i + o[k] * n].real(); else a[i + k * n] = V[i + o[k] * n]; } }
  return 0;
}
inline int LAPACKE_dsyev(int, char, char, int n, double *a, int, double *w) { return jacobi(n, a, w); }
inline int LAPACKE_zheev(int, char, char, int n, lapack_complex_double *a, int, double *w) { return jacobi(n, a, w); }
#endif
#define private public
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_impl.h"
#undef private
using namespace qlpeps;
typedef SplitIndexTPS<double, VcQN> W;
typedef Optimizer<double, VcQN> Opt;

GOAL(soft_cutoff) {
  size_t n = vc::any_size("n", 0, 1000); vc::tractable(n <= 50);
  std::vector<double> l = vc::any_doubles("l", n); double r = vc::any_double("r"), a = vc::any_double("a");
  auto p = minsr_detail::ApplyPseudoInverseCutoff(l, 0.0, a, true);
  vc::check(p.size() == n, "one value per eigenvalue");
  vc::each(n, [&](size_t k) {
    double x = l[k], x6 = x * x * x * x * x * x, a6 = a * a * a * a * a * a;
    vc::check(x6 + a6 == 0 ? p[k] == 0 : vc::eq(p[k], (x * x * x * x * x) / (x6 + a6)), "soft formula");
  });
}
GOAL(hard_cutoff) {
  size_t n = vc::any_size("n", 0, 1000); vc::tractable(n <= 50);
  std::vector<double> l = vc::any_doubles("l", n); double a = vc::any_double("a"); vc::require(a >= 0);
  auto p = minsr_detail::ApplyPseudoInverseCutoff(l, 0.0, a, false);
  vc::check(p.size() == n, "one value per eigenvalue");
  vc::each(n, [&](size_t k) { double m = l[k] < 0 ? -l[k] : l[k]; vc::check(m > a ? vc::eq(p[k] * l[k], 1.0) : p[k] == 0, "hard formula"); });
}
GOAL(relative_cutoff) {
  size_t n = vc::any_size("n", 1, 1000); vc::tractable(n <= 50);
  std::vector<double> l = vc::any_doubles("l", n); double r = vc::any_double("r"), a = vc::any_double("a"); vc::require(a >= 0 && r >= 0);
  size_t j = vc::any_size("j", 0, 999); vc::require(j < n);
  auto p = minsr_detail::ApplyPseudoInverseCutoff(l, r, a, false);
  double mj = l[j] < 0 ? -l[j] : l[j];
  vc::each(n, [&](size_t k) { double m = l[k] < 0 ? -l[k] : l[k]; vc::check(p[k] == 0 || (m > r * mj + a && vc::eq(p[k] * l[k], 1.0)), "kept only above the cutoff of every eigenvalue"); });
}
GOAL(s_matrix_product) {
  size_t n = vc::any_size("n", 1, 1000), np = vc::any_size("np", 1, 64); vc::tractable(n <= 50);
  std::vector<double> o = vc::any_doubles("o", n); double v = vc::any_double("v"), mean = vc::any_double("mean"), shift = vc::any_double("shift");
  vcmpi::world.rank = 0; vcmpi::world.size = (int) np;
  std::vector<W> s; for (size_t k = 0; k < n; k++) s.push_back(W::of(o[k]));
  W m = W::of(mean);
  SRSMatrix<double, VcQN> S(&s, &m, np, MPI_COMM_WORLD); S.diag_shift = shift;
  double got = (S * W::of(v)).at(0), mv = mean * v, sum = (s[0].at(0) * v - mv) * s[0].at(0);
  for (size_t k = 1; k < n; k++) sum += (s[k].at(0) * v - mv) * s[k].at(0);
  vc::each(n, [&](size_t k) { vc::check(s[k].at(0) == o[k], "the samples are not changed"); });
  double c = 1.0 / (double) (n * np), full = sum * c;
  vc::check(vc::eq(got, full + shift * v), "S v = sum of centred projections / N + shift v");
}
#ifndef VC_VERIFY
typedef std::complex<double> Cx;
static double re(double x) { return x; } static double re(Cx x) { return x.real(); }
static void put(double &d, double a, double) { d = a; } static void put(Cx &d, double a, double b) { d = Cx(a, b); }
static double cj(double x) { return x; } static Cx cj(Cx x) { return std::conj(x); }
template<class E> std::vector<std::vector<E>> draw(const char *n, size_t rows, size_t cols) { auto v = vc::any_doubles(n, 2 * rows * cols); std::vector<std::vector<E>> m(rows, std::vector<E>(cols)); for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) { double a = v[2 * (i * cols + j)], b = v[2 * (i * cols + j) + 1]; put(m[i][j], a / (1 + std::fabs(a)), b / (1 + std::fabs(b))); } return m; }
template<class E> bool near(E a, E b, double tol) { return std::abs(a - b) <= tol; }
template<class E> void pinv() {
  size_t n = vc::any_size("n", 1, 5); auto M = draw<E>("M", n, n); auto b = draw<E>("b", 1, n)[0]; double r = 1e-3 * vc::any_size("r", 0, 100), a = 1e-3 * vc::any_size("a", 1, 100); bool soft = vc::any_bool("soft");
  std::vector<E> T(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { E q(0); for (size_t k = 0; k < n; k++) q += cj(M[k][i]) * M[k][j]; T[i * n + j] = q; }
  vcmpi::world.rank = 0; vcmpi::world.size = 1;
  auto y = MinSREigenSolveDispatch<E>(T.data(), n, n, b, MPI_COMM_SELF, r, a, soft, vc::any_bool("auto") ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated);
  // reference: the eigenpairs of T, from an eigensolver on the conjugate transpose layout
  std::vector<Cx> A(n * n); std::vector<double> w(n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A[i + j * n] = T[i * n + j];
  jacobi((int) n, A.data(), w.data());
  double mx = 0; for (double q : w) mx = std::max(mx, std::fabs(q));
  double cut = r * mx + a; std::vector<Cx> want(n, 0.0);
  for (size_t k = 0; k < n; k++) {
    if (!soft && std::fabs(std::fabs(w[k]) - cut) < 1e-9) throw vc::Discard{};
    double f = soft ? std::pow(w[k], 5) / (std::pow(w[k], 6) + std::pow(cut, 6)) : std::fabs(w[k]) > cut ? 1 / w[k] : 0.0;
    Cx dot = 0; for (size_t i = 0; i < n; i++) dot += std::conj(A[i + k * n]) * b[i];
    for (size_t i = 0; i < n; i++) want[i] += A[i + k * n] * f * dot;
  }
  vc::check(y.size() == n, "one value per row");
  for (size_t i = 0; i < n; i++) vc::check(std::abs(Cx(y[i]) - want[i]) <= 1e-7 * (1 + 1 / a) * (1 + 1 / a), "y is the filtered pseudo-inverse applied to the right-hand side");
}
template<class E> void gram() {
  size_t ns = vc::any_size("ns", 1, 3), d = vc::any_size("d", 1, 3); long np = vc::any_int("np", 1, 4); size_t N = ns * (size_t) np;
  auto O = draw<E>("O", N, d); typedef SplitIndexTPS<E, VcQN> S;
  std::vector<MinSRTMatrix<E, VcQN>> t(np);
  bool ok = vc_processes((int) np, [&](int r) { std::vector<S> s; for (size_t k = 0; k < ns; k++) s.push_back(S::of(O[r * ns + k])); t[r].Construct(s, MPI_COMM_WORLD); });
  vc::check(ok, "the exchange completes with blocking messages");
  std::vector<E> mean(d, E(0)); for (auto &q : O) for (size_t j = 0; j < d; j++) mean[j] += q[j] / (double) N;
  for (long r = 0; r < np; r++) {
    vc::check(t[r].LocalRows() == ns && t[r].GlobalSize() == N, "shape");
    for (size_t i = 0; i < ns; i++) for (size_t j = 0; j < N; j++) {
      E q(0); for (size_t k = 0; k < d; k++) q += cj(O[r * ns + i][k] - mean[k]) * (O[j][k] - mean[k]);
      vc::check(near<E>(t[r].RowBlockData()[i * N + j], q / (double) N, 1e-10), "T_ij = <O_i - mean, O_j - mean> / N");
    }
  }
}
template<class E> void product() {
  size_t ns = vc::any_size("ns", 1, 3), d = vc::any_size("d", 1, 3); long np = vc::any_int("np", 1, 4); size_t N = ns * (size_t) np; double shift = std::fabs(vc::any_double("shift"));
  auto O = draw<E>("O", N, d); auto v = draw<E>("v", 1, d)[0]; typedef SplitIndexTPS<E, VcQN> S;
  std::vector<E> mean(d, E(0)), want(d, E(0)); for (auto &q : O) for (size_t j = 0; j < d; j++) mean[j] += q[j] / (double) N;
  for (auto &q : O) { E c(0); for (size_t j = 0; j < d; j++) c += cj(q[j] - mean[j]) * v[j]; for (size_t j = 0; j < d; j++) want[j] += (q[j] - mean[j]) * c / (double) N; }
  std::vector<S> part(np);
  bool ok = vc_processes((int) np, [&](int r) { std::vector<S> s; for (size_t k = 0; k < ns; k++) s.push_back(S::of(O[r * ns + k])); S m = S::of(mean); SRSMatrix<E, VcQN> A(&s, r == 0 ? &m : nullptr, np, MPI_COMM_WORLD); A.diag_shift = shift; part[r] = A * S::of(v); });
  vc::check(ok, "the product completes");
  for (size_t j = 0; j < d; j++) { E q(0); for (auto &x : part) q += x.at(j); vc::check(near<E>(q, want[j] + shift * v[j], 1e-9 * (1 + shift)), "the parts add up to the covariance matrix times v plus shift times v"); }
}
// the MinSR direction is the pseudo-inverse of the covariance applied to the energy gradient, and only the master moves
template<class E> void minsr() {
  size_t ns = vc::any_size("ns", 1, 3), d = vc::any_size("d", 1, 4); long np = vc::any_int("np", 1, 3); size_t N = ns * (size_t) np;
  auto O = draw<E>("O", N, d); auto en = draw<E>("en", 1, N)[0]; auto x = draw<E>("x", 1, d)[0]; double lr = vc::any_double("lr"); typedef SplitIndexTPS<E, VcQN> S;
  MinSRParams p; p.r_pinv = 0.0; p.a_pinv = 1e-3; p.soft_cutoff = false;
  E eb(0); for (auto e : en) eb += e / (double) N;
  std::vector<E> mean(d, E(0)); for (auto &q : O) for (size_t j = 0; j < d; j++) mean[j] += q[j] / (double) N;
  // T = X X^dagger / N with rows conj(O_i - mean); y = T^+ conj(e - <e>)/N; direction = sum_i y_i (O_i - mean)
  std::vector<Cx> A(N * N); std::vector<double> w(N);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { E q(0); for (size_t k = 0; k < d; k++) q += cj(O[i][k] - mean[k]) * (O[j][k] - mean[k]); A[i + j * N] = q / (double) N; }
  jacobi((int) N, A.data(), w.data()); std::vector<Cx> y(N, 0.0), dir(d, 0.0);
  for (size_t k = 0; k < N; k++) { if (std::fabs(w[k] - 1e-3) < 1e-6) throw vc::Discard{}; if (w[k] < 1e-3) continue; Cx dot = 0; for (size_t i = 0; i < N; i++) dot += std::conj(A[i + k * N]) * Cx(cj(en[i] - eb)) / (double) N; for (size_t i = 0; i < N; i++) y[i] += A[i + k * N] * dot / w[k]; }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < d; j++) dir[j] += y[i] * Cx(O[i][j] - mean[j]);
  std::vector<S> got(np), ng(np); std::vector<double> norm(np);
  bool ok = vc_processes((int) np, [&](int r) {
    std::vector<S> s; std::vector<E> e; for (size_t k = 0; k < ns; k++) { s.push_back(S::of(O[r * ns + k])); e.push_back(en[r * ns + k]); }
    Optimizer<E, VcQN> o(OptimizerParams(OptimizerParams::BaseParams(10, 1e-15, 1e-15, 20, 0.1), p), MPI_COMM_WORLD, r, (int) np);
    auto u = o.MinSRUpdate(S::of(x), S::of(x), s, S::of(mean), e, eb, lr, p); got[r] = u.first; norm[r] = u.second; });
  vc::check(ok, "the update completes on every process");
  double nn = 0; for (auto q : dir) nn += std::norm(q);
  vc::check(std::fabs(norm[0] - std::sqrt(nn)) <= 1e-5 * (1 + std::sqrt(nn)), "norm of the direction");
  for (size_t j = 0; j < d; j++) {
    vc::check(std::abs(Cx(got[0].at(j)) - (Cx(x[j]) - lr * dir[j])) <= 1e-5 * (1 + std::fabs(lr)) * (1 + std::sqrt(nn)), "the master moves along the direction");
    for (long r = 1; r < np; r++) vc::check(got[r].at(j) == x[j], "the others stay");
  }
}
// the SR update solves (S + shift) g' = g on all processes together
template<class E> void sr() {
  size_t ns = vc::any_size("ns", 1, 3), d = vc::any_size("d", 1, 3); long np = vc::any_int("np", 1, 3); size_t N = ns * (size_t) np; double lr = vc::any_double("lr"), shift = 0.05 + 0.01 * vc::any_size("shift", 0, 50); bool unit = vc::any_bool("unit");
  auto O = draw<E>("O", N, d); auto x = draw<E>("x", 1, d)[0], g = draw<E>("g", 1, d)[0]; typedef SplitIndexTPS<E, VcQN> S;
  std::vector<E> mean(d, E(0)); for (auto &q : O) for (size_t j = 0; j < d; j++) mean[j] += q[j] / (double) N;
  ConjugateGradientParams cg; cg.max_iter = 200; cg.relative_tolerance = 1e-12; cg.absolute_tolerance = 1e-14; 
  StochasticReconfigurationParams p{cg, shift}; std::vector<S> got(np); std::vector<double> norm(np); S z(1, 1, d);
  bool ok = vc_processes((int) np, [&](int r) {
    std::vector<S> s; for (size_t k = 0; k < ns; k++) s.push_back(S::of(O[r * ns + k]));
    Optimizer<E, VcQN> o(OptimizerParams(OptimizerParams::BaseParams(10, 1e-15, 1e-15, 20, 0.1), p), MPI_COMM_WORLD, r, (int) np);
    auto u = o.StochasticReconfigurationUpdate(S::of(x), S::of(g), s, S::of(mean), lr, z, unit); got[r] = std::get<0>(u); norm[r] = std::get<1>(u); });
  vc::check(ok, "the update completes on every process");
  // recover the natural gradient from the step
  if (std::fabs(lr) < 1e-2) throw vc::Discard{};
  std::vector<E> n(d); double gn = 0; for (size_t j = 0; j < d; j++) { n[j] = (x[j] - got[0].at(j)) / lr * (unit && norm[0] > 0 ? norm[0] : 1.0); gn += std::norm(Cx(n[j])); }
  vc::check(std::fabs(std::sqrt(gn) - norm[0]) <= 1e-6 * (1 + norm[0]), "the norm reported is that of the natural gradient");
  std::vector<E> back(d); for (size_t j = 0; j < d; j++) back[j] = shift * n[j];
  for (auto &q : O) { E c(0); for (size_t j = 0; j < d; j++) c += cj(q[j] - mean[j]) * n[j]; for (size_t j = 0; j < d; j++) back[j] += (q[j] - mean[j]) * c / (double) N; }
  for (size_t j = 0; j < d; j++) { vc::check(near<E>(back[j], g[j], 1e-5 * (1 + std::sqrt(gn))), "(S + shift) times the natural gradient is the gradient"); for (long r = 1; r < np; r++) vc::check(got[r].at(j) == x[j], "the others stay"); }
}
#endif
BGOAL(pseudo_inverse_real) {
#ifndef VC_VERIFY
  pinv<double>();
#endif
}
BGOAL(pseudo_inverse_complex) {
#ifndef VC_VERIFY
  pinv<Cx>();
#endif
}
BGOAL(gram_matrix) {
#ifndef VC_VERIFY
  if (vc::any_bool("real")) gram<double>(); else gram<Cx>();
#endif
}
BGOAL(covariance_product) {
#ifndef VC_VERIFY
  if (vc::any_bool("real")) product<double>(); else product<Cx>();
#endif
}
BGOAL(minsr_update) {
#ifndef VC_VERIFY
  if (vc::any_bool("real")) minsr<double>(); else minsr<Cx>();
#endif
}
BGOAL(sr_update) {
#ifndef VC_VERIFY
  if (vc::any_bool("real")) sr<double>(); else sr<Cx>();
#endif
}
BGOAL(distributed_refused) {
#ifndef VC_VERIFY
  std::vector<double> T(1, 1.0), b(1, 1.0);
  vc::check(vc::throws([&] { MinSREigenSolveDispatch<double>(T.data(), 1, 1, b, MPI_COMM_SELF, 0.0, 0.1, true, MinSRSolverMode::kDistributed); }), "a solver that is not built in is refused");
#endif
}
#include "vc_main.h"
