// C14: Monte-Carlo statistics: means, variances, standard errors and their combination over processes.
#include "vc.h"
#include <cassert>
#include <iostream>
#include <limits>
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
using namespace qlpeps;
typedef std::complex<double> C;
static const size_t N = 100000;
#define REALS(n, a, lo) size_t n = vc::any_size("n", lo, N); vc::tractable(n <= 400); std::vector<double> a = vc::any_doubles("a", n);
#define COMPLEXES(n, a, lo) size_t n = vc::any_size("n", lo, N); vc::tractable(n <= 400); std::vector<double> re = vc::any_doubles("re", n), im = vc::any_doubles("im", n); std::vector<C> a = vc::complexes(re, im);

GOAL(mean_real) {
  REALS(n, a, 1)
  vc::check(vc::eq(Mean(a) * (double) n, vc::sum(n, [&](size_t k) { return a[k]; })), "the arithmetic mean");
}
GOAL(mean_empty) {
  std::vector<double> a; std::vector<C> b;
  vc::check(Mean(a) == 0 && Mean(b) == C(0), "the mean of no data is zero");
}
GOAL(mean_complex) {
  COMPLEXES(n, a, 1)
  C m = Mean(a);
  vc::check(vc::eq(m.real() * (double) n, vc::sum(n, [&](size_t k) { return re[k]; })) && vc::eq(m.imag() * (double) n, vc::sum(n, [&](size_t k) { return im[k]; })), "the arithmetic mean");
}
GOAL(variance_real) {
  REALS(n, a, 1)
  double m = vc::any_double("m");
  double v = Variance(a, m);
  vc::check(vc::eq(v * (double) n, vc::sum(n, [&](size_t k) { return (a[k] - m) * (a[k] - m); })), "the mean squared deviation from the given mean");
}
GOAL(variance_complex) {
  COMPLEXES(n, a, 1)
  double mr = vc::any_double("mr"), mi = vc::any_double("mi");
  double v = Variance(a, C(mr, mi));
  vc::check(vc::eq(v * (double) n, vc::sum(n, [&](size_t k) { return (re[k] - mr) * (re[k] - mr) + (im[k] - mi) * (im[k] - mi); })), "the mean squared distance from the given mean");
}
GOAL(standard_error) {
  REALS(n, a, 2)
  double m = vc::any_double("m");
  double e = StandardError(a, m);
  vc::check(e >= 0, "not negative");
  vc::check(vc::eq(e * e * (double) n * (double) (n - 1), vc::sum(n, [&](size_t k) { return (a[k] - m) * (a[k] - m); })), "the square root of variance / (n - 1)");
}
GOAL(standard_error_single) {
  double x = vc::any_double("x"), m = vc::any_double("m");
  vc::check(StandardError(std::vector<double>{x}, m) == std::numeric_limits<double>::infinity(), "one sample gives no error estimate");
}
GOAL(average_of_lists) {
  size_t samples = vc::any_size("samples", 1, 1000), n = vc::any_size("n", 1, 1000), i = vc::any_size("i", 0, 1000);
  vc::tractable(samples * n <= 1000);
  vc::require(i < n);
  std::vector<std::vector<double>> t = vc::any_table("t", samples, n);
  std::vector<double> r = AveListOfData(t);
  vc::check(r.size() == n, "one average per entry");
  vc::check(vc::eq(r[i] * (double) samples, vc::sum(samples, [&](size_t s) { return t[s][i]; })), "the average over the samples, entry by entry");
}
GOAL(average_of_nothing) {
  std::vector<std::vector<double>> none;
  size_t samples = vc::any_size("samples", 1, 1000);
  std::vector<std::vector<double>> empty(samples, std::vector<double>());
  vc::check(AveListOfData(none).empty() && AveListOfData(empty).empty(), "no entries give no averages");
}
GOAL(single_process) {
  double x = vc::any_double("x");
  vcmpi::world.size = 1; vcmpi::world.rank = 0;
  auto r = GatherStatisticSingleData(x, MPI_COMM_WORLD);
  vc::check(r.first == x && r.second == std::numeric_limits<double>::infinity(), "one process reports its value without error estimate");
  size_t n = vc::any_size("n", 0, N); vc::tractable(n <= 400);
  std::vector<double> a = vc::any_doubles("a", n), avg, err;
  GatherStatisticListOfData(a, MPI_COMM_WORLD, avg, err);
  vc::check(avg.size() == n && err.empty() && vc::forall(n, [&](size_t k) { return avg[k] == a[k]; }), "one process reports its list without error estimates");
}
#ifndef VC_VERIFY
// run f on every rank, the root last; returns what the root returns
template<class F> auto on_all(int size, F f) {
  vcmpi::world.size = size;
  for (auto &q : vcmpi::parts) q.clear();
  for (int r = size - 1; r > 0; r--) { vcmpi::world.rank = r; f(r); }
  vcmpi::world.rank = 0;
  auto v = f(0);
  vcmpi::world.size = 1;
  return v;
}
static double d2(double x) { return x * x; }
static double d2(C x) { return std::norm(x); }
template<class T> static T mean_of(const std::vector<T> &v) { T s(0); for (auto &x : v) s += x; return s / (double) v.size(); }
template<class T> static double err_of(const std::vector<T> &v) { T m = mean_of(v); double s = 0; for (auto &x : v) s += d2(x - m); return std::sqrt(s / (double) v.size() / ((double) v.size() - 1)); }
static std::vector<double> draws(const char *n, size_t k, double) { return vc::any_doubles(n, k); }
static std::vector<C> draws(const char *n, size_t k, C) { std::vector<double> d = vc::any_doubles(n, 2 * k); std::vector<C> v; for (size_t i = 0; i < k; i++) v.push_back({d[2 * i], d[2 * i + 1]}); return v; }
static bool near(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-7 * (scale + 1e-3); }
template<class T> static void gather_single() {
  int size = (int) vc::any_size("size", 2, 9);
  std::vector<T> v = draws("v", size, T(0));
  if (vc::any_bool("alike")) for (auto &x : v) x = v[0];
  auto r = on_all(size, [&](int k) { return GatherStatisticSingleData(v[k], MPI_COMM_WORLD); });
  double big = 0; for (auto &x : v) big = std::max(big, std::abs(x));
  vc::check(std::abs(r.first - mean_of(v)) <= 1e-9 * (big + 1e-6), "the root reports the mean over the processes");
  double e = err_of(v);
  vc::check(r.second >= 0, "the standard error is a number, never negative");
  vc::check(near(r.second, e, big), "and its standard error");
}
template<class T> static void gather_list() {
  int size = (int) vc::any_size("size", 2, 7);
  size_t n = vc::any_size("n", 1, 6);
  std::vector<std::vector<T>> v; for (int k = 0; k < size; k++) v.push_back(draws("v", n, T(0)));
  std::vector<T> avg; std::vector<double> err;
  on_all(size, [&](int k) { std::vector<T> a; std::vector<double> e; GatherStatisticListOfData(v[k], MPI_COMM_WORLD, a, e); if (k == 0) { avg = a; err = e; } return 0; });
  vc::check(avg.size() == n && err.size() == n, "one average and error per entry");
  for (size_t i = 0; i < n; i++) {
    std::vector<T> col; double big = 0;
    for (int k = 0; k < size; k++) { col.push_back(v[k][i]); big = std::max(big, std::abs(v[k][i])); }
    vc::check(std::abs(avg[i] - mean_of(col)) <= 1e-9 * (big + 1e-6) && near(err[i], err_of(col), big), "mean and standard error over the processes, entry by entry");
  }
}
template<class T> static void binned() {
  int size = (int) vc::any_size("size", 1, 5);
  size_t n = vc::any_size("n", 1, 40), b = 1;
  while ((b + 1) * (b + 1) <= n) b++;
  std::vector<std::vector<T>> v; for (int k = 0; k < size; k++) v.push_back(draws("v", n, T(0)));
  auto r = on_all(size, [&](int k) { return MeanAndBinnedErrorSqrtNUniformBin(v[k], MPI_COMM_WORLD); });
  std::vector<T> bins; double big = 0;
  for (auto &x : v) for (size_t i = 0; i + b <= n; i += b) { bins.push_back(mean_of(std::vector<T>(x.begin() + i, x.begin() + i + b))); for (size_t q = i; q < i + b; q++) big = std::max(big, std::abs(x[q])); }
  vc::check(std::abs(r.first - mean_of(bins)) <= 1e-9 * (big + 1e-6), "the mean over all full bins of length floor(sqrt(n)) of all processes");
  if (bins.size() == 1) vc::check(r.second == std::numeric_limits<double>::infinity(), "one bin gives no error estimate");
  else vc::check(near(r.second, err_of(bins), big), "the standard error of the bin means");
}
template<class T> static void ips() {
  size_t n = vc::any_size("n", 0, 60);
  std::vector<T> v = draws("v", n, T(0));
  bool given = vc::any_bool("given");
  double m = vc::any_double("m");
  double g = given ? IPSInflationFactor(v, m) : IPSInflationFactor(v);
  vc::check(g >= 1, "the inflation factor is at least 1");
  if (n < 3) { vc::check(g == 1, "too few samples give no inflation"); return; }
  std::vector<double> x; for (auto &q : v) x.push_back(std::real(q));
  double mu = given ? m : mean_of(x);
  auto cov = [&](size_t k) { double s = 0; for (size_t t = 0; t + k < n; t++) s += (x[t] - mu) * (x[t + k] - mu); return s / (double) n; };
  double c0 = cov(0), s = 0; bool tie = c0 < 1e-12;
  for (size_t k = 1; k <= std::min<size_t>(20, n - 2); k++) {
    double p = cov(k) + cov(k + 1);
    if (std::fabs(p) < 1e-9 * c0) tie = true;
    if (p <= 0) break;
    s += cov(k) / c0;
  }
  if (!tie) vc::check(std::fabs(g - std::max(1.0, 1 + 2 * s)) <= 1e-7 * (1 + std::fabs(g)), "1 + 2 x the sum of the autocorrelations over the initial positive sequence, lags up to 20");
}
#else
template<class T> static void gather_single() {}
template<class T> static void gather_list() {}
template<class T> static void binned() {}
template<class T> static void ips() {}
#endif
BGOAL(processes_single) { if (vc::any_bool("cplx")) gather_single<C>(); else gather_single<double>(); }
BGOAL(processes_list) { if (vc::any_bool("cplx")) gather_list<C>(); else gather_list<double>(); }
BGOAL(processes_binned) { if (vc::any_bool("cplx")) binned<C>(); else binned<double>(); }
BGOAL(inflation) { if (vc::any_bool("cplx")) ips<C>(); else ips<double>(); }
#include "vc_main.h"
