// C11: the consistency summary of a list of amplitudes is the sign-aligned mean and its largest relative deviation.
#include "vc.h"
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
using namespace qlpeps;
static const size_t N = 1000000;

GOAL(empty_list) {
  auto s = ComputePsiConsistencySummaryAligned(std::vector<double>{});
  vc::check(s.psi_mean == 0.0 && s.psi_rel_err == 0.0, "empty list: zero mean, zero error");
}
static double sgn(const std::vector<double> &psi, size_t ref, size_t k) { return std::abs(psi[ref]) > 1e-14 && psi[k] * psi[ref] < 0 ? -1.0 : 1.0; }
GOAL(real_mean) {
  size_t n = vc::any_size("n", 1, N), ref = vc::any_size("ref", 0, N);
  std::vector<double> psi = vc::any_doubles("psi", n);
  vc::require(ref < n && vc::forall(n, [&](size_t k) { return std::abs(psi[k]) <= std::abs(psi[ref]) && (k >= ref || std::abs(psi[k]) < std::abs(psi[ref])); }));
  auto s = ComputePsiConsistencySummaryAligned(psi);
  vc::check(vc::eq(s.psi_mean * double(n), vc::sum(n, [&](size_t k) { return sgn(psi, ref, k) * psi[k]; })), "mean: average of the amplitudes aligned with the largest one");
}
#define AMPLITUDES(n, ref, psi) \
  size_t n = vc::any_size(#n, 1, N), ref = vc::any_size(#ref, 0, N); \
  std::vector<double> psi = vc::any_doubles(#psi, n); \
  vc::require(ref < n && vc::forall(n, [&](size_t k) { return std::abs(psi[k]) <= std::abs(psi[ref]) && (k >= ref || std::abs(psi[k]) < std::abs(psi[ref])); }));
static const double EPS = std::numeric_limits<double>::epsilon();

GOAL(real_deviation) {
  AMPLITUDES(n, ref, psi)
  auto s = ComputePsiConsistencySummaryAligned(psi);
  double mean = s.psi_mean;
  double denom = std::max(std::abs(mean), EPS);
  size_t k = vc::any_size("k", 0, N);
  vc::require(k < n);
  vc::check(s.psi_rel_err >= 0, "relative error: never negative");
  vc::check(vc::le(std::abs(sgn(psi, ref, k) * psi[k] - mean), s.psi_rel_err * denom), "relative error: bounds every deviation from the mean");
  vc::check(s.psi_rel_err == 0 || vc::exists(n, [&](size_t j) { return vc::eq(std::abs(sgn(psi, ref, j) * psi[j] - mean), s.psi_rel_err * denom); }), "relative error: attained by one amplitude");
}
typedef std::complex<double> C;
#define COMPLEX_AMPLITUDES(n, ref, psi) \
  size_t n = vc::any_size(#n, 1, N), ref = vc::any_size(#ref, 0, N); \
  std::vector<double> re = vc::any_doubles("re", n), im = vc::any_doubles("im", n); \
  std::vector<C> psi = vc::complexes(re, im); \
  vc::require(ref < n && vc::forall(n, [&](size_t k) { return std::abs(C(re[k], im[k])) <= std::abs(C(re[ref], im[ref])) && (k >= ref || std::abs(C(re[k], im[k])) < std::abs(C(re[ref], im[ref]))); }));
static double csgn(const std::vector<double> &re, const std::vector<double> &im, size_t ref, size_t k) { return std::abs(C(re[ref], im[ref])) > 1e-14 && re[k] * re[ref] + im[k] * im[ref] < 0 ? -1.0 : 1.0; }
GOAL(complex_mean) {
  COMPLEX_AMPLITUDES(n, ref, psi)
  vc::require(std::abs(C(re[ref], im[ref])) > 0);
  auto s = ComputePsiConsistencySummaryAligned(psi);
  vc::check(vc::eq(s.psi_mean.real() * double(n), vc::sum(n, [&](size_t k) { return csgn(re, im, ref, k) * re[k]; })), "complex mean: real part of the aligned average");
  vc::check(vc::eq(s.psi_mean.imag() * double(n), vc::sum(n, [&](size_t k) { return csgn(re, im, ref, k) * im[k]; })), "complex mean: imaginary part of the aligned average");
}
GOAL(complex_deviation) {
  COMPLEX_AMPLITUDES(n, ref, psi)
  size_t k = vc::any_size("k", 0, N);
  vc::require(k < n && std::abs(C(re[ref], im[ref])) > 0);
  auto s = ComputePsiConsistencySummaryAligned(psi);
  C mean = s.psi_mean;
  double denom = std::max(std::abs(mean), EPS);
  vc::check(s.psi_rel_err >= 0, "complex relative error: never negative");
  vc::check(vc::le(std::abs(C(csgn(re, im, ref, k) * re[k], csgn(re, im, ref, k) * im[k]) - mean), s.psi_rel_err * denom), "complex relative error: bounds every deviation from the mean");
  vc::check(s.psi_rel_err == 0 || vc::exists(n, [&](size_t j) { return vc::eq(std::abs(C(csgn(re, im, ref, j) * re[j], csgn(re, im, ref, j) * im[j]) - mean), s.psi_rel_err * denom); }), "complex relative error: attained by one amplitude");
}
GOAL(complex_empty) {
  auto s = ComputePsiConsistencySummaryAligned(std::vector<C>{});
  vc::check(s.psi_mean.real() == 0.0 && s.psi_mean.imag() == 0.0 && s.psi_rel_err == 0.0, "empty complex list: zero mean, zero error");
}
GOAL(complex_all_zero) {
  size_t n = vc::any_size("n", 1, N);
  auto s = ComputePsiConsistencySummaryAligned(std::vector<C>(n, C(0.0, 0.0)));
  vc::check(s.psi_mean.real() == 0.0 && s.psi_mean.imag() == 0.0 && s.psi_rel_err == 0.0, "all amplitudes zero: zero mean, zero error");
}
GOAL(documented_defaults) {
  PsiConsistencyWarningParams w; ConfigurationRescueParams c; RuntimeParams r;
  vc::check(w.enabled && !w.master_only && w.threshold == 1e-3 && w.max_warnings == 50 && w.max_print_elems == 8, "warning defaults");
  vc::check(c.enabled && c.amplitude_min_threshold == std::numeric_limits<double>::min() && c.amplitude_max_threshold == std::numeric_limits<double>::max(), "rescue defaults: most permissive");
  vc::check(r.psi_consistency.enabled && r.psi_consistency.threshold == 1e-3 && r.config_rescue.enabled && r.config_rescue.amplitude_min_threshold == c.amplitude_min_threshold, "runtime defaults");
}
#include "vc_main.h"
