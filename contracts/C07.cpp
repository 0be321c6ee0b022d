// C07: the Suwa-Todo update moves along the ring of weights: the new state is the one whose interval contains the point
// reached by shifting the current state's interval by the largest weight.
#include "vc.h"
#include <algorithm>
#include <cassert>
#include <vector>
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
using namespace qlpeps;
static const size_t N = 1000;

// n states, weights w, current state i with positive weight, m the first state of largest weight, one random draw u in [0,1);
// ring: the weights in their order on the ring, the largest first
#define CHAIN(n, w, i, m, u, rng) \
  size_t n = vc::any_size("n", 1, N), i = vc::any_size("i", 0, N); \
  std::vector<double> w = vc::any_nonneg("w", n), us = vc::any_units("u", 1); double u = us[0]; \
  vc::require(i < n); \
  vc::require(w[i] > 0); \
  const size_t m = std::max_element(w.begin(), w.end()) - w.begin(); \
  std::vector<double> ring = w; \
  if (m != 0) std::swap(ring[0], ring[m]); \
  vc::Rng rng{us};
static size_t position(size_t k, size_t m) { return k == m ? 0 : k == 0 ? m : k; }

GOAL(stays_in_range) {
  CHAIN(n, w, i, m, u, rng)
  size_t j = SuwaTodoStateUpdate(i, w, rng);
  vc::check(j < n, "the new state is one of the states");
  vc::check(w[j] > 0, "a state of zero weight is never entered");
}
GOAL(ring_overlap) {
  CHAIN(n, w, i, m, u, rng)
  size_t j = SuwaTodoStateUpdate(i, w, rng);
  vc::check(j < n, "the new state is one of the states");
  size_t pi = position(i, m), pj = position(j, m);
  auto at = [&](size_t k) { return ring[k]; };
  double S = vc::sum(n, at), lo = vc::sum(pj, at), hi = lo + ring[pj];
  double start = vc::sum(pi, at) + ring[0];
  if (start >= S) start = start - S;
  double end = start + ring[pi];
  vc::check(vc::le(start, hi) && vc::le(lo, end) || vc::le(start, hi + S) && vc::le(lo + S, end), "the new state's interval meets the shifted interval of the old one");
  if (u == 0) vc::check(vc::le(lo, start) && vc::le(start, hi), "the smallest draw leads to the start of the shifted interval");
}
GOAL(ring_point) {
  CHAIN(n, w, i, m, u, rng)
  vc::require(ring[0] >= 1e-100);
  size_t j = SuwaTodoStateUpdate(i, w, rng);
  vc::check(j < n, "the new state is one of the states");
  size_t pi = position(i, m), pj = position(j, m);
  auto at = [&](size_t k) { return ring[k]; };
  double S = vc::sum(n, at), lo = vc::sum(pj, at), hi = lo + ring[pj], tol = 1e-9 * S;
  double start = vc::sum(pi, at) + ring[0];
  double y = (start >= S ? start - S : start) + u * ring[pi];
  vc::check((lo <= y + tol && y < hi + tol) || (lo <= y - S + tol && y - S < hi + tol), "the new state's interval contains the shifted point");
}
GOAL(rejection_free) {
  CHAIN(n, w, i, m, u, rng)
  vc::require(2 * ring[0] * (1 + 1e-9) <= vc::sum(n, [&](size_t k) { return ring[k]; }));
  size_t j = SuwaTodoStateUpdate(i, w, rng);
  vc::check(j != i, "no state stays put when no weight exceeds half of the total");
}
GOAL(only_state) {
  double w = vc::any_nonneg("w", 1)[0]; std::vector<double> us = vc::any_units("u", 1);
  vc::require(w > 0);
  vc::Rng rng{us};
  vc::check(SuwaTodoStateUpdate(0, std::vector<double>{w}, rng) == 0, "a single state is kept");
}
GOAL(weights_untouched) {
  CHAIN(n, w, i, m, u, rng)
  std::vector<double> before = w;
  SuwaTodoStateUpdate(i, w, rng);
  vc::check(vc::forall(n, [&](size_t k) { return w[k] == before[k]; }), "the caller's weights are unchanged");
}
#include "vc_main.h"
