// C13: the Jastrow factor is a symmetric table of pair couplings without diagonal.
#include "vc.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/vmc_basic/jastrow_factor.h"
using namespace qlpeps;
static const size_t L = 1000;
#define PAIR(i, j, N) size_t i = vc::any_size(#i, 0, L * L), j = vc::any_size(#j, 0, L * L); vc::require(i < N && j < N);
#define SHAPE size_t ly = vc::any_size("ly", 1, L), lx = vc::any_size("lx", 1, L), N = ly * lx; vc::tractable(N <= 300);

GOAL(starts_zero) {
  SHAPE PAIR(i, j, N)
  const JastrowFactor v(ly, lx);
  vc::check(v.NumSites() == N, "one site per lattice position");
  vc::check(v(i, j) == 0, "couplings start at zero");
}
GOAL(set_get_frame) {
  SHAPE PAIR(i, j, N) PAIR(a, b, N) PAIR(c, d, N)
  double x = vc::any_double("x"), y = vc::any_double("y");
  vc::require(i != j); vc::require(a != b);
  JastrowFactor v(ly, lx);
  v.Set(i, j, x);
  v.Set(a, b, y);
  const JastrowFactor &r = v;
  bool first = c == i && d == j || c == j && d == i, second = c == a && d == b || c == b && d == a;
  vc::check(r(c, d) == (second ? y : first ? x : 0.0), "a pair reads the value last written for it in either order, every other pair is unchanged");
  vc::check(r(c, d) == r(d, c), "symmetric");
  vc::check(r(c, c) == 0, "no diagonal");
}
GOAL(reference_access) {
  SHAPE PAIR(i, j, N) PAIR(c, d, N)
  double x = vc::any_double("x");
  vc::require(i != j);
  JastrowFactor v(ly, lx);
  v(i, j) = x;
  const JastrowFactor &r = v;
  bool first = c == i && d == j || c == j && d == i;
  vc::check(r(c, d) == (first ? x : 0.0), "writing through the reference reaches exactly that pair");
}
GOAL(sites) {
  SHAPE
  size_t r1 = vc::any_size("r1", 0, L), c1 = vc::any_size("c1", 0, L), r2 = vc::any_size("r2", 0, L), c2 = vc::any_size("c2", 0, L);
  vc::require(r1 < ly && c1 < lx && r2 < ly && c2 < lx);
  double x = vc::any_double("x");
  JastrowFactor v(ly, lx);
  SiteIdx s1{r1, c1}, s2{r2, c2};
  vc::check(v.SiteIdxToLinear(s1) == r1 * lx + c1 && v.SiteToIndex(s1) == r1 * lx + c1, "row-major site numbers");
  vc::require(r1 != r2 || c1 != c2);
  v.Set(s1, s2, x);
  const JastrowFactor &r = v;
  vc::check(r(s1, s2) == x && r(s2, s1) == x && r(r1 * lx + c1, r2 * lx + c2) == x, "site access reads the same coupling");
  v(s2, s1) = x + 1;
  vc::check(r(s1, s2) == x + 1, "site reference writes the same coupling");
}
GOAL(fill) {
  SHAPE PAIR(c, d, N)
  std::vector<double> t = vc::any_doubles("t", N);
  vc::require(c < d);
  JastrowFactor v(ly, lx);
  v.Fill([&](size_t i, size_t j) { return t[i] + 2 * t[j]; });
  const JastrowFactor &r = v;
  vc::check(r(c, d) == t[c] + 2 * t[d], "Fill gives pair (i, j) with i < j the value f(i, j)");
}
// the lattice is ly x lx with density n; one coupling p-q of strength x
static void field(size_t ly, size_t lx) {
  size_t N = ly * lx, r = vc::any_size("r", 0, L), c = vc::any_size("c", 0, L);
  vc::tractable(N <= 300);
  vc::require(r < ly && c < lx);
  std::vector<std::vector<size_t>> n = vc::any_stable("n", ly, lx, 0, 2);
  Configuration density(n);
  PAIR(p, q, N)
  vc::require(p != q);
  double x = vc::any_double("x");
  JastrowFactor w(ly, lx);
  w.Set(p, q, x);
  const JastrowFactor &v = w;
  size_t i = r * lx + c;
  double expect = vc::sum(ly, [&](size_t a) { return vc::sum(lx, [&](size_t b) { return a * lx + b == i ? 0.0 : v(i, a * lx + b) * (double) density({a, b}); }); });
  SiteIdx site{r, c};
  vc::check(vc::eq(v.JastrowFieldAtSite(density, site), expect), "the field at a site is the sum of coupling times density over all other sites");
}
GOAL(field_row) { size_t lx = vc::any_size("lx", 1, L); field(1, lx); }
GOAL(field_column) { size_t ly = vc::any_size("ly", 1, L); field(ly, 1); }
BGOAL(field_any) { size_t ly = vc::any_size("ly", 1, 6), lx = vc::any_size("lx", 1, 6); field(ly, lx); }
#include "vc_main.h"
