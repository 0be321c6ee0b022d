// C15: the traversal of all bonds of a lattice for measurements.
#include "vc.h"
#include "vc_wf.h"
using namespace qlpeps;
using Cx = std::complex<double>;
static void given(double psi) {
#ifdef VC_VERIFY
  vcw::psi_new = psi;
#else
  vcw::g().bad.clear(); vcw::g().free = true; vcw::g().psi = [psi](const vcw::Cells &) { return std::complex<double>(psi, 0); };
#endif
}
// any lattice, any non-zero amplitude: what the callbacks are given and how often they are called
GOAL(horizontal_count) {
  size_t R = vc::any_size("rows", 1, 6), C = vc::any_size("cols", 2, 6); double psi = vc::any_double("psi"); vc::require(psi != 0); given(psi);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; double n = 0;
  auto bond = [&](const SiteIdx &a, const SiteIdx &b, BondOrientation d, double inv) {
    n += 1; vc::check(d == HORIZONTAL && a[0] == b[0] && a[1] + 1 == b[1] && b[1] < C && a[0] < R, "a horizontal bond of the lattice");
    vc::check(vc::eq(inv * psi, 1.0), "the inverse of the amplitude");
  };
  BondTraversalMixin::TraverseHorizontalBonds(tn, k, bond, nullptr, nullptr, list);
  vc::check(n == double(R) * (double(C) - 1), "as many calls as horizontal bonds");
  vc::check(list.size() == R, "one amplitude per row");
}
GOAL(vertical_count) {
  size_t R = vc::any_size("rows", 2, 6), C = vc::any_size("cols", 1, 6); double psi = vc::any_double("psi"); vc::require(psi != 0); given(psi);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; double n = 0;
  auto bond = [&](const SiteIdx &a, const SiteIdx &b, BondOrientation d, double inv) {
    n += 1; vc::check(d == VERTICAL && a[1] == b[1] && a[0] + 1 == b[0] && b[0] < R && a[1] < C, "a vertical bond of the lattice");
    vc::check(vc::eq(inv * psi, 1.0), "the inverse of the amplitude");
  };
  BondTraversalMixin::TraverseVerticalBonds(tn, k, bond, list);
  vc::check(n == double(C) * (double(R) - 1), "as many calls as vertical bonds");
  vc::check(list.size() == C, "one amplitude per column");
}
// an arbitrary bond: it is visited, and not a second time
GOAL(horizontal_once) {
  size_t R = vc::any_size("rows", 1, 6), C = vc::any_size("cols", 2, 6), r = vc::any_size("r", 0, 5), c = vc::any_size("c", 0, 4); vc::require(r < R && c + 1 < C); given(1.0);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; bool seen = false, twice = false;
  auto bond = [&](const SiteIdx &a, const SiteIdx &, BondOrientation, double) { if (a[0] == r && a[1] == c) { if (seen) twice = true; seen = true; } };
  BondTraversalMixin::TraverseHorizontalBonds(tn, k, bond, nullptr, nullptr, list);
  vc::check(seen, "every horizontal bond is visited"); vc::check(!twice, "no horizontal bond is visited twice");
}
GOAL(vertical_once) {
  size_t R = vc::any_size("rows", 2, 6), C = vc::any_size("cols", 1, 6), r = vc::any_size("r", 0, 4), c = vc::any_size("c", 0, 5); vc::require(r + 1 < R && c < C); given(1.0);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; bool seen = false, twice = false;
  auto bond = [&](const SiteIdx &a, const SiteIdx &, BondOrientation, double) { if (a[0] == r && a[1] == c) { if (seen) twice = true; seen = true; } };
  BondTraversalMixin::TraverseVerticalBonds(tn, k, bond, list);
  vc::check(seen, "every vertical bond is visited"); vc::check(!twice, "no vertical bond is visited twice");
}
GOAL(diagonal_once) {
  size_t R = vc::any_size("rows", 2, 6), C = vc::any_size("cols", 2, 6), r = vc::any_size("r", 0, 4), c = vc::any_size("c", 0, 4); bool down = vc::any_bool("down"); vc::require(r + 1 < R && c + 1 < C); given(1.0);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; bool seen = false, twice = false;
  auto bond = [&](const SiteIdx &, const SiteIdx &, BondOrientation, double) {};
  auto link = [&](const SiteIdx &a, const SiteIdx &b, DIAGONAL_DIR o, double, std::optional<double> &) {
    vc::check(a[1] + 1 == b[1] && (o == LEFTUP_TO_RIGHTDOWN ? a[0] + 1 == b[0] : a[0] == b[0] + 1) && a[0] < R && b[0] < R && b[1] < C, "a diagonal link of the lattice");
    if ((o == LEFTUP_TO_RIGHTDOWN) == down && a[1] == c && (down ? a[0] == r : b[0] == r)) { if (seen) twice = true; seen = true; }
  };
  BondTraversalMixin::TraverseHorizontalBonds(tn, k, bond, link, nullptr, list);
  vc::check(seen, "every diagonal link is visited"); vc::check(!twice, "no diagonal link is visited twice");
}
GOAL(zero_amplitude) {
  size_t R = vc::any_size("rows", 2, 6), C = vc::any_size("cols", 2, 6); bool vertical = vc::any_bool("vertical"); given(0);
  TensorNetwork2D<double, VcQN> tn(R, C); BMPSContractor<double, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> list; double n = 0;
  auto bond = [&](const SiteIdx &, const SiteIdx &, BondOrientation, double) { n += 1; };
  bool refused = vc::throws([&] { if (vertical) BondTraversalMixin::TraverseVerticalBonds(tn, k, bond, list); else BondTraversalMixin::TraverseHorizontalBonds(tn, k, bond, nullptr, nullptr, list); });
  vc::check(refused && n == 0 && list.empty(), "a vanishing amplitude is refused before anything is measured");
}
#ifndef VC_VERIFY
template<class E> void traverse() {
  size_t R = vc::any_size("rows", 2, 5), C = vc::any_size("cols", 2, 5), d = 3, id = vc::any_size("world", 0, 1u << 30); bool cplx = std::is_same_v<E, Cx>;
  vcw::g().free = false; vcw::g().bad.clear();
  vcw::g().psi = [cplx, id](const vcw::Cells &c) {
    unsigned long long h = 1469598103934665603ull ^ (id * 0x9E3779B97F4A7C15ull); for (long x : c) { h ^= (unsigned long long) (x + 7); h *= 1099511628211ull; h ^= h >> 29; }
    std::mt19937_64 e(h); auto unit = [&] { return (double) (e() >> 11) / 9007199254740992.0; }; double m = 0.2 + 2 * unit();
    if (cplx && id % 4 == 0) return Cx(0, m); if (cplx && id % 4 == 1) return Cx(-m, 0);
    return cplx ? std::polar(m, 6.3 * unit()) : Cx(unit() < 0.5 ? m : -m);
  };
  std::vector<size_t> s = vc::any_sizes("config", R * C, 0, d - 1); std::vector<std::vector<size_t>> t(R, std::vector<size_t>(C)); for (size_t i = 0; i < R * C; i++) t[i / C][i % C] = s[i];
  Configuration cfg(t); SplitIndexTPS<E, VcQN> ps(R, C, d); TensorNetwork2D<E, VcQN> tn(ps, cfg); BMPSContractor<E, VcQN> k(R, C); k.Init(tn); vcw::Trunc tr; tr.id = 1; k.SetTruncateParams(tr);
  E psi = vcw::cast<E>(vcw::g().psi(tn.cells())); std::set<std::array<size_t, 4>> bonds, links; std::set<size_t> rows; size_t nb = 0, nl = 0, nr = 0; std::vector<E> list;
  auto bond = [&](const SiteIdx &a, const SiteIdx &b, BondOrientation o, E inv) {
    nb++; bonds.insert({a[0], a[1], b[0], b[1]}); vc::check(vc::eq(std::abs(inv * psi - E(1)), 0.0) || std::abs(inv * psi - E(1)) < 1e-9, "the inverse of the amplitude");
    vc::check(o == HORIZONTAL ? a[0] == b[0] && a[1] + 1 == b[1] : a[1] == b[1] && a[0] + 1 == b[0], "the orientation is that of the bond");
    E z = k.ReplaceNNSiteTrace(tn, a, b, o, ps(a)[cfg(a)], ps(b)[cfg(b)]); vc::check(!vcw::g().bad.empty() || z == psi, "the environment of the bond is at hand");
  };
  auto link = [&](const SiteIdx &a, const SiteIdx &b, DIAGONAL_DIR o, E inv, std::optional<E> &) {
    nl++; links.insert({a[0], a[1], b[0], b[1]}); vc::check(std::abs(inv * psi - E(1)) < 1e-9, "the inverse of the amplitude");
    vc::check(o == LEFTUP_TO_RIGHTDOWN ? a[0] + 1 == b[0] && a[1] + 1 == b[1] : a[0] == b[0] + 1 && a[1] + 1 == b[1], "the direction is that of the diagonal link");
    E z = k.window2(tn, std::min(a[0], b[0]), a[1]); vc::check(!vcw::g().bad.empty() || z == psi, "the environment of the plaquette is at hand");
  };
  auto line = [&](size_t row, E inv) { nr++; rows.insert(row); vc::check(std::abs(inv * psi - E(1)) < 1e-9, "the inverse of the amplitude"); };
  bool with_links = vc::any_bool("links"), with_rows = vc::any_bool("long_range");
  if (with_links && with_rows) BondTraversalMixin::TraverseAllBonds(tn, k, bond, link, line, list);
  else if (with_links) BondTraversalMixin::TraverseAllBonds(tn, k, bond, link, nullptr, list);
  else if (with_rows) BondTraversalMixin::TraverseAllBonds(tn, k, bond, nullptr, line, list);
  else BondTraversalMixin::TraverseAllBonds(tn, k, bond, nullptr, nullptr, list);
  vc::check(vcw::g().bad.empty(), vcw::g().bad.empty() ? "environments are used as they are built" : vcw::g().bad.c_str());
  vc::check(nb == bonds.size() && nb == R * (C - 1) + C * (R - 1), "every nearest-neighbour bond exactly once");
  vc::check(nl == links.size() && nl == (with_links ? 2 * (R - 1) * (C - 1) : 0), "every diagonal link exactly once");
  vc::check(nr == rows.size() && nr == (with_rows ? R : 0), "every row exactly once");
  vc::check(list.size() == R + C, "one amplitude per row and column"); for (auto &z : list) vc::check(z == psi, "the listed amplitudes are the amplitude");
}
#endif
BGOAL(traversal) {
#ifndef VC_VERIFY
  if (vc::any_bool("cplx")) traverse<Cx>(); else traverse<double>();
#endif
}
#include "vc_main.h"
