// C16: Monte-Carlo updaters on square lattices (exchange, full space, Hubbard U(1)xU(1), three-site exchange; open and periodic) and the wave function component.
#include "vc.h"
#include "vc_wf.h"
using namespace qlpeps;
using Cx = std::complex<double>;
template<class W> struct Holder { W amplitude; };
GOAL(amplitude_validity) {
  Holder<double> h; h.amplitude = vc::any_double("amplitude"); double lo = vc::any_double("lo"), hi = vc::any_double("hi");
  double m = h.amplitude < 0 ? -h.amplitude : h.amplitude;
  vc::check(CheckWaveFunctionAmplitudeValidity(h, lo, hi) == (m > lo && m < hi), "valid exactly strictly between the thresholds");
}
GOAL(hubbard_counts) {
  size_t c = vc::any_size("c", 0, 3); auto n = HubbardConfig2SpinCounts(c);
  vc::check(n.first == (size_t) (c == 0 || c == 1) && n.second == (size_t) (c == 0 || c == 2), "spin counts of the four states");
}
// one exchange on one bond: any states, any amplitudes before and after, any draw
template<class E> E amp(double re, double im) { if constexpr (std::is_same_v<E, double>) return re; else return E(re, im); }
template<class E, class W, class U> void exchange_rule() {
  size_t c1 = vc::any_size("c1", 0, 9), c2 = vc::any_size("c2", 0, 9); std::vector<double> us = vc::any_units("u", 1); double u = us[0];
  double ar = vc::any_double("ar"), ai = 0, br = vc::any_double("br"), bi = 0; if constexpr (!std::is_same_v<E, double>) { ai = vc::any_double("ai"); bi = vc::any_double("bi"); }
  double na = ar * ar + ai * ai, nb = br * br + bi * bi; vc::require(na > 0);
#ifdef VC_VERIFY
  vcw::draws = us; vcw::psi_new = br; vcw::psi_new_im = bi; vcw::asked = 0;
#else
  vc::require(na > 1e-200 && na < 1e200 && nb < 1e200 && !vc::close(u, nb / na)); vcw::script().constant = true; vcw::script().value = (unsigned) (u * 4294967296.0); vc::require(std::abs(nb / na - u) > 1e-8);
  vcw::g().bad.clear(); vcw::g().free = true; vcw::g().psi = [=](const vcw::Cells &c) { return c == vcw::Cells{(long) c2, (long) c1} ? std::complex<double>(br, bi) : std::complex<double>(ar, ai); };
#endif
  SplitIndexTPS<E, VcQN> ps(1, 2, 10); vcw::Trunc tr; W w(1, 2, tr); SiteIdx s1{0, 0}, s2{0, 1};
  w.config(s1) = c1; w.config(s2) = c2; w.tn.UpdateSiteTensor(s1, c1, ps); w.tn.UpdateSiteTensor(s2, c2, ps); w.contractor.Init(w.tn); w.amplitude = amp<E>(ar, ai);
  U up(1u); bool moved = up.TwoSiteNNUpdateLocalImpl(s1, s2, HORIZONTAL, ps, w);
  bool expect = c1 != c2 && (nb >= na || u * na < nb);
  vc::check(moved == expect, "accepted exactly when the draw is below min(1, |new/old|^2)");
  vc::check(w.config(s1) == (expect ? c2 : c1) && w.config(s2) == (expect ? c1 : c2), "an accepted exchange swaps the two states, a rejected one keeps them");
  vc::check(w.tn(s1).s == w.config(s1) && w.tn(s2).s == w.config(s2) && w.tn(s1).c == 0 && w.tn(s2).c == 1, "the network holds the tensors of the configuration");
  vc::check(w.amplitude == (expect ? amp<E>(br, bi) : amp<E>(ar, ai)), "the amplitude is that of the configuration");
#ifdef VC_VERIFY
  if (vcw::asked > 0) vc::check(vcw::got1 == c2 && vcw::got2 == c1, "the amplitude asked for is that of the exchanged configuration");
  if constexpr (requires { w.contractor.erased; }) vc::check((w.contractor.erased > 0) == expect && (!expect || w.contractor.erased >= 3), "environments with either site are dropped after a move");
  if constexpr (requires { w.contractor.commits; }) vc::check(w.contractor.commits == (size_t) expect && (!expect || (w.contractor.c1 == c2 && w.contractor.c2 == c1)), "the accepted trial and no other is committed");
#endif
}
template<class E> using Open = TPSWaveFunctionComponent<E, VcQN>;
template<class E> using Ring = TPSWaveFunctionComponent<E, VcQN, NoDress, TRGContractor>;
GOAL(exchange_rule_open) { exchange_rule<double, Open<double>, MCUpdateSquareNNExchangeOBC>(); }
GOAL(exchange_rule_open_complex) { exchange_rule<Cx, Open<Cx>, MCUpdateSquareNNExchangeOBC>(); }
GOAL(exchange_rule_periodic) { exchange_rule<double, Ring<double>, MCUpdateSquareNNExchangePBC>(); }
GOAL(exchange_rule_periodic_complex) { exchange_rule<Cx, Ring<Cx>, MCUpdateSquareNNExchangePBC>(); }
// a sweep of any lattice: an arbitrary bond is tried, and once
static size_t at_r, at_c; static BondOrientation at_d; static bool seen_once, seen_twice, answer;
struct Once : MCUpdateSquareNNUpdateBaseOBC<Once> {
  using MCUpdateSquareNNUpdateBaseOBC<Once>::MCUpdateSquareNNUpdateBaseOBC;
  template<class E, class Q> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const SplitIndexTPS<E, Q> &ps, TPSWaveFunctionComponent<E, Q> &w) {
    vc::check(a[0] < w.tn.rows() && a[1] < w.tn.cols() && b[0] < w.tn.rows() && b[1] < w.tn.cols() && (d == HORIZONTAL ? a[0] == b[0] && a[1] + 1 == b[1] : a[1] == b[1] && a[0] + 1 == b[0]), "a bond of the lattice");
    if (a[0] == at_r && a[1] == at_c && d == at_d) { if (seen_once) seen_twice = true; seen_once = true; }
    return false;
  }
};
GOAL(sweep_once) {
  size_t R = vc::any_size("rows", 2, 5), C = vc::any_size("cols", 2, 5); at_r = vc::any_size("r", 0, 4); at_c = vc::any_size("c", 0, 4); at_d = vc::any_bool("vertical") ? VERTICAL : HORIZONTAL;
  vc::require(at_d == HORIZONTAL ? at_r < R && at_c + 1 < C : at_r + 1 < R && at_c < C);
#ifndef VC_VERIFY
  vcw::g().bad.clear(); vcw::g().free = true;
#endif
  SplitIndexTPS<double, VcQN> ps(R, C, 2); vcw::Trunc tr; TPSWaveFunctionComponent<double, VcQN> w(R, C, tr); w.contractor.Init(w.tn); seen_once = seen_twice = false; std::vector<double> rate;
  Once u(1u); u(ps, w, rate);
  vc::check(seen_once, "every bond is tried"); vc::check(!seen_twice, "no bond is tried twice"); vc::check(rate.size() == 1 && rate[0] == 0, "nothing accepted: rate 0");
}
#ifndef VC_VERIFY
// an arbitrary wave function: a hash of the configuration and a drawn number
static void world(bool cplx, bool zeros) {
  size_t id = vc::any_size("world", 0, 1u << 30);
  std::cout.setstate(std::ios::failbit); vcw::g().free = false; vcw::g().bad.clear();
  vcw::g().psi = [cplx, zeros, id](const vcw::Cells &c) {
    unsigned long long h = 1469598103934665603ull ^ (id * 0x9E3779B97F4A7C15ull); for (long x : c) { h ^= (unsigned long long) (x + 7); h *= 1099511628211ull; h ^= h >> 29; }
    std::mt19937_64 e(h); auto unit = [&] { return (double) (e() >> 11) / 9007199254740992.0; };
    double m = 0.2 + 2 * unit(), a = 6.3 * unit(); if (zeros && unit() < 0.15) m = 0; if (unit() < 0.12) m *= 10;
    return cplx ? std::polar(m, a) : Cx(unit() < 0.5 ? m : -m);
  };
}
static void rng() { auto &s = vcw::script(); s.constant = false; s.gen.seed((unsigned) vc::any_size("seed", 0, 1u << 30)); }
static void fixed(double u) { auto &s = vcw::script(); s.constant = true; s.value = (unsigned) (u * 4294967296.0); }
static Configuration any_config(size_t R, size_t C, size_t d) {
  std::vector<size_t> s = vc::any_sizes("config", R * C, 0, d - 1); std::vector<std::vector<size_t>> t(R, std::vector<size_t>(C));
  for (size_t i = 0; i < R * C; i++) t[i / C][i % C] = s[i];
  return Configuration(t);
}
template<class W> vcw::Cells cells_of(const W &w) { vcw::Cells c; for (size_t i = 0; i < w.config.rows(); i++) for (size_t j = 0; j < w.config.cols(); j++) c.push_back((long) w.config({i, j})); return c; }
template<class E, class W> void in_step(const W &w) {
  vc::check(vcw::g().bad.empty(), vcw::g().bad.empty() ? "environments are used as they are built" : vcw::g().bad.c_str());
  vc::check(w.tn.cells() == cells_of(w), "the network holds the tensors of the configuration");
  vc::check(w.amplitude == vcw::cast<E>(vcw::g().psi(cells_of(w))), "the amplitude is that of the configuration");
  if constexpr (requires { w.contractor.cached; }) vc::check(w.contractor.cached == cells_of(w), "the contractor's cache is that of the configuration");
}
template<class E> using Wf = TPSWaveFunctionComponent<E, VcQN>;
template<class E> using Wt = TPSWaveFunctionComponent<E, VcQN, NoDress, TRGContractor>;
template<class E> using Ps = SplitIndexTPS<E, VcQN>;

// local moves: transition matrix over all draws u (N midpoints), from every state of the allowed set
enum Kind { EXCHANGE, FULL, HUBBARD, TRIPLE };
static long up(size_t s) { return s == 0 || s == 1; }
static long dn(size_t s) { return s == 0 || s == 2; }
template<class E, class W, class U> void kernel(Kind k, bool pbc) {
  size_t R = vc::any_size("rows", k == TRIPLE ? 3 : 2, 4), C = vc::any_size("cols", k == TRIPLE ? 3 : 2, 4), d = k == HUBBARD ? 4 : k == FULL ? vc::any_size("d", 2, 3) : vc::any_size("d", 2, 4);
  world(std::is_same_v<E, Cx>, true); Ps<E> ps(R, C, d); Configuration base = any_config(R, C, d);
  BondOrientation dir = vc::any_bool("vertical") ? VERTICAL : HORIZONTAL; size_t n = k == TRIPLE ? 3 : 2, dr = dir == VERTICAL, dc = dir == HORIZONTAL;
  size_t r = vc::any_size("r", 0, pbc ? R - 1 : R - 1 - dr * (n - 1)), c = vc::any_size("c", 0, pbc ? C - 1 : C - 1 - dc * (n - 1));
  std::vector<SiteIdx> site; for (size_t i = 0; i < n; i++) site.push_back(SiteIdx{(r + i * dr) % R, (c + i * dc) % C});
  std::vector<size_t> cur; for (auto &s : site) cur.push_back(base(s));
  // the allowed set
  std::vector<std::vector<size_t>> S; size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= d;
  for (size_t x = 0; x < tot; x++) {
    std::vector<size_t> v; for (size_t i = 0, y = x; i < n; i++, y /= d) v.push_back(y % d);
    bool ok = true;
    if (k == EXCHANGE || k == TRIPLE) { auto a = v, b = cur; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok = a == b; }
    if (k == HUBBARD) ok = up(v[0]) + up(v[1]) == up(cur[0]) + up(cur[1]) && dn(v[0]) + dn(v[1]) == dn(cur[0]) + dn(cur[1]);
    if (ok) S.push_back(v);
  }
  auto config = [&](const std::vector<size_t> &v) { Configuration g(base); for (size_t i = 0; i < n; i++) g(site[i]) = v[i]; return g; };
  std::vector<double> pi; double Z = 0; std::vector<E> amp;
  for (auto &v : S) { Configuration g = config(v); vcw::Cells cs; for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) cs.push_back((long) g({i, j})); amp.push_back(vcw::cast<E>(vcw::g().psi(cs))); pi.push_back(std::norm(amp.back())); Z += pi.back(); }
  vc::require(Z > 0);
  const size_t N = 160; std::vector<std::vector<double>> K(S.size(), std::vector<double>(S.size(), 0));
  for (size_t x = 0; x < S.size(); x++) if (pi[x] > 0) for (size_t q = 0; q < N; q++) {
    vcw::g().free = false; Configuration g = config(S[x]); vcw::Trunc tr; tr.id = 1; W w(ps, g, tr); vcw::g().free = true;
    fixed((q + 0.5) / N); U u(1u); bool moved;
    if constexpr (requires { u.TNN3SiteUpdateImpl(site[0], site[1], site[2], dir, ps, w); }) moved = u.TNN3SiteUpdateImpl(site[0], site[1], site[2], dir, ps, w);
    else moved = u.TwoSiteNNUpdateLocalImpl(site[0], site[1], dir, ps, w);
    in_step<E>(w);
    std::vector<size_t> y; for (auto &s : site) y.push_back(w.config(s));
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) { bool in = false; for (auto &s : site) in = in || (s[0] == i && s[1] == j); if (!in) vc::check(w.config({i, j}) == base({i, j}), "no other site changes"); }
    size_t yi = std::find(S.begin(), S.end(), y) - S.begin();
    vc::check(yi < S.size(), "the move stays in the allowed set (conserved numbers)");
    vc::check(pi[yi] > 0, "no move into a configuration of zero amplitude");
    if (!(k == EXCHANGE && S[x] == y)) vc::check(moved == (y != S[x]), "the move reports whether the configuration changed");
    K[x][yi] += 1.0 / N;
  }
  for (size_t y = 0; y < S.size(); y++) {
    double in = 0, from = 0; for (size_t x = 0; x < S.size(); x++) { in += pi[x] * K[x][y]; if (x != y) from += K[x][y]; }
    vc::check(std::abs(in - pi[y]) <= 2.5 / N * Z, "the squared amplitude is stationary under the move");
    size_t pos = 0; for (double p : pi) pos += p > 0;
    if (pos > 1 && pi[y] > 3.0 / N * Z) vc::check(from > 0, "every allowed configuration can be reached");
  }
  if (k == EXCHANGE) for (size_t x = 0; x < S.size(); x++) for (size_t y = 0; y < S.size(); y++) if (x != y && pi[x] > 0)
    vc::check(std::abs(K[x][y] - std::min(1.0, pi[y] / pi[x])) <= 1.5 / N, "accepted with probability min(1, |new/old|^2)");
}
struct Triple : MCUpdateSquareTNN3SiteExchange { Triple(unsigned) {} };
static void move_exchange() { if (vc::any_bool("cplx")) kernel<Cx, Wf<Cx>, MCUpdateSquareNNExchangeOBC>(EXCHANGE, false); else kernel<double, Wf<double>, MCUpdateSquareNNExchangeOBC>(EXCHANGE, false); }
static void move_exchange_pbc() { if (vc::any_bool("cplx")) kernel<Cx, Wt<Cx>, MCUpdateSquareNNExchangePBC>(EXCHANGE, true); else kernel<double, Wt<double>, MCUpdateSquareNNExchangePBC>(EXCHANGE, true); }
static void move_full() { if (vc::any_bool("cplx")) kernel<Cx, Wf<Cx>, MCUpdateSquareNNFullSpaceUpdateOBC>(FULL, false); else kernel<double, Wf<double>, MCUpdateSquareNNFullSpaceUpdateOBC>(FULL, false); }
static void move_full_pbc() { if (vc::any_bool("cplx")) kernel<Cx, Wt<Cx>, MCUpdateSquareNNFullSpaceUpdatePBC>(FULL, true); else kernel<double, Wt<double>, MCUpdateSquareNNFullSpaceUpdatePBC>(FULL, true); }
static void move_hubbard() { if (vc::any_bool("cplx")) kernel<Cx, Wf<Cx>, MCUpdateSquareNNHubbardU1U1OBC>(HUBBARD, false); else kernel<double, Wf<double>, MCUpdateSquareNNHubbardU1U1OBC>(HUBBARD, false); }
static void move_triple() { if (vc::any_bool("cplx")) kernel<Cx, Wf<Cx>, Triple>(TRIPLE, false); else kernel<double, Wf<double>, Triple>(TRIPLE, false); }

// sweeps: every bond once, with its environment at hand, and the rate is accepted / tried
struct Visit { SiteIdx a, b; BondOrientation d; };
static std::vector<Visit> seen; static size_t yes; static std::vector<bool> answers; static bool touch;
template<class W, class P> bool visit(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const P &ps, W &w) {
  seen.push_back({a, b, d}); bool ans = answers[seen.size() % answers.size()]; yes += ans;
  if constexpr (requires { w.contractor.bten; }) {
    auto z = w.contractor.ReplaceNNSiteTrace(w.tn, a, b, d, ps(a)[w.config(a)], ps(b)[w.config(b)]);
    vc::check(!vcw::g().bad.empty() || z == w.amplitude, "the environment of the visited bond is current");
    if (touch && ans) { auto y = w.contractor.ReplaceNNSiteTrace(w.tn, a, b, d, ps(a)[w.config(b)], ps(b)[w.config(a)]); size_t x1 = w.config(a), x2 = w.config(b); w.UpdateLocal(ps, y, std::make_pair(a, x2), std::make_pair(b, x1)); }
  }
  return ans;
}
struct RecO : MCUpdateSquareNNUpdateBaseOBC<RecO> {
  using MCUpdateSquareNNUpdateBaseOBC<RecO>::MCUpdateSquareNNUpdateBaseOBC;
  template<class E, class Q> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const SplitIndexTPS<E, Q> &ps, TPSWaveFunctionComponent<E, Q> &w) { return visit(a, b, d, ps, w); }
};
struct RecP : MCUpdateSquareNNUpdateBasePBC<RecP> {
  using MCUpdateSquareNNUpdateBasePBC<RecP>::MCUpdateSquareNNUpdateBasePBC;
  template<class E, class Q, class D, template<class, class> class K> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const SplitIndexTPS<E, Q> &ps, TPSWaveFunctionComponent<E, Q, D, K> &w) { return visit(a, b, d, ps, w); }
};
struct RecT : MCUpdateSquareTNN3SiteUpdateBase<RecT> {
  template<class E, class Q> bool TNN3SiteUpdateImpl(const SiteIdx &a, const SiteIdx &b, const SiteIdx &c, BondOrientation d, const SplitIndexTPS<E, Q> &ps, TPSWaveFunctionComponent<E, Q, NoDress> &w) {
    vc::check(d == HORIZONTAL ? a[0] == b[0] && b[0] == c[0] && a[1] + 1 == b[1] && b[1] + 1 == c[1] : a[1] == b[1] && b[1] == c[1] && a[0] + 1 == b[0] && b[0] + 1 == c[0], "three sites in a row");
    seen.push_back({a, b, d}); bool ans = answers[seen.size() % answers.size()]; yes += ans;
    auto z = w.contractor.ReplaceTNNSiteTrace(w.tn, a, d, ps(a)[w.config(a)], ps(b)[w.config(b)], ps(c)[w.config(c)]);
    vc::check(!vcw::g().bad.empty() || z == w.amplitude, "the environment of the visited triple is current");
    if (touch && ans) { size_t x1 = w.config(a), x3 = w.config(c); auto y = w.contractor.ReplaceTNNSiteTrace(w.tn, a, d, ps(a)[x3], ps(b)[w.config(b)], ps(c)[x1]); w.UpdateLocal(ps, y, std::make_pair(a, x3), std::make_pair(c, x1)); }
    return ans;
  }
};
static void prepare(size_t) { seen.clear(); yes = 0; answers.clear(); size_t m = vc::any_size("period", 1, 7); for (auto x : vc::any_sizes("answers", m, 0, 1)) answers.push_back(x == 1); touch = vc::any_bool("touch"); }
template<class W> void sweep_bonds(size_t R, size_t C, size_t n) {
  std::set<std::array<size_t, 3>> s; for (auto &v : seen) s.insert({v.a[0], v.a[1], (size_t) v.d});
  size_t total = R * (C - n + 1) + C * (R - n + 1);
  vc::check(s.size() == seen.size() && seen.size() == total, "every bond is visited exactly once");
}
static void sweep_open() {
  size_t R = vc::any_size("rows", 2, 5), C = vc::any_size("cols", 2, 5); world(false, false); Ps<double> ps(R, C, 3); vcw::Trunc tr; tr.id = 2; Wf<double> w(ps, any_config(R, C, 3), tr); rng(); prepare(0); RecO u(1u);
  for (int k = 0; k < 2; k++) { seen.clear(); yes = 0; std::vector<double> rate; u(ps, w, rate); sweep_bonds<Wf<double>>(R, C, 2); vc::check(rate.size() == 1 && vc::eq(rate[0], double(yes) / double(seen.size())), "the rate is accepted / tried"); in_step<double>(w); vc::check(w.contractor.trunc == 2, "the component's truncation parameters are used"); }
}
static void sweep_triples() {
  size_t R = vc::any_size("rows", 3, 5), C = vc::any_size("cols", 3, 5); world(false, false); Ps<double> ps(R, C, 3); vcw::Trunc tr; tr.id = 2; Wf<double> w(ps, any_config(R, C, 3), tr); rng(); prepare(0); RecT u;
  for (int k = 0; k < 2; k++) { seen.clear(); yes = 0; std::vector<double> rate; u(ps, w, rate); sweep_bonds<Wf<double>>(R, C, 3); vc::check(rate.size() == 1 && vc::eq(rate[0], double(yes) / double(seen.size())), "the rate is accepted / tried"); in_step<double>(w); }
}
static void sweep_periodic() {
  size_t R = vc::any_size("rows", 2, 4), C = vc::any_size("cols", 2, 4); world(false, false); Ps<double> ps(R, C, 3); vcw::Trunc tr; Wt<double> w(ps, any_config(R, C, 3), tr); rng(); prepare(0); RecP u(1u); std::set<std::array<size_t, 3>> all;
  for (int k = 0; k < 60; k++) {
    seen.clear(); yes = 0; std::vector<double> rate; u(ps, w, rate);
    vc::check(seen.size() == 2 * R * C, "as many trials as bonds");
    for (auto &v : seen) { vc::check(v.a[0] < R && v.a[1] < C && (v.d == HORIZONTAL ? v.b[0] == v.a[0] && v.b[1] == (v.a[1] + 1) % C : v.b[1] == v.a[1] && v.b[0] == (v.a[0] + 1) % R), "bonds of the periodic lattice"); all.insert({v.a[0], v.a[1], (size_t) v.d}); }
    vc::check(rate.size() == 1 && vc::eq(rate[0], double(yes) / double(seen.size())), "the rate is accepted / tried");
  }
  vc::check(all.size() == 2 * R * C, "every bond of the periodic lattice is tried, wrapping ones too");
}
template<class E, class W, class U> void chain(Kind k) {
  size_t lo = k == TRIPLE ? 3 : 2, R = vc::any_size("rows", lo, 4), C = vc::any_size("cols", lo, 4), d = k == HUBBARD ? 4 : 3; world(std::is_same_v<E, Cx>, true); Ps<E> ps(R, C, d); vcw::Trunc tr; tr.id = 3; W w(ps, any_config(R, C, d), tr); rng(); vc::require(std::abs(w.amplitude) > 0); U u(1u);
  auto inv = [&] { std::vector<size_t> n; if (k == FULL) return n; vcw::Cells c = cells_of(w); if (k == HUBBARD) { n.assign(2, 0); for (long x : c) { n[0] += up((size_t) x); n[1] += dn((size_t) x); } } else { n.assign(d, 0); for (long x : c) n[(size_t) x]++; } return n; };
  auto before = inv();
  for (int q = 0; q < 4; q++) { std::vector<double> rate; u(ps, w, rate); in_step<E>(w); vc::check(inv() == before, "the sweep conserves the particle numbers"); vc::check(rate.size() == 1 && rate[0] >= 0 && rate[0] <= 1, "one rate in [0, 1]"); vc::check(std::abs(w.amplitude) > 0, "never in a configuration of zero amplitude"); }
}
static void chains() {
  bool z = vc::any_bool("cplx"); switch (vc::any_size("updater", 0, 5)) {
    case 0: if (z) chain<Cx, Wf<Cx>, MCUpdateSquareNNExchangeOBC>(EXCHANGE); else chain<double, Wf<double>, MCUpdateSquareNNExchangeOBC>(EXCHANGE); break;
    case 1: if (z) chain<Cx, Wt<Cx>, MCUpdateSquareNNExchangePBC>(EXCHANGE); else chain<double, Wt<double>, MCUpdateSquareNNExchangePBC>(EXCHANGE); break;
    case 2: if (z) chain<Cx, Wf<Cx>, MCUpdateSquareNNFullSpaceUpdateOBC>(FULL); else chain<double, Wf<double>, MCUpdateSquareNNFullSpaceUpdateOBC>(FULL); break;
    case 3: if (z) chain<Cx, Wt<Cx>, MCUpdateSquareNNFullSpaceUpdatePBC>(FULL); else chain<double, Wt<double>, MCUpdateSquareNNFullSpaceUpdatePBC>(FULL); break;
    case 4: if (z) chain<Cx, Wf<Cx>, MCUpdateSquareNNHubbardU1U1OBC>(HUBBARD); else chain<double, Wf<double>, MCUpdateSquareNNHubbardU1U1OBC>(HUBBARD); break;
    default: if (z) chain<Cx, Wf<Cx>, Triple>(TRIPLE); else chain<double, Wf<double>, Triple>(TRIPLE);
  }
}
template<class E, class W> void component() {
  size_t R = vc::any_size("rows", 2, 4), C = vc::any_size("cols", 2, 4), d = 3; world(std::is_same_v<E, Cx>, true); Ps<E> ps(R, C, d); vcw::Trunc tr; tr.id = 4; rng();
  W w(ps, any_config(R, C, d), tr); in_step<E>(w);
  for (int k = 0; k < 4; k++) {
    switch (vc::any_size("op", 0, 2)) {
      case 0: { Configuration g = any_config(R, C, d); w.ReplaceGlobalConfig(ps, g); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) vc::check(w.config({i, j}) == g({i, j}), "the configuration is the new one"); break; }
      case 1: { std::vector<size_t> occ(d, 0); occ[0] = R * C / 2; occ[1] = R * C - occ[0]; w.RandomInit(ps, occ); std::vector<size_t> n(d, 0); for (long x : cells_of(w)) n[(size_t) x]++; vc::check(n == occ, "random initialisation keeps the occupation numbers"); break; }
      default: if constexpr (requires { w.contractor.cached; }) {
        SiteIdx s{vc::any_size("i", 0, R - 1), vc::any_size("j", 0, C - 1)}; size_t v = vc::any_size("v", 0, d - 1); auto before = cells_of(w); E a = w.amplitude;
        auto t = w.BeginTrial({{s, ps(s)[v]}}, {{s, v}}); vc::check(cells_of(w) == before && w.amplitude == a && w.contractor.cached == before, "a trial changes nothing");
        if (vc::any_bool("accept")) { w.AcceptTrial(std::move(t), ps); before[s[0] * C + s[1]] = (long) v; } else w.RejectTrial(std::move(t));
        vc::check(cells_of(w) == before, "an accepted trial changes exactly its site, a rejected one nothing");
      }
    }
    in_step<E>(w);
  }
}
static void hubbard_pairs() {
  for (size_t a = 0; a <= 2; a++) for (size_t b = 0; b <= 2; b++) {
    auto l = EnumerateHubbardTwoSiteConfigsWithU1U1(a, b); std::set<std::pair<size_t, size_t>> s(l.begin(), l.end()), e;
    for (size_t x = 0; x < 4; x++) for (size_t y = 0; y < 4; y++) if (up(x) + up(y) == (long) a && dn(x) + dn(y) == (long) b) e.insert({x, y});
    vc::check(s == e && l.size() == e.size(), "exactly the pairs with these numbers, each once");
  }
}
#define RUN(...) __VA_ARGS__
#else
#define RUN(...)
#endif
BGOAL(exchange_open) { RUN(move_exchange();) }
BGOAL(exchange_periodic) { RUN(move_exchange_pbc();) }
BGOAL(full_space_open) { RUN(move_full();) }
BGOAL(full_space_periodic) { RUN(move_full_pbc();) }
BGOAL(hubbard) { RUN(move_hubbard();) }
BGOAL(three_sites) { RUN(move_triple();) }
BGOAL(hubbard_enumeration) { RUN(hubbard_pairs();) }
BGOAL(sweep_open_lattice) { RUN(sweep_open();) }
BGOAL(sweep_three_sites) { RUN(sweep_triples();) }
BGOAL(sweep_periodic_lattice) { RUN(sweep_periodic();) }
BGOAL(chains_stay_consistent) { RUN(chains();) }
BGOAL(component_boundary) { RUN(if (vc::any_bool("cplx")) component<Cx, Wf<Cx>>(); else component<double, Wf<double>>();) }
BGOAL(component_trial) { RUN(if (vc::any_bool("cplx")) component<Cx, Wt<Cx>>(); else component<double, Wt<double>>();) }
#include "vc_main.h"
