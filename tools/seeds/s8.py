import os
V = os.environ.get("SEEDSRC", "/verif/")
FILES = {n: open(V + s).read() for n, s in [("mpi.h", "stubs/mpi.h"), ("qlten/qlten.h", "stubs/qlten/qlten.h"), ("qlten/framework/hp_numeric/mpi_fun.h", "stubs/qlten/framework/hp_numeric/mpi_fun.h"),
  ("qlten/framework/hp_numeric/backend_selector.h", "stubs/qlten/framework/hp_numeric/backend_selector.h"), ("qlten/utility/timer.h", "stubs/qlten/utility/timer.h"), ("vc_wf.h", "include/vc_wf.h")]}
U = "include/qlpeps/vmc_basic/configuration_update_strategies/"
T = "include/qlpeps/algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h"
H = """#include "vc_wf.h"
using namespace qlpeps; using Cx = std::complex<double>;
static void draw(double u) { vcw::script().constant = true; vcw::script().value = (unsigned) (u * 4294967296.0); }
template<class F> void psi(F f) { vcw::g().psi = f; vcw::g().free = true; }
static Configuration table(size_t R, size_t C, size_t d) { std::vector<std::vector<size_t>> t(R, std::vector<size_t>(C)); for (size_t i = 0; i < R * C; i++) t[i / C][i % C] = i % d; return Configuration(t); }
"""
S = [
 dict(id="b34", property="C16", files=FILES, flags="-DNDEBUG", needs="two Hubbard sites that hold one electron (or three) together", breaks="bonds with exactly two allowed states are treated as frozen, so a lone electron never hops",
  edits=[(U + "square_hubbard_u1u1_updater.h", "    if (valid_configs.size() <= 1) {", "    if (valid_configs.size() <= 2) {")],
  demo=H + """int main() { psi([](const vcw::Cells &) { return Cx(1.0); }); SplitIndexTPS<double, VcQN> ps(1, 2, 4); Configuration c(std::vector<std::vector<size_t>>{{1, 3}}); vcw::Trunc tr; TPSWaveFunctionComponent<double, VcQN> w(ps, c, tr); bool any = false;
 for (double u = 0.05; u < 1; u += 0.1) { draw(u); MCUpdateSquareNNHubbardU1U1OBC up(1u); any = any || up.TwoSiteNNUpdateLocalImpl(SiteIdx{0, 0}, SiteIdx{0, 1}, HORIZONTAL, ps, w); } return any ? 0 : 1; }
"""),
 dict(id="b35", property="C16", files=FILES, flags="-DNDEBUG", needs="complex amplitudes with a relative phase", breaks="the exchange is accepted with the squared real part of the amplitude ratio instead of its squared modulus",
  edits=[(U + "square_nn_updater.h", "    bool exchange;\n    TenElemT &psi_a = tps_component.amplitude;\n    if (std::abs(psi_b) >= std::abs(psi_a)) {\n      exchange = true;\n    } else {\n      double div = std::abs(psi_b) / std::abs(psi_a);", "    bool exchange;\n    TenElemT &psi_a = tps_component.amplitude;\n    if (std::abs(psi_b) >= std::abs(psi_a)) {\n      exchange = true;\n    } else {\n      double div = std::abs(std::real(psi_b / psi_a));")],
  demo=H + """int main() { psi([](const vcw::Cells &c) { return c[0] == 0 ? Cx(1, 0) : Cx(0, 0.9); }); SplitIndexTPS<Cx, VcQN> ps(1, 2, 2); Configuration c(std::vector<std::vector<size_t>>{{0, 1}}); vcw::Trunc tr; TPSWaveFunctionComponent<Cx, VcQN> w(ps, c, tr);
 draw(0.5); MCUpdateSquareNNExchangeOBC up(1u); return up.TwoSiteNNUpdateLocalImpl(SiteIdx{0, 0}, SiteIdx{0, 1}, HORIZONTAL, ps, w) ? 0 : 1; }
"""),
 dict(id="b36", property="C16", files=FILES, flags="-DNDEBUG", needs="a periodic lattice with more columns than rows", breaks="on lattices wider than high the last columns' bonds are never tried, so their configuration is frozen",
  edits=[(U + "square_nn_updater.h", "dist_col(0, cols - 1);", "dist_col(0, std::min(rows, cols) - 1);")],
  demo=H + """static std::set<size_t> cols; struct Rec : MCUpdateSquareNNUpdateBasePBC<Rec> { using MCUpdateSquareNNUpdateBasePBC<Rec>::MCUpdateSquareNNUpdateBasePBC;
 template<class E, class Q, class D, template<class, class> class K> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &, BondOrientation, const SplitIndexTPS<E, Q> &, TPSWaveFunctionComponent<E, Q, D, K> &) { cols.insert(a[1]); return false; } };
int main() { psi([](const vcw::Cells &) { return Cx(1.0); }); SplitIndexTPS<double, VcQN> ps(2, 4, 2); vcw::Trunc tr; TPSWaveFunctionComponent<double, VcQN, NoDress, TRGContractor> w(ps, table(2, 4, 2), tr); Rec u(1u); std::vector<double> r; for (int k = 0; k < 50; k++) u(ps, w, r); return cols.size() == 4 ? 0 : 1; }
"""),
 dict(id="b37", property="C16", files=FILES, flags="-DNDEBUG", needs="a lattice that is not square", breaks="the acceptance rate of the three-site sweep is divided by the number of triples of a square lattice, so it is wrong (and may exceed 1) on others",
  edits=[(U + "square_3site_updater.h", "tn.cols() * (tn.rows() - 2) + tn.rows() * (tn.cols() - 2);", "tn.rows() * (tn.rows() - 2) + tn.cols() * (tn.cols() - 2);")],
  demo=H + """struct Rec : MCUpdateSquareTNN3SiteUpdateBase<Rec> { template<class E, class Q> bool TNN3SiteUpdateImpl(const SiteIdx &, const SiteIdx &, const SiteIdx &, BondOrientation, const SplitIndexTPS<E, Q> &, TPSWaveFunctionComponent<E, Q, NoDress> &) { return true; } };
int main() { psi([](const vcw::Cells &) { return Cx(1.0); }); SplitIndexTPS<double, VcQN> ps(3, 5, 2); vcw::Trunc tr; TPSWaveFunctionComponent<double, VcQN> w(ps, table(3, 5, 2), tr); Rec u; std::vector<double> r; u(ps, w, r); return r.size() == 1 && std::abs(r[0] - 1) < 1e-12 ? 0 : 1; }
"""),
 dict(id="b38", property="C15", files=FILES, flags="-DNDEBUG", needs="a purely imaginary amplitude", breaks="an amplitude without real part is refused as if it were zero",
  edits=[(T, "      auto psi = contractor.Trace(tn, {0, col}, VERTICAL);\n      if (psi == TenElemT(0)) [[unlikely]] {", "      auto psi = contractor.Trace(tn, {0, col}, VERTICAL);\n      if (std::real(psi) == 0.0) [[unlikely]] {")],
  demo=H + """int main() { psi([](const vcw::Cells &) { return Cx(0, 1); }); SplitIndexTPS<Cx, VcQN> ps(2, 2, 2); Configuration c = table(2, 2, 2); TensorNetwork2D<Cx, VcQN> tn(ps, c); BMPSContractor<Cx, VcQN> k(2, 2); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<Cx> l; int n = 0;
 try { BondTraversalMixin::TraverseAllBonds(tn, k, [&](const SiteIdx &, const SiteIdx &, BondOrientation, Cx) { n++; }, nullptr, nullptr, l); } catch (const std::runtime_error &) { return 1; } return n == 4 && l.size() == 4 ? 0 : 1; }
"""),
 dict(id="b39", property="C15", files=FILES, flags="-DNDEBUG", needs="two rows whose contractions give the same number", breaks="equal amplitudes of successive rows are listed once, so the consistency summary is not over one amplitude per row and column",
  edits=[(T, "      TenElemT inv_psi = 1.0 / psi; // now only useful for boson case\n      psi_list.push_back(psi);", "      TenElemT inv_psi = 1.0 / psi; // now only useful for boson case\n      if (psi_list.empty() || psi_list.back() != psi) {\n        psi_list.push_back(psi);\n      }")],
  demo=H + """int main() { psi([](const vcw::Cells &) { return Cx(2); }); SplitIndexTPS<double, VcQN> ps(3, 2, 2); Configuration c = table(3, 2, 2); TensorNetwork2D<double, VcQN> tn(ps, c); BMPSContractor<double, VcQN> k(3, 2); k.Init(tn); vcw::Trunc tr; k.SetTruncateParams(tr); std::vector<double> l; int n = 0;
 BondTraversalMixin::TraverseAllBonds(tn, k, [&](const SiteIdx &, const SiteIdx &, BondOrientation, double) { n++; }, nullptr, nullptr, l); return l.size() == 5 ? 0 : 1; }
"""),
]
