import os
V = "/verif/"
FILES = {n: open(V + s).read() for n, s in [("mpi.h", "stubs/mpi.h"), ("qlten/qlten.h", "stubs/qlten/qlten.h"), ("qlten/framework/hp_numeric/mpi_fun.h", "stubs/qlten/framework/hp_numeric/mpi_fun.h"),
  ("qlten/framework/hp_numeric/backend_selector.h", "stubs/qlten/framework/hp_numeric/backend_selector.h"), ("qlten/utility/timer.h", "stubs/qlten/utility/timer.h"), ("vc_sitps.h", "include/vc_sitps.h")]}
I = "include/qlpeps/optimizer/"
H = r'''
#include <cmath>
#include "vc_sitps.h"
#include <cassert>
#include <cstring>
#define LAPACK_COL_MAJOR 102
typedef int lapack_int; typedef std::complex<double> lapack_complex_double;
// eigensolver for 1 x 1 and for 2 x 2 matrices
inline int LAPACKE_dsyev(int, char, char, int n, double *a, int, double *w) {
  if (n == 1) { w[0] = a[0]; a[0] = 1; return 0; }
  if (n != 2) return 1;
  double p = a[0], q = a[2], r = a[3], m = (p + r) / 2, t = std::sqrt((p - r) * (p - r) / 4 + q * q), th = 0.5 * std::atan2(2 * q, p - r);
  w[0] = m - t; w[1] = m + t; double c = std::cos(th), s = std::sin(th); a[2] = c; a[3] = s; a[0] = -s; a[1] = c; return 0;
}
inline int LAPACKE_zheev(int, char, char, int n, lapack_complex_double *a, int, double *w) {
  if (n == 1) { w[0] = a[0].real(); a[0] = 1; return 0; }
  if (n != 2) return 1;
  std::complex<double> q = a[2]; double p = a[0].real(), r = a[3].real(), g = std::abs(q), m = (p + r) / 2, t = std::sqrt((p - r) * (p - r) / 4 + g * g); std::complex<double> ph = g > 0 ? q / g : 1.0; double th = 0.5 * std::atan2(2 * g, p - r);
  w[0] = m - t; w[1] = m + t; double c = std::cos(th), s = std::sin(th); a[2] = c * ph; a[3] = s; a[0] = -s * ph; a[1] = c; return 0;
}
#define private public
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_impl.h"
#undef private
using namespace qlpeps; typedef SplitIndexTPS<double, VcQN> W; typedef Optimizer<double, VcQN> Opt; typedef std::complex<double> Cx; typedef SplitIndexTPS<Cx, VcQN> WC;
static OptimizerParams::BaseParams base() { return OptimizerParams::BaseParams(10, 1e-15, 1e-15, 20, 0.1); }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9 * (1 + std::fabs(b)); }
'''
S = [
 dict(id="b26", property="C18", files=FILES, needs="SGD with momentum and weight decay together, with a line-search preview before the first real step",
  breaks="the preview of an SGD step with momentum applies the weight decay to the step as well, so the previewed state is not the state the update reaches",
  edits=[(I + "optimizer_impl.h", "        updated_state += (-learning_rate) * velocity_for_preview;\n", "        updated_state += (-learning_rate * (1.0 - learning_rate * params.weight_decay)) * velocity_for_preview;\n")],
  demo=H + r'''int main() { SGDParams p(0.5, false, 0.25); Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1); double a = o.SGDPreviewUpdate_(W::of(2.0), W::of(3.0), 0.5, p).at(0), b = o.SGDUpdate(W::of(2.0), W::of(3.0), 0.5, p).at(0); return near(a, b) ? 0 : 1; }
'''),
 dict(id="b27", property="C18", files=FILES, needs="two optimizations with Adam on the same optimizer object",
  breaks="clearing up keeps Adam's moments alive, so a second run starts from the first run's moments and step count",
  edits=[(I + "optimizer_impl.h", "    adam_timestep_ = 0;\n    adam_initialized_ = false;\n  }\n", "    adam_timestep_ = 0;\n    adam_initialized_ = adam_timestep_ > 0;\n  }\n"), (I + "optimizer_impl.h", "  if (adam_initialized_) {\n    first_moment_ = WaveFunctionT();\n    second_moment_ = WaveFunctionT();\n", "  if (adam_initialized_ && rank_ != qlten::hp_numeric::kMPIMasterRank) {\n    first_moment_ = WaveFunctionT();\n    second_moment_ = WaveFunctionT();\n")],
  demo=H + r'''int main() { AdamParams p(0.9, 0.99, 1e-8, 0.0); Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1); double a = o.AdamUpdate(W::of(1.0), W::of(3.0), 0.5, p).at(0); o.AdamUpdate(W::of(1.0), W::of(-7.0), 0.5, p); o.ClearUp(); double b = o.AdamUpdate(W::of(1.0), W::of(3.0), 0.5, p).at(0); return near(a, b) ? 0 : 1; }
'''),
 dict(id="b28", property="C18", files=FILES, needs="an L-BFGS history longer than one pair whose newest pair has less curvature than the oldest",
  breaks="the initial scaling of the L-BFGS direction comes from the oldest pair in the history instead of the newest",
  edits=[(I + "optimizer_impl.h", "    const auto &last = lbfgs_history_.back();\n", "    const auto &last = lbfgs_history_.front();\n")],
  demo=H + r'''int main() { LBFGSParams p; Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1); W s1 = W::of(std::vector<double>{1.0, 0.0}), y1 = W::of(std::vector<double>{4.0, 0.0}), s2 = s1, y2 = W::of(std::vector<double>{2.0, 0.0}), g = W::of(std::vector<double>{0.0, 1.0});
 for (int k = 0; k < 2; k++) { Opt::LBFGSHistoryPair h; h.s = k ? s2 : s1; h.y = k ? y2 : y1; h.rho = 1.0 / (h.s * h.y); o.lbfgs_history_.push_back(h); }
 double d = o.ComputeLBFGSSearchDirection_(g, p).at(1); return near(d, -0.5) ? 0 : 1; }
'''),
 dict(id="b29", property="C06", files=FILES, needs="a spike that survives all resampling retries with rollback enabled, followed by another spike in the same step",
  breaks="after a rollback the stored previous state is kept, so a spike that persists rolls back again and again without end",
  edits=[(I + "optimizer_impl.h", "              // broadcasts the master's state at the start of each evaluation call.\n              current_state = prev_accepted_state_;\n              has_prev_state_ = false;\n              if (is_lbfgs) {\n                RestoreLBFGSSnapshot_();\n                lbfgs_history_updated_this_iter = false;\n              }\n            }\n          }\n          if (action == SpikeAction::kResample) {\n            restore_lbfgs_iter_start_snapshot();\n            attempts++;",
          "              // broadcasts the master's state at the start of each evaluation call.\n              current_state = prev_accepted_state_;\n              has_prev_state_ = iter > 2;\n              if (is_lbfgs) {\n                RestoreLBFGSSnapshot_();\n                lbfgs_history_updated_this_iter = false;\n              }\n            }\n          }\n          if (action == SpikeAction::kResample) {\n            restore_lbfgs_iter_start_snapshot();\n            attempts++;")],
  demo=H + r'''struct Many {}; int main() { OptimizerParams p(OptimizerParams::BaseParams(5, 0, 0, 100, 0.1), SGDParams()); p.spike_recovery_params.enable_rollback = true; p.spike_recovery_params.redo_mc_max_retries = 1; p.spike_recovery_params.factor_err = 2; p.spike_recovery_params.sigma_k = 1e9;
 Opt o(p, MPI_COMM_SELF, 0, 1); size_t n = 0; auto f = [&](const W &) { if (++n > 100) throw Many{}; return std::tuple<double, W, double>(-(double) n, W::of(1.0), n > 3 ? 50.0 : 1.0); };
 try { o.IterativeOptimize(W::of(1.0), f); } catch (Many &) { return 1; } return 0; }
'''),
 dict(id="b30", property="C06", files=FILES, needs="a rejected evaluation whose energy is lower than every accepted one",
  breaks="the lowest-energy record takes the energy of the current evaluation at the state after the update once a spike was accepted with a warning",
  edits=[(I + "optimizer_impl.h", "        lowest_energy = std::real(current_energy);\n        lowest_state = current_state;\n", "        lowest_energy = std::real(current_energy);\n        lowest_state = attempts > 0 ? updated_state : current_state;\n")],
  demo=H + r'''int main() { OptimizerParams p(OptimizerParams::BaseParams(3, 0, 0, 100, 0.1), SGDParams()); p.spike_recovery_params.redo_mc_max_retries = 1; p.spike_recovery_params.factor_err = 2;
 Opt o(p, MPI_COMM_SELF, 0, 1); size_t n = 0; std::vector<double> xs; auto f = [&](const W &w) { ++n; xs.push_back(w.at(0)); return std::tuple<double, W, double>(-(double) n, W::of(1.0), n == 3 ? 50.0 : 1.0); };
 auto r = o.IterativeOptimize(W::of(1.0), f); return near(r.min_energy, -4.0) && near(r.lowest_state.at(0), xs[3]) ? 0 : 1; }
'''),
 dict(id="b31", property="C20", files=FILES, needs="complex amplitudes (with real ones the conjugation does nothing)",
  breaks="the centred Gram matrix subtracts the column mean without conjugation, so the MinSR matrix is not Hermitian for complex wave functions",
  edits=[(I + "minsr_tmatrix.h", "        entry = (entry - m_[i] - Conj_(all_m_[j]) + c_) / ns_d;", "        entry = (entry - Conj_(m_[i]) - all_m_[j] + c_) / ns_d;")],
  demo=H + r'''int main() { std::vector<WC> s{WC::of(Cx(1, 2)), WC::of(Cx(-1, 0.5)), WC::of(Cx(0.3, -2))}; Cx m = (Cx(1, 2) + Cx(-1, 0.5) + Cx(0.3, -2)) / 3.0; MinSRTMatrix<Cx, VcQN> t; t.Construct(s, MPI_COMM_SELF);
 for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Cx w = std::conj(s[i].at(0) - m) * (s[j].at(0) - m) / 3.0; if (std::abs(t.RowBlockData()[i * 3 + j] - w) > 1e-9) return 1; } return 0; }
'''),
 dict(id="b32", property="C20", files=FILES, needs="three or more processes",
  breaks="the ring exchange labels a received batch by the neighbour it came from instead of the process that owns it, so columns are misplaced from the second round on",
  edits=[(I + "minsr_tmatrix.h", "        const int source_rank = ((rank - round) % world_size + world_size) % world_size;", "        const int source_rank = round < 2 ? prev_rank : ((next_rank + round - 2) % world_size);")],
  flags="-pthread",
  demo=H + r'''int main() { const int P = 4; double o[P] = {1, -2, 5, 0.5}, m = 0; for (double x : o) m += x / P; std::vector<MinSRTMatrix<double, VcQN>> t(P);
 if (!vc_processes(P, [&](int r) { std::vector<W> s{W::of(o[r])}; t[r].Construct(s, MPI_COMM_WORLD); })) return 1;
 for (int i = 0; i < P; i++) for (int j = 0; j < P; j++) if (!near(t[i].RowBlockData()[j], (o[i] - m) * (o[j] - m) / P)) return 1; return 0; }
'''),
 dict(id="b33", property="C20", files=FILES, needs="a hard cutoff and a negative eigenvalue of large magnitude",
  breaks="the relative cutoff uses the largest eigenvalue instead of the largest magnitude, so with an indefinite matrix too small eigenvalues are inverted",
  edits=[(I + "minsr_eigensolve.h", "    lambda_max_abs = std::max(lambda_max_abs, std::abs(ev));", "    lambda_max_abs = std::max(lambda_max_abs, ev);")],
  demo=H + r'''int main() { auto p = minsr_detail::ApplyPseudoInverseCutoff({-10.0, 0.5, 1.0}, 0.08, 0.0, false); return p[1] == 0.0 && near(p[2], 1.0) && near(p[0], -0.1) ? 0 : 1; }
'''),
]
