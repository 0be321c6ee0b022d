import os
V = os.environ.get("SEEDSRC", "/verif/")
FILES = {n: open(V + s).read() for n, s in [("mpi.h", "stubs/mpi.h"), ("qlten/qlten.h", "stubs/qlten/qlten.h"), ("qlten/framework/hp_numeric/mpi_fun.h", "stubs/qlten/framework/hp_numeric/mpi_fun.h"),
  ("qlten/framework/hp_numeric/backend_selector.h", "stubs/qlten/framework/hp_numeric/backend_selector.h"), ("qlten/utility/timer.h", "stubs/qlten/utility/timer.h"), ("vc_eval.h", "include/vc_eval.h")]}
M = "include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
H = """#include <cmath>
#include <cstring>
#include <optional>
#include <stdexcept>
#include "vc_eval.h"
using namespace qlpeps; using Cx = std::complex<double>; struct Upd {}; typedef MCEnergyGradEvaluator<Cx, VcQN, Upd, VcSolver<Cx>> Ev;
static VcSamples<Cx> given(int r) { VcSamples<Cx> s; for (int k = 0; k < 4; k++) { s.energy.push_back(Cx(1 + k + 2 * r, 0.5 * k - 1)); s.amp.push_back(Cx(1 + k, 2 - r)); s.hole.push_back({Cx(k, 1), Cx(2, -k)}); s.cfg.push_back({(size_t) k % 2, (size_t) (k / 2)}); s.rate.push_back({0.5}); } return s; }
template<class F> bool run(int np, F f) { return vce::processes(np, [&](int r) { VcSamples<Cx> s = given(r); MonteCarloEngine<Cx, VcQN, Upd> eng; eng.state = SplitIndexTPS<Cx, VcQN>(1, 2, 2); eng.smp = &s; eng.lx = 2; eng.n = 4; VcSolver<Cx> sol; sol.smp = &s; MPI_Comm comm = MPI_COMM_WORLD; SplitIndexTPS<Cx, VcQN> st(1, 2, 2); Ev ev(eng, sol, comm, true); f(r, ev, st); }); }
static Cx gradient(int np, size_t site, size_t c) { Cx g(0), m(0), e(0); for (int r = 0; r < np; r++) { VcSamples<Cx> s = given(r); for (int k = 0; k < 4; k++) { e += s.energy[k] / (4.0 * np); if (s.cfg[k][site] == c) { Cx O = std::conj(1.0 / s.amp[k]) * s.hole[k][site]; m += O / (4.0 * np); g += std::conj(s.energy[k]) * O / (4.0 * np); } } } return g - std::conj(e) * m; }
"""
G = H + """int main() { Ev::Result res; bool ok = run(2, [&](int r, Ev &ev, const SplitIndexTPS<Cx, VcQN> &st) { auto x = ev.Evaluate(st); if (r == 0) res = x; }); if (!ok) return 1;
 for (size_t i = 0; i < 2; i++) for (size_t c = 0; c < 2; c++) if (std::abs(res.gradient.at(2 * i + c) - gradient(2, i, c)) > 1e-9) return 1; return 0; }
"""
S = [
 dict(id="b40", property="C19", files=FILES, flags="-DNDEBUG -pthread", needs="complex local energies whose mean has an imaginary part", breaks="the mean energy enters the gradient without complex conjugation",
  edits=[(M, "ComplexConjugate(-energy) * Ostar_mean", "TenElemT(-energy) * Ostar_mean")], demo=G),
 dict(id="b41", property="C19", files=FILES, flags="-DNDEBUG -pthread", needs="more than one process and an energy-only evaluation (step selection)", breaks="the energy-only evaluation is not broadcast: every process but the master gets a number that is not the mean energy",
  edits=[(M, "    qlten::hp_numeric::MPI_Bcast(&energy, 1, qlten::hp_numeric::kMPIMasterRank, comm_);\n\n    EnergyOnlyResult res;", "    EnergyOnlyResult res;")],
  demo=H + """int main() { Cx e[2]; bool ok = run(2, [&](int r, Ev &ev, const SplitIndexTPS<Cx, VcQN> &st) { e[r] = ev.EvaluateEnergyOnly(st).energy; }); return ok && e[0] == e[1] ? 0 : 1; }
"""),
 dict(id="b42", property="C19", files=FILES, flags="-DNDEBUG -pthread", needs="complex amplitudes", breaks="O* is built with 1/psi instead of its complex conjugate, so gradient and SR buffers have wrong phases",
  edits=[(M, "TenElemT inverse_amplitude = ComplexConjugate(1.0 / engine_.WavefuncComp().GetAmplitude());", "TenElemT inverse_amplitude = 1.0 / engine_.WavefuncComp().GetAmplitude();")], demo=G),
 dict(id="b43", property="C19", files=FILES, flags="-DNDEBUG -pthread", needs="SR buffers and more than one process", breaks="with SR buffers the mean of O* over the processes leaves out the last component of every site",
  edits=[(M, "          if (collect_sr_buffers_) {\n            Ostar_mean({row, col})[compt]", "          if (collect_sr_buffers_ && (compt + 1 < phy_dim || phy_dim == 1)) {\n            Ostar_mean({row, col})[compt]")],
  demo=H + """int main() { Ev::Result res; bool ok = run(2, [&](int r, Ev &ev, const SplitIndexTPS<Cx, VcQN> &st) { auto x = ev.Evaluate(st); if (r == 0) res = x; }); if (!ok) return 1;
 for (size_t i = 0; i < 2; i++) for (size_t c = 0; c < 2; c++) { Cx m(0); for (int r = 0; r < 2; r++) { VcSamples<Cx> s = given(r); for (int k = 0; k < 4; k++) if (s.cfg[k][i] == c) m += std::conj(1.0 / s.amp[k]) * s.hole[k][i] / 8.0; } if (std::abs(res.Ostar_mean->at(2 * i + c) - m) > 1e-9) return 1; } return 0; }
"""),
]
