// C19: the Monte-Carlo energy and gradient evaluator.
#include "vc.h"
#include "vc_eval.h"
using namespace qlpeps;
using Cx = std::complex<double>;
struct Upd {};
// proofs: one process, one site, one component, any number of samples with any energies, amplitudes, holes; the mean energy is
// an arbitrary number E (that it is the mean over all samples of all processes is C14)
#ifdef VC_VERIFY
#define SCRIPT \
  size_t n = vc::any_size("n", 1, 100000); double E = vc::any_double("E"), err = vc::any_double("err"), x = vc::any_double("x"); \
  VcSamples<double> smp; smp.energy = vc::any_doubles("e", n); smp.amp = vc::any_doubles("a", n); smp.hole = vc::any_doubles("h", n); \
  vce::mean_energy = E; vce::mean_error = err; vcmpi::world.rank = 0; vcmpi::world.size = 1; \
  MonteCarloEngine<double, VcQN, Upd> eng; eng.smp = &smp; eng.n = n; VcSolver<double> sol; sol.smp = &smp; \
  MPI_Comm comm = MPI_COMM_WORLD; SplitIndexTPS<double, VcQN> st(1, 1, 1); st.s.t.v = x;
#define SCRIPTC \
  size_t n = vc::any_size("n", 1, 100000); double E = vc::any_double("E"), Ei = vc::any_double("Ei"), err = vc::any_double("err"), x = vc::any_double("x"); \
  std::vector<double> er = vc::any_doubles("er", n), ei = vc::any_doubles("ei", n), hr = vc::any_doubles("hr", n), hi = vc::any_doubles("hi", n); \
  VcSamples<Cx> smp; smp.energy = vc::complexes(er, ei); smp.hole = vc::complexes(hr, hi); smp.same = true; \
  vce::mean_energy = E; vce::mean_imag = Ei; vce::mean_error = err; vcmpi::world.rank = 0; vcmpi::world.size = 1; \
  MonteCarloEngine<Cx, VcQN, Upd> eng; eng.smp = &smp; eng.n = n; eng.comp.amp = Cx(0, 1); VcSolver<Cx> sol; sol.smp = &smp; \
  MPI_Comm comm = MPI_COMM_WORLD; SplitIndexTPS<Cx, VcQN> st(1, 1, 1); st.s.t.v = x;
#else
#define SCRIPT throw vc::Discard{};
#define SCRIPTC throw vc::Discard{};
#endif
GOAL(gradient) {
  SCRIPT
#ifdef VC_VERIFY
  MCEnergyGradEvaluator<double, VcQN, Upd, VcSolver<double>> ev(eng, sol, comm, false);
  auto r = ev.Evaluate(st);
  vc::check(r.energy == E && r.energy_error == err, "the energy is the mean over all samples, with its error");
  vc::check(vc::eq(r.gradient.at(0) * (double) n, vc::sum(n, [&](size_t k) { return smp.energy[k] * ((1.0 / smp.amp[k]) * smp.hole[k]); }) - E * vc::sum(n, [&](size_t k) { return (1.0 / smp.amp[k]) * smp.hole[k]; })), "the gradient is <E O> - E <O>");
  vc::check(r.gradient_norm == r.gradient.at(0) * r.gradient.at(0), "the squared norm of the gradient");
  vc::check(eng.state.at(0) == x, "the given state is evaluated");
  vc::check(eng.fresh, "the wave function belongs to the given state");
  vc::check(!r.Ostar_mean.has_value() && r.Ostar_samples.empty(), "no buffers unless requested");
#endif
}
GOAL(energy_samples) {
  SCRIPT
#ifdef VC_VERIFY
  size_t i = vc::any_size("i", 0, 100000); vc::require(i < n);
  MCEnergyGradEvaluator<double, VcQN, Upd, VcSolver<double>> ev(eng, sol, comm, false);
  auto r = ev.Evaluate(st);
  vc::check(r.energy_samples.size() == n, "one energy per sample");
  vc::check(r.energy_samples[i] == smp.energy[i], "the local energies in order");
#endif
}
GOAL(energy_only) {
  SCRIPT
#ifdef VC_VERIFY
  MCEnergyGradEvaluator<double, VcQN, Upd, VcSolver<double>> ev(eng, sol, comm, false);
  auto r = ev.EvaluateEnergyOnly(st);
  vc::check(r.energy == E && r.energy_error == err, "the energy is the mean over all samples, with its error");
  vc::check(eng.state.at(0) == x && eng.fresh, "the given state is evaluated");
  vc::check(eng.next == n && sol.next == n, "all samples are taken");
#endif
}
GOAL(gradient_complex) {
  SCRIPTC
#ifdef VC_VERIFY
  MCEnergyGradEvaluator<Cx, VcQN, Upd, VcSolver<Cx>> ev(eng, sol, comm, false);
  auto r = ev.Evaluate(st);
  // amplitude i: O* = conj(1/i) h = i h
  Cx g = r.gradient.at(0);
  double sr = vc::sum(n, [&](size_t k) { return ei[k] * hr[k] - er[k] * hi[k]; }), si = vc::sum(n, [&](size_t k) { return er[k] * hr[k] + ei[k] * hi[k]; });
  double tr = -vc::sum(n, [&](size_t k) { return hi[k]; }), ti = vc::sum(n, [&](size_t k) { return hr[k]; });
  vc::check(vc::eq(g.real() * (double) n, sr - (E * tr + Ei * ti)), "the gradient is <E* O*> - E* <O*> (real part)");
  vc::check(vc::eq(g.imag() * (double) n, si - (E * ti - Ei * tr)), "the gradient is <E* O*> - E* <O*> (imaginary part)");
#endif
}
// executed: real and complex, lattices with several components, 1-4 processes as threads, against the definition
#ifndef VC_VERIFY
template<class T> static T mk(double a, double b) { if constexpr (std::is_same_v<T, double>) return a; else return T(a, b); }
static double sane(const char *n) { double x = vc::any_double(n); return std::isfinite(x) && std::fabs(x) < 1e4 ? x : 0.5; }
template<class T> static void whole(bool sr) {
  size_t np = vc::any_size("np", 1, 4), ly = vc::any_size("ly", 1, 2), lx = vc::any_size("lx", 1, 3), d = vc::any_size("d", 1, 3), n = vc::any_size("n", 1, 10), nr = vc::any_size("nr", 0, 2);
  std::vector<VcSamples<T>> smp(np);
  for (auto &s : smp) for (size_t k = 0; k < n; k++) {
    s.energy.push_back(mk<T>(sane("e"), sane("f"))); double a = sane("a"), b = sane("b"); if (std::hypot(a, b) < 0.1 || std::fabs(a) < 0.1) a = 1.5; s.amp.push_back(mk<T>(a, b));
    std::vector<T> h; std::vector<size_t> c; std::vector<double> q;
    for (size_t i = 0; i < ly * lx; i++) { h.push_back(mk<T>(sane("h"), sane("g"))); c.push_back(vc::any_size("c", 0, d - 1)); }
    for (size_t i = 0; i < nr; i++) q.push_back(std::fabs(sane("q")));
    s.hole.push_back(h); s.cfg.push_back(c); s.rate.push_back(q);
  }
  SplitIndexTPS<T, VcQN> st(ly, lx, d); for (size_t k = 0; k < st.size(); k++) st.at(k) = mk<T>(sane("x"), sane("y"));
  typedef MCEnergyGradEvaluator<T, VcQN, Upd, VcSolver<T>> Ev;
  std::vector<typename Ev::Result> res(np); std::vector<typename Ev::EnergyOnlyResult> eo(np); std::vector<SplitIndexTPS<T, VcQN>> seen(np);
  std::streambuf *o = std::cout.rdbuf(nullptr), *q = std::cerr.rdbuf(nullptr);
  bool ok = vce::processes((int) np, [&](int r) {
    MonteCarloEngine<T, VcQN, Upd> eng; eng.state = SplitIndexTPS<T, VcQN>(ly, lx, d); eng.smp = &smp[r]; eng.ly = ly; eng.lx = lx; eng.n = n;
    VcSolver<T> sol; sol.smp = &smp[r]; MPI_Comm comm = MPI_COMM_WORLD; SplitIndexTPS<T, VcQN> other(ly, lx, d);
    { Ev ev(eng, sol, comm, sr); res[r] = ev.Evaluate(r == 0 ? st : other); }
    seen[r] = eng.state; eng.next = 0; sol.next = 0; eng.fresh = false;
    { Ev ev(eng, sol, comm, sr); eo[r] = ev.EvaluateEnergyOnly(r == 0 ? st : other); } });
  std::cout.rdbuf(o); std::cerr.rdbuf(q);
  vc::check(ok, "all processes return");
  double scale = 1; for (auto &s : smp) for (size_t k = 0; k < n; k++) { scale = std::max(scale, std::abs(s.energy[k])); for (auto &h : s.hole[k]) scale = std::max(scale, std::abs(h) / std::abs(s.amp[k]) * (1 + std::abs(s.energy[k]))); }
  size_t bin = std::max<size_t>(1, (size_t) std::sqrt((double) n)), used = n / bin * bin; T mean(0);
  for (auto &s : smp) for (size_t k = 0; k < used; k++) mean += s.energy[k] / (double) (used * np);
  auto same = [&](T a, T b) { return std::abs(a - b) <= 1e-9 * scale; };
  auto cj = [](T z) { if constexpr (std::is_same_v<T, double>) return z; else return std::conj(z); };
  for (size_t r = 0; r < np; r++) {
    vc::check(same(res[r].energy, mean) && same(eo[r].energy, mean), "every process has the mean of the binned samples of all processes");
    vc::check(r == 0 || (res[r].energy_error == 0 && eo[r].energy_error == 0), "only the master reports an error");
    for (size_t k = 0; k < st.size(); k++) vc::check(seen[r].at(k) == st.at(k), "every process samples the master's state");
    vc::check(res[r].energy_samples == smp[r].energy, "the local energies in order");
    vc::check(res[r].accept_rates_avg.size() == nr && eo[r].accept_rates_avg.size() == nr, "one rate per kind of move");
    for (size_t i = 0; i < nr; i++) { double m = 0; for (size_t k = 0; k < n; k++) m += smp[r].rate[k][i] / n; vc::check(std::fabs(m - res[r].accept_rates_avg[i]) <= 1e-9 * (1 + m) && std::fabs(m - eo[r].accept_rates_avg[i]) <= 1e-9 * (1 + m), "mean acceptance rates of this process"); }
    vc::check(res[r].Ostar_mean.has_value() == sr && res[r].Ostar_samples.size() == (sr ? n : 0), "buffers exactly when requested");
    if (sr) for (size_t k = 0; k < n; k++) for (size_t i = 0; i < ly * lx; i++) for (size_t c = 0; c < d; c++) vc::check(same(res[r].Ostar_samples[k].at(i * d + c), c == smp[r].cfg[k][i] ? cj(T(1) / smp[r].amp[k]) * smp[r].hole[k][i] : T(0)), "each buffer is O* of its sample");
  }
  double err2 = 0; size_t bins = n / bin * np;
  for (auto &s : smp) for (size_t b = 0; b < n / bin; b++) { T m(0); for (size_t k = 0; k < bin; k++) m += s.energy[b * bin + k] / (double) bin; err2 += std::norm(m - mean); }
  if (bins > 1) { double want = std::sqrt(err2 / bins / (bins - 1)); vc::check(std::fabs(res[0].energy_error - want) <= 1e-7 * scale && std::fabs(eo[0].energy_error - want) <= 1e-7 * scale, "the error of the bin means"); }
  double norm = 0;
  for (size_t i = 0; i < ly * lx; i++) for (size_t c = 0; c < d; c++) {
    T g(0), m(0);
    for (auto &s : smp) for (size_t k = 0; k < n; k++) if (s.cfg[k][i] == c) { T O = cj(T(1) / s.amp[k]) * s.hole[k][i]; m += O / (double) (n * np); g += cj(s.energy[k]) * O / (double) (n * np); }
    g -= cj(mean) * m; norm += std::norm(res[0].gradient.at(i * d + c));
    vc::check(std::abs(res[0].gradient.at(i * d + c) - g) <= 1e-8 * scale * (1 + std::abs(mean)), "the gradient is <E* O*> - E* <O*> over all processes");
    if (sr) vc::check(same(res[0].Ostar_mean->at(i * d + c), m), "the mean of O* over all processes");
  }
  vc::check(std::fabs(norm - res[0].gradient_norm) <= 1e-9 * (1 + norm), "the squared norm of the gradient");
}
#endif
BGOAL(processes_real) {
#ifndef VC_VERIFY
  bool sr = vc::any_bool("sr"); whole<double>(sr);
#endif
}
BGOAL(processes_complex) {
#ifndef VC_VERIFY
  bool sr = vc::any_bool("sr"); whole<Cx>(sr);
#endif
}
#include "vc_main.h"
