// C06: spike detection and recovery: signals, decisions, bounded retries, and the history reported by the optimization loop.
#include "vc.h"
#include "vc_sitps.h"
#include <cassert>
#include <cstring>
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
typedef std::complex<double> lapack_complex_double;
inline int LAPACKE_dsyev(int, char, char, int, double *, int, double *) { return -1; }
inline int LAPACKE_zheev(int, char, char, int, lapack_complex_double *, int, double *) { return -1; }
#define private public
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_impl.h"
#undef private
using namespace qlpeps;
typedef SplitIndexTPS<double, VcQN> W;
typedef Optimizer<double, VcQN> Opt;
static OptimizerParams with(const SpikeRecoveryParams &s) { OptimizerParams p(OptimizerParams::BaseParams(10, 1e-15, 1e-15, 20, 0.1), SGDParams()); p.spike_recovery_params = s; return p; }

GOAL(error_and_gradient_signal) {
  double err = vc::any_double("err"), g = vc::any_double("g"), fe = vc::any_double("fe"), fg = vc::any_double("fg"), me = vc::any_double("me"), mg = vc::any_double("mg");
  bool he = vc::any_bool("he"), hg = vc::any_bool("hg");
  SpikeRecoveryParams s; s.factor_err = fe; s.factor_grad = fg;
  Opt o(with(s), MPI_COMM_SELF, 0, 1);
  if (he) o.ema_error_.Update(me);
  if (hg) o.ema_grad_norm_.Update(mg);
  bool s1 = he && me > 0 && err > fe * me, s2 = hg && mg > 0 && g > fg * mg;
  SpikeSignal got = o.DetectS1S2_(err, g);
  vc::check((got == SpikeSignal::kS1_ErrorbarSpike) == s1, "error bar signal");
  vc::check((got == SpikeSignal::kS2_GradientNormSpike) == (s2 && !s1), "gradient signal");
  vc::check((got == SpikeSignal::kNone) == (!s1 && !s2), "no signal");
}
GOAL(natural_gradient_signal) {
  double n = vc::any_double("n"), f = vc::any_double("f"), m = vc::any_double("m"); bool h = vc::any_bool("h");
  size_t it = vc::any_size("it", 0, 1000), few = vc::any_size("few", 0, 1000);
  SpikeRecoveryParams s; s.factor_ngrad = f; s.sr_min_iters_suspicious = few;
  Opt o(with(s), MPI_COMM_SELF, 0, 1);
  if (h) o.ema_ngrad_norm_.Update(m);
  bool want = (h && m > 0 && n > f * m) || it <= few;
  vc::check((o.DetectS3_(n, it) == SpikeSignal::kS3_NaturalGradientAnomaly) == want && (want || o.DetectS3_(n, it) == SpikeSignal::kNone), "natural gradient signal");
}
GOAL(energy_signal) {
  double e = vc::any_double("e"), a = vc::any_double("a"), b = vc::any_double("b"), k = vc::any_double("k"); size_t w = vc::any_size("w", 1, 1000); bool h = vc::any_bool("h");
  vc::require(k >= 0);
  SpikeRecoveryParams s; s.sigma_k = k; s.ema_window = w;
  Opt o(with(s), MPI_COMM_SELF, 0, 1);
  if (h) { o.ema_energy_.Update(a); o.ema_energy_.Update(b); }
  double mean = o.ema_energy_.Mean(), dev = o.ema_energy_.Std();
  bool want = h && dev > 0 && e > mean && e - mean > k * dev;
  vc::check((o.DetectS4_(e) == SpikeSignal::kS4_EMAEnergySpikeUpward) == want && (want || o.DetectS4_(e) == SpikeSignal::kNone), "energy signal");
}
GOAL(decision) {
  size_t attempts = vc::any_size("attempts", 0, 1000), most = vc::any_size("most", 0, 1000), step = vc::any_size("step", 0, 1000);
  bool roll = vc::any_bool("roll"), prev = vc::any_bool("prev"); long sig = vc::any_int("sig", 0, 3);
  SpikeRecoveryParams s; s.redo_mc_max_retries = most; s.enable_rollback = roll;
  Opt o(with(s), MPI_COMM_SELF, 0, 1); o.has_prev_state_ = prev;
  SpikeSignal g = sig == 0 ? SpikeSignal::kNone : sig == 1 ? SpikeSignal::kS1_ErrorbarSpike : sig == 2 ? SpikeSignal::kS2_GradientNormSpike : SpikeSignal::kS3_NaturalGradientAnomaly;
  SpikeAction a = o.DecideAction_(g, attempts, step);
  vc::check((a == SpikeAction::kAccept) == (sig == 0), "no signal, no action");
  vc::check((a == SpikeAction::kResample) == (sig != 0 && attempts < most), "retries are limited");
  vc::check((a == SpikeAction::kRollback) == (sig != 0 && attempts >= most && roll && prev && step > 0), "rollback only when enabled and possible");
  vc::check((a == SpikeAction::kAcceptWithWarning) == (sig != 0 && attempts >= most && !(roll && prev && step > 0)), "otherwise accept");
}
GOAL(event_log) {
  size_t n = vc::any_size("n", 0, 50), step = vc::any_size("step", 0, 1000), at = vc::any_size("at", 0, 1000); long act = vc::any_int("act", 0, 3); double v = vc::any_double("v"), t = vc::any_double("t");
  size_t r0 = vc::any_size("r0", 0, 1000), b0 = vc::any_size("b0", 0, 1000), f0 = vc::any_size("f0", 0, 1000);
  SpikeRecoveryParams s; Opt o(with(s), MPI_COMM_SELF, 0, 1);
  o.spike_stats_.total_resamples = r0; o.spike_stats_.total_rollbacks = b0; o.spike_stats_.total_forced_accepts = f0;
  SpikeAction a = act == 0 ? SpikeAction::kAccept : act == 1 ? SpikeAction::kResample : act == 2 ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
  o.LogSpikeEvent_(step, at, SpikeSignal::kS2_GradientNormSpike, a, v, t);
  const SpikeStatistics &q = o.GetSpikeStats();
  vc::check(q.total_resamples == r0 + (act == 1) && q.total_rollbacks == b0 + (act == 2) && q.total_forced_accepts == f0 + (act == 3), "each action is counted once");
  vc::check(q.event_log.size() == 1 && q.event_log[0].step == step && q.event_log[0].attempt == at && q.event_log[0].action == a && q.event_log[0].value == v && q.event_log[0].threshold == t, "the event is recorded");
}
#ifndef VC_VERIFY
struct TooMany {};
struct Ema { double a; double m = 0, v = 0; bool on = false; explicit Ema(size_t w) : a(2.0 / (double(w) + 1)) {} void up(double x) { if (!on) { m = x; on = true; return; } double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); } };
#endif
// the loop against its specification: every evaluation, every accepted step, every report
BGOAL(optimization_history) {
#ifndef VC_VERIFY
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  SpikeRecoveryParams s; s.enable_auto_recover = vc::any_bool("auto"); s.enable_rollback = vc::any_bool("roll"); s.redo_mc_max_retries = vc::any_size("most", 0, 3); s.ema_window = vc::any_size("w", 1, 6);
  s.factor_err = 1 + std::fabs(vc::any_double("fe")); s.factor_grad = 1 + std::fabs(vc::any_double("fg")); s.sigma_k = std::fabs(vc::any_double("k"));
  size_t steps = vc::any_size("steps", 0, 8), patience = vc::any_size("patience", 1, 6); double lr = 0.25, te = vc::any_bool("te") ? 0.05 : 0.0, tg = vc::any_bool("tg") ? 0.05 : 0.0, wd = 0.0, mom = 0.0;
  long stop_at = vc::any_int("stop", -1, 8); bool steady = vc::any_bool("steady");
  auto E = vc::any_doubles("E", 64), G = vc::any_doubles("G", 64), D = vc::any_doubles("D", 64); double x0 = vc::any_double("x0");
  if (steady) for (size_t k = 8; k < 64; k++) { E[k] = 50; D[k] = 1; }     // a jump that does not go away
  OptimizerParams p(OptimizerParams::BaseParams(steps, te, tg, patience, lr), SGDParams(mom, false, wd)); p.spike_recovery_params = s;
  Opt o(p, MPI_COMM_SELF, 0, 1);
  std::vector<double> seen; auto eval = [&](const W &w) { size_t k = seen.size(); if (k >= 400) throw TooMany{}; seen.push_back(w.at(0)); k %= 64; return std::tuple<double, W, double>(E[k], W::of(G[k]), std::fabs(D[k])); };
  std::vector<std::pair<size_t, double>> its; std::vector<std::pair<double, double>> low;
  Opt::OptimizationCallback cb;
  cb.on_iteration = [&](size_t i, double e, double, double) { its.push_back({i, e}); };
  cb.on_lowest_state_found = [&](const W &w, double e) { low.push_back({w.at(0), e}); };
  cb.should_stop = [&](size_t i, double, double) { return (long) i == stop_at; };
  Opt::OptimizationResult r; bool finished = true;
  try { r = o.IterativeOptimize(W::of(x0), eval, cb); } catch (TooMany &) { finished = false; }
  std::cout.clear(); std::cerr.clear();
  vc::check(finished, "recovery attempts are bounded");
  // the specification
  double x = x0, prev = 0, best = std::numeric_limits<double>::max(), bestx = x0, last = best, pe = 0; bool has = false, done = false, conv = false; size_t call = 0, idle = 0, total = 0, res = 0, rb = 0, fa = 0;
  Ema ee(s.ema_window), ed(s.ema_window), eg(s.ema_window); std::vector<double> tr, er, gn, want; std::vector<std::pair<size_t, double>> wits; std::vector<std::pair<double, double>> wlow;
  for (size_t it = 0; it < steps && !done; it++) {
    size_t attempts = 0;
    for (;;) {
      want.push_back(x); size_t k = call++ % 64; double e = E[k], g = G[k], d = std::fabs(D[k]), n = std::fabs(g);
      if (s.enable_auto_recover && it > 0 && ((ed.m > 0 && d > s.factor_err * ed.m) || (eg.m > 0 && n > s.factor_grad * eg.m))) {
        if (attempts < s.redo_mc_max_retries) { attempts++; res++; continue; }
        if (s.enable_rollback && has) { x = prev; has = false; attempts = 0; rb++; continue; }
        fa++;
      }
      double nx = x - lr * g;
      if (s.enable_rollback && it > 0 && e - ee.m > 0 && ee.v > 0 && e - ee.m > s.sigma_k * std::sqrt(ee.v)) {
        if (has) { x = prev; has = false; attempts = 0; rb++; continue; }
        fa++;
      }
      ee.up(e); ed.up(d); eg.up(n); tr.push_back(e); er.push_back(d); gn.push_back(n); last = e; total = it + 1;
      if (e < best) { best = e; bestx = x; idle = 0; wlow.push_back({x, e}); } else idle++;
      if (it > 0 && (n < tg || std::fabs(e - pe) < te || idle >= patience)) { conv = true; done = true; break; }
      pe = e;
      if (s.enable_rollback) { prev = x; has = true; }
      x = nx; wits.push_back({it, e});
      if ((long) it == stop_at) done = true;
      break;
    }
  }
  vc::check(seen.size() == want.size() && seen == want, "each evaluation is of the specified state");
  vc::check(seen.size() <= steps * 2 * (s.redo_mc_max_retries + 1), "at most 2 (retries + 1) evaluations per step");
  vc::check(r.energy_trajectory == tr && r.energy_error_trajectory == er && r.gradient_norms == gn && r.learning_rate_trajectory.size() == tr.size(), "the trajectory is the accepted history");
  vc::check(r.total_iterations == total && r.converged == conv, "iterations and convergence");
  vc::check(r.min_energy == best && r.lowest_state.at(0) == bestx && r.final_energy == last && r.optimized_state.at(0) == x, "lowest and final state");
  vc::check(its == wits && low == wlow, "callbacks");
  vc::check(r.spike_stats.total_resamples == res && r.spike_stats.total_rollbacks == rb && r.spike_stats.total_forced_accepts == fa && r.spike_stats.event_log.size() == res + rb + fa, "recovery statistics");
#endif
}
#include "vc_main.h"
