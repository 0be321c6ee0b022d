// C05: EMATracker follows its documented recursion over every series; its variance is never negative and its mean never leaves the range of the data.
#include "vc.h"
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;

GOAL(ema_recursion) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000);
  std::vector<double> x = vc::any_doubles("x", n);
  EMATracker t(w);
  vc::check(!t.IsInitialized() && t.Mean() == 0.0 && t.Var() == 0.0, "EMATracker: starts empty");
  double a = 2.0 / (double(w) + 1.0), m = 0, v = 0; bool init = false;
  for (size_t k = 0; k < n; k++) {
    t.Update(x[k]);
    if (!init) { m = x[k]; v = 0; init = true; }
    else { double d = x[k] - m; m += a * d; v = (1.0 - a) * (v + a * d * d); }
    vc::check(t.IsInitialized(), "EMATracker: initialised by the first observation");
    vc::check(vc::eq(t.Mean(), m), "EMATracker: mean follows ema += alpha*(x-ema)");
    vc::check(vc::eq(t.Var(), v), "EMATracker: variance follows (1-alpha)*(var+alpha*delta^2)");
  }
}
GOAL(ema_variance_nonnegative) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000);
  std::vector<double> x = vc::any_doubles("x", n);
  EMATracker t(w);
  for (size_t k = 0; k < n; k++) {
    t.Update(x[k]);
    vc::check(t.Var() >= 0, "EMATracker: variance is never negative");
    vc::check(vc::eq(t.Std() * t.Std(), t.Var()) && t.Std() >= 0, "EMATracker: Std is the square root of the variance");
  }
}
GOAL(ema_mean_in_hull) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000);
  double lo = vc::any_double("lo"), hi = vc::any_double("hi");
  std::vector<double> x = vc::any_doubles("x", n);
  vc::require(vc::forall(n, [&](size_t k) { return x[k] >= lo && x[k] <= hi; }));
  EMATracker t(w);
  for (size_t k = 0; k < n; k++) {
    t.Update(x[k]);
    vc::check(vc::le(lo, t.Mean()) && vc::le(t.Mean(), hi), "EMATracker: the mean stays within the range of the observations");
  }
}
GOAL(ema_constant_series) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000);
  double c = vc::any_double("c");
  EMATracker t(w);
  for (size_t k = 0; k < n; k++) {
    t.Update(c);
    vc::check(vc::eq(t.Mean(), c) && vc::eq(t.Var(), 0.0), "EMATracker: a constant series has that mean and no variance");
  }
}
GOAL(ema_reset) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000), m = vc::any_size("m", 0, 1000000);
  std::vector<double> x = vc::any_doubles("x", n), y = vc::any_doubles("y", m);
  EMATracker t(w), f(w);
  for (size_t k = 0; k < n; k++) t.Update(x[k]);
  t.Reset();
  vc::check(!t.IsInitialized() && t.Mean() == 0.0 && t.Var() == 0.0, "EMATracker::Reset: empty again");
  for (size_t k = 0; k < m; k++) {
    t.Update(y[k]); f.Update(y[k]);
    vc::check(vc::eq(t.Mean(), f.Mean()) && vc::eq(t.Var(), f.Var()), "EMATracker::Reset: behaves like a fresh tracker of the same window");
  }
}
GOAL(ema_default_window) {
  size_t n = vc::any_size("n", 0, 1000000);
  std::vector<double> x = vc::any_doubles("x", n);
  EMATracker t, f(50);
  for (size_t k = 0; k < n; k++) {
    t.Update(x[k]); f.Update(x[k]);
    vc::check(vc::eq(t.Mean(), f.Mean()) && vc::eq(t.Var(), f.Var()), "EMATracker: default window 50");
  }
}
GOAL(ema_independent) {
  size_t w = vc::any_size("window", 1, 1000000), n = vc::any_size("n", 0, 1000000), m = vc::any_size("m", 0, 1000000);
  double z = vc::any_double("z");
  std::vector<double> x = vc::any_doubles("x", n), y = vc::any_doubles("y", m);
  EMATracker t(w);
  for (size_t k = 0; k < n; k++) t.Update(x[k]);
  EMATracker u(t), r(t);
  for (size_t k = 0; k < m; k++) u.Update(y[k]);
  vc::check(vc::eq(t.Mean(), r.Mean()) && vc::eq(t.Var(), r.Var()), "EMATracker: a copy shares no state with its source");
  t.Update(z); r.Update(z);
  vc::check(vc::eq(t.Mean(), r.Mean()) && vc::eq(t.Var(), r.Var()), "EMATracker: source and copy continue alike");
}
GOAL(spike_names) {
  vc::check(std::string(SignalName(SpikeSignal::kNone)) == "NONE" && std::string(SignalName(SpikeSignal::kS1_ErrorbarSpike)) == "S1_ERRORBAR" && std::string(SignalName(SpikeSignal::kS2_GradientNormSpike)) == "S2_GRAD_NORM"
            && std::string(SignalName(SpikeSignal::kS3_NaturalGradientAnomaly)) == "S3_NGRAD_ANOMALY" && std::string(SignalName(SpikeSignal::kS4_EMAEnergySpikeUpward)) == "S4_ENERGY_SPIKE", "SignalName: one name per signal");
  vc::check(std::string(ActionName(SpikeAction::kAccept)) == "ACCEPT" && std::string(ActionName(SpikeAction::kResample)) == "RESAMPLE" && std::string(ActionName(SpikeAction::kRollback)) == "ROLLBACK"
            && std::string(ActionName(SpikeAction::kAcceptWithWarning)) == "ACCEPT_WARN", "ActionName: one name per action");
}
#include "vc_main.h"
