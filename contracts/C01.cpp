// C01: every history-free learning-rate schedule returns its documented closed form for every iteration and every parameter.
#include "vc.h"
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
static const size_t BIGN = 1000000000;

GOAL(constant_closed_form) {
  double lr = vc::any_double("lr"), e1 = vc::any_double("e1");
  size_t i = vc::any_size("i", 0, BIGN);
  ConstantLR s(lr);
  vc::check(vc::eq(s.GetLearningRate(i, e1), lr), "ConstantLR: rate == lr at every iteration");
}
GOAL(exponential_closed_form) {
  double lr = vc::any_double("lr"), rate = vc::any_double("rate"), e1 = vc::any_double("e1"), e2 = vc::any_double("e2");
  vc::require(rate > 0);
  size_t steps = vc::any_size("steps", 1, BIGN), i = vc::any_size("i", 0, BIGN), j = vc::any_size("j", 0, BIGN);
  ExponentialDecayLR s(lr, rate, steps);
  s.GetLearningRate(j, e2);  // earlier query: must not matter
  vc::check(vc::eq(s.GetLearningRate(i, e1), lr * std::pow(rate, double(i) / double(steps))), "ExponentialDecayLR: lr * rate^(i/steps)");
  s.Step();
  vc::check(vc::eq(s.GetLearningRate(i, e2), lr * std::pow(rate, double(i) / double(steps))), "ExponentialDecayLR: independent of energy and history");
  vc::check(vc::eq(s.GetLearningRate(0, e2), lr), "ExponentialDecayLR: starts at lr");
  vc::check(vc::eq(s.GetLearningRate(steps, e2), lr * rate), "ExponentialDecayLR: one decay factor after decay_steps");
}
GOAL(step_closed_form) {
  double lr = vc::any_double("lr"), gamma = vc::any_double("gamma"), e1 = vc::any_double("e1"), e2 = vc::any_double("e2");
  vc::require(gamma > 0);
  size_t step = vc::any_size("step", 1, BIGN), i = vc::any_size("i", 0, BIGN), j = vc::any_size("j", 0, BIGN);
  StepLR s(lr, step, gamma);
  s.GetLearningRate(j, e2);
  vc::check(vc::eq(s.GetLearningRate(i, e1), lr * std::pow(gamma, double(i / step))), "StepLR: lr * gamma^floor(i/step)");
  s.Step();
  vc::check(vc::eq(s.GetLearningRate(i, e2), lr * std::pow(gamma, double(i / step))), "StepLR: independent of energy and history");
  vc::check(i >= step || vc::eq(s.GetLearningRate(i, e2), lr), "StepLR: unchanged before the first step");
}
GOAL(step_default_gamma) {
  double lr = vc::any_double("lr");
  size_t step = vc::any_size("step", 1, BIGN), i = vc::any_size("i", 0, BIGN);
  StepLR s(lr, step);
  vc::check(vc::eq(s.GetLearningRate(i, 0.0), lr * std::pow(0.1, double(i / step))), "StepLR: default gamma is 0.1");
}
GOAL(cosine_closed_form) {
  double hi = vc::any_double("hi"), lo = vc::any_double("lo"), e1 = vc::any_double("e1"), e2 = vc::any_double("e2");
  size_t T = vc::any_size("T", 1, BIGN), i = vc::any_size("i", 0, BIGN), j = vc::any_size("j", 0, BIGN);
  CosineAnnealingLR s(hi, T, lo);
  s.GetLearningRate(j, e2);
  double t = double(i < T ? i : T);
  double want = lo + 0.5 * (hi - lo) * (1.0 + std::cos(std::numbers::pi * t / double(T)));
  vc::check(vc::eq(s.GetLearningRate(i, e1), want), "CosineAnnealingLR: eta_min + (eta_max-eta_min)/2 * (1+cos(pi*min(i,T)/T))");
  s.Step();
  vc::check(vc::eq(s.GetLearningRate(i, e2), want), "CosineAnnealingLR: independent of energy and history");
  vc::check(vc::eq(s.GetLearningRate(0, e2), hi), "CosineAnnealingLR: starts at eta_max");
  vc::check(i < T || vc::eq(s.GetLearningRate(i, e2), lo), "CosineAnnealingLR: stays at eta_min from T_max on");
  vc::check(!(lo <= hi) || (vc::le(lo, s.GetLearningRate(i, e1)) && vc::le(s.GetLearningRate(i, e1), hi)), "CosineAnnealingLR: within [eta_min, eta_max]");
}
GOAL(cosine_zero_period) {
  double hi = vc::any_double("hi"), lo = vc::any_double("lo"), e1 = vc::any_double("e1");
  size_t i = vc::any_size("i", 0, BIGN);
  CosineAnnealingLR s(hi, 0, lo), d(hi, 0);
  vc::check(vc::eq(s.GetLearningRate(i, e1), lo), "CosineAnnealingLR: eta_min when T_max is 0");
  vc::check(vc::eq(d.GetLearningRate(i, e1), 0.0), "CosineAnnealingLR: default eta_min is 0");
}
GOAL(warmup_closed_form) {
  double base = vc::any_double("base"), start = vc::any_double("start"), e1 = vc::any_double("e1"), e2 = vc::any_double("e2");
  size_t W = vc::any_size("W", 0, BIGN), i = vc::any_size("i", 0, BIGN), j = vc::any_size("j", 0, BIGN);
  WarmupLR s(base, W, start);
  s.GetLearningRate(j, e2);
  double want = base;
  if (i < W) want = start + (base - start) * (double(i + 1) / double(W));
  vc::check(vc::eq(s.GetLearningRate(i, e1), want), "WarmupLR: linear ramp start -> base, then base");
  s.Step();
  vc::check(vc::eq(s.GetLearningRate(i, e2), want), "WarmupLR: independent of energy and history");
  vc::check(W == 0 || vc::eq(s.GetLearningRate(W - 1, e1), base), "WarmupLR: the ramp ends exactly at base");
  vc::check(!(start <= base) || (vc::le(start, s.GetLearningRate(i, e1)) && vc::le(s.GetLearningRate(i, e1), base)), "WarmupLR: within [start, base]");
}
GOAL(warmup_default_start) {
  double base = vc::any_double("base");
  size_t W = vc::any_size("W", 1, BIGN), i = vc::any_size("i", 0, BIGN);
  vc::require(i < W);
  WarmupLR s(base, W);
  vc::check(vc::eq(s.GetLearningRate(i, 0.0), base * (double(i + 1) / double(W))), "WarmupLR: default start is 0");
}
GOAL(multistep_closed_form) {
  double lr = vc::any_double("lr"), gamma = vc::any_double("gamma"), e1 = vc::any_double("e1"), e2 = vc::any_double("e2");
  vc::require(gamma > 0);
  size_t n = vc::any_size("n", 0, BIGN), i = vc::any_size("i", 0, BIGN), j = vc::any_size("j", 0, BIGN);
  std::vector<size_t> ms = vc::any_sizes("ms", n, 0, BIGN);  // in any order
  MultiStepLR s(lr, ms, gamma);
  s.GetLearningRate(j, e2);
  size_t passed = vc::count(n, [&](size_t k) { return ms[k] <= i; });
  vc::check(vc::eq(s.GetLearningRate(i, e1), lr * std::pow(gamma, double(passed))), "MultiStepLR: lr * gamma^(number of milestones <= i), for any order of milestones");
  s.Step();
  vc::check(vc::eq(s.GetLearningRate(i, e2), lr * std::pow(gamma, double(passed))), "MultiStepLR: independent of energy and history");
}
#include "vc_main.h"
