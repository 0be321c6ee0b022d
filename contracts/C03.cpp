// C03: copies of schedulers and parameter objects behave exactly like their source and share no state with it.
#include "vc.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
static const size_t BIGN = 1000000000;
typedef OptimizerParams::BaseParams BP;

// ---- Clone of every schedule: same rate at every iteration ----
GOAL(clone_constant) {
  double lr = vc::any_double("lr"), e = vc::any_double("e");
  size_t i = vc::any_size("i", 0, BIGN);
  ConstantLR s(lr); auto c = s.Clone();
  vc::check(c != nullptr && vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "ConstantLR::Clone: same rate");
}
GOAL(clone_exponential) {
  double lr = vc::any_double("lr"), r = vc::any_double("rate"), e = vc::any_double("e");
  vc::require(r > 0);
  size_t i = vc::any_size("i", 0, BIGN), st = vc::any_size("steps", 1, BIGN);
  ExponentialDecayLR s(lr, r, st); auto c = s.Clone();
  vc::check(vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "ExponentialDecayLR::Clone: same rate");
}
GOAL(clone_step) {
  double lr = vc::any_double("lr"), g = vc::any_double("gamma"), e = vc::any_double("e");
  vc::require(g > 0);
  size_t i = vc::any_size("i", 0, BIGN), st = vc::any_size("steps", 1, BIGN);
  StepLR s(lr, st, g); auto c = s.Clone();
  vc::check(vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "StepLR::Clone: same rate");
}
GOAL(clone_cosine) {
  double lr = vc::any_double("lr"), m = vc::any_double("min"), e = vc::any_double("e");
  size_t i = vc::any_size("i", 0, BIGN), T = vc::any_size("T", 0, BIGN);
  CosineAnnealingLR s(lr, T, m); auto c = s.Clone();
  vc::check(vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "CosineAnnealingLR::Clone: same rate");
}
GOAL(clone_warmup) {
  double lr = vc::any_double("lr"), m = vc::any_double("start"), e = vc::any_double("e");
  size_t i = vc::any_size("i", 0, BIGN), T = vc::any_size("T", 0, BIGN);
  WarmupLR s(lr, T, m); auto c = s.Clone();
  vc::check(vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "WarmupLR::Clone: same rate");
}
GOAL(clone_multistep) {
  double lr = vc::any_double("lr"), g = vc::any_double("gamma"), e = vc::any_double("e");
  vc::require(g > 0);
  size_t n = vc::any_size("n", 0, 1000), i = vc::any_size("i", 0, BIGN);
  std::vector<size_t> ms = vc::any_sizes("ms", n, 0, BIGN);
  MultiStepLR s(lr, ms, g); auto c = s.Clone();
  vc::check(vc::eq(c->GetLearningRate(i, e), s.GetLearningRate(i, e)), "MultiStepLR::Clone: same rate");
}
// ---- PlateauLR carries history: clone mid-way continues it, and neither side disturbs the other ----
GOAL(clone_plateau_independent) {
  double lr = vc::any_double("lr"), factor = vc::any_double("factor"), thr = vc::any_double("thr"), a = vc::any_double("a"), b = vc::any_double("b");
  vc::require(thr >= 0 && thr <= 1000000.0);
  size_t patience = vc::any_size("patience", 0, 1000000), n = vc::any_size("n", 0, 1000000), m = vc::any_size("m", 0, 1000000);
  std::vector<double> e = vc::any_doubles("e", n), f = vc::any_doubles("f", m);
  PlateauLR s(lr, factor, patience, thr);
  for (size_t k = 0; k < n; k++) s.GetLearningRate(k, e[k]);
  auto c = s.Clone();
  auto ref = s.Clone();
  for (size_t k = 0; k < m; k++) c->GetLearningRate(k, f[k]);   // the copy goes its own way
  vc::check(vc::eq(s.GetLearningRate(n, a), ref->GetLearningRate(n, a)), "PlateauLR: a clone never disturbs its source");
  vc::check(vc::eq(s.GetLearningRate(n, b), ref->GetLearningRate(n, b)), "PlateauLR: a clone never disturbs its source (second step)");
}

// ---- parameter objects ----
// a user-defined schedule with observable internal state
class Counting : public LearningRateScheduler {
 public:
  double base; mutable size_t calls;
  Counting(double b, size_t c) : base(b), calls(c) {}
  double GetLearningRate(size_t, double) const override { calls += 1; return base + double(calls); }
  std::unique_ptr<LearningRateScheduler> Clone() const override { return std::make_unique<Counting>(base, calls); }
  std::string Name() const override { return "counting"; }
  std::string Describe() const override { return "counting"; }
};
static BP any_base() {
  size_t mi = vc::any_size("max_iter", 0, BIGN), pp = vc::any_size("patience", 0, BIGN);
  double et = vc::any_double("etol"), gt = vc::any_double("gtol"), lr = vc::any_double("lr");
  BP b(mi, et, gt, pp, lr);
  if (vc::any_bool("has_sched")) b.lr_scheduler = std::make_unique<Counting>(vc::any_double("sbase"), vc::any_size("scalls", 0, BIGN));
  if (vc::any_bool("has_cv")) b.clip_value = vc::any_double("cv");
  if (vc::any_bool("has_cn")) b.clip_norm = vc::any_double("cn");
  b.initial_step_selector = InitialStepSelectorParams{vc::any_bool("is_en"), vc::any_size("is_max", 0, BIGN), vc::any_bool("is_det")};
  b.periodic_step_selector = PeriodicStepSelectorParams{vc::any_bool("ps_en"), vc::any_size("ps_n", 0, BIGN), vc::any_double("ps_r"), vc::any_bool("ps_det")};
  b.jsonl_log_path = vc::any_string("log");
  return b;
}
static void same_plain(const BP &a, const BP &b) {
  vc::check(a.max_iterations == b.max_iterations, "copy: max_iterations");
  vc::check(vc::eq(a.energy_tolerance, b.energy_tolerance), "copy: energy_tolerance");
  vc::check(vc::eq(a.gradient_tolerance, b.gradient_tolerance), "copy: gradient_tolerance");
  vc::check(a.plateau_patience == b.plateau_patience, "copy: plateau_patience");
  vc::check(vc::eq(a.learning_rate, b.learning_rate), "copy: learning_rate");
  vc::check(a.clip_value.has_value() == b.clip_value.has_value() && (!a.clip_value || vc::eq(*a.clip_value, *b.clip_value)), "copy: clip_value");
  vc::check(a.clip_norm.has_value() == b.clip_norm.has_value() && (!a.clip_norm || vc::eq(*a.clip_norm, *b.clip_norm)), "copy: clip_norm");
  vc::check(a.initial_step_selector.enabled == b.initial_step_selector.enabled && a.initial_step_selector.max_line_search_steps == b.initial_step_selector.max_line_search_steps
            && a.initial_step_selector.enable_in_deterministic == b.initial_step_selector.enable_in_deterministic, "copy: initial_step_selector");
  vc::check(a.periodic_step_selector.enabled == b.periodic_step_selector.enabled && a.periodic_step_selector.every_n_steps == b.periodic_step_selector.every_n_steps
            && vc::eq(a.periodic_step_selector.phase_switch_ratio, b.periodic_step_selector.phase_switch_ratio)
            && a.periodic_step_selector.enable_in_deterministic == b.periodic_step_selector.enable_in_deterministic, "copy: periodic_step_selector");
  vc::check(a.jsonl_log_path == b.jsonl_log_path, "copy: jsonl_log_path");
  vc::check((a.lr_scheduler != nullptr) == (b.lr_scheduler != nullptr), "copy: scheduler present iff the source has one");
}
// same behaviour of the schedule, without interference
static void same_sched(const BP &a, const BP &b) {
  if (!a.lr_scheduler) return;
  vc::check(a.lr_scheduler.get() != b.lr_scheduler.get(), "copy: the schedule is not shared");
  double x = b.lr_scheduler->GetLearningRate(0, 0.0), y = b.lr_scheduler->GetLearningRate(1, 0.0);
  double u = a.lr_scheduler->GetLearningRate(0, 0.0), v = a.lr_scheduler->GetLearningRate(1, 0.0);
  vc::check(vc::eq(x, u) && vc::eq(y, v), "copy: both schedules continue from the same state, independently");
}
GOAL(base_copy_construct) {
  BP b = any_base();
  BP c(b);
  same_plain(b, c); same_sched(b, c);
}
GOAL(base_copy_assign) {
  BP b = any_base();
  BP c(7, 1.0, 2.0, 8, 3.0, vc::any_bool("old_sched") ? std::unique_ptr<LearningRateScheduler>(new ConstantLR(5.0)) : nullptr);
  c.clip_value = 0.25; c.clip_norm = 0.5; c.jsonl_log_path = "old"; c.initial_step_selector.enabled = true; c.periodic_step_selector.enabled = true;
  BP &r = (c = b);
  vc::check(&r == &c, "copy assignment returns its target");
  same_plain(b, c); same_sched(b, c);
}
GOAL(base_self_assign) {
  BP b = any_base();
  BP ref(b);
  BP &self = b;
  b = self;
  same_plain(b, ref); same_sched(b, ref);
}
GOAL(base_move) {
  BP b = any_base();
  BP ref(b);
  BP c(std::move(b));
  same_plain(c, ref); same_sched(c, ref);
  BP d(1, 1.0, 1.0, 1, 1.0, std::make_unique<ConstantLR>(9.0));
  BP ref2(c);
  d = std::move(c);
  same_plain(d, ref2); same_sched(d, ref2);
}
GOAL(base_constructor) {
  size_t mi = vc::any_size("max_iter", 0, BIGN), pp = vc::any_size("patience", 0, BIGN);
  double et = vc::any_double("etol"), gt = vc::any_double("gtol"), lr = vc::any_double("lr"), sb = vc::any_double("sbase");
  bool hs = vc::any_bool("has_sched");
  BP b(mi, et, gt, pp, lr, hs ? std::unique_ptr<LearningRateScheduler>(new ConstantLR(sb)) : nullptr);
  vc::check(b.max_iterations == mi && b.plateau_patience == pp && vc::eq(b.energy_tolerance, et) && vc::eq(b.gradient_tolerance, gt) && vc::eq(b.learning_rate, lr), "BaseParams: stores what it is given");
  vc::check((b.lr_scheduler != nullptr) == hs, "BaseParams: scheduler iff given");
  if (hs) vc::check(vc::eq(b.lr_scheduler->GetLearningRate(3, 0.0), sb), "BaseParams: the given scheduler is used");
  vc::check(!b.clip_value && !b.clip_norm && !b.initial_step_selector.enabled && !b.periodic_step_selector.enabled && b.jsonl_log_path.empty(), "BaseParams: clipping, selectors and logging off by default");
}
GOAL(params_copy_independent) {
  BP b = any_base();
  double m = vc::any_double("mom"), wd = vc::any_double("wd"); bool nv = vc::any_bool("nes");
  OptimizerParams p(b, SGDParams(m, nv, wd));
  p.checkpoint_params = CheckpointParams{vc::any_size("ck_n", 0, BIGN), vc::any_string("ck_p")};
  p.spike_recovery_params.factor_err = vc::any_double("f_err");
  p.spike_recovery_params.ema_window = vc::any_size("win", 0, BIGN);
  OptimizerParams q(p);
  same_plain(p.base_params, q.base_params); same_sched(p.base_params, q.base_params);
  vc::check(q.IsAlgorithm<SGDParams>() && q.IsFirstOrder(), "OptimizerParams copy: algorithm kept");
  const SGDParams &s = q.GetAlgorithmParams<SGDParams>();
  vc::check(vc::eq(s.momentum, m) && s.nesterov == nv && vc::eq(s.weight_decay, wd), "OptimizerParams copy: algorithm parameters kept");
  vc::check(q.checkpoint_params.every_n_steps == p.checkpoint_params.every_n_steps && q.checkpoint_params.base_path == p.checkpoint_params.base_path
            && q.checkpoint_params.IsEnabled() == p.checkpoint_params.IsEnabled(), "OptimizerParams copy: checkpoint parameters kept");
  vc::check(vc::eq(q.spike_recovery_params.factor_err, p.spike_recovery_params.factor_err) && q.spike_recovery_params.ema_window == p.spike_recovery_params.ema_window, "OptimizerParams copy: spike parameters kept");
  p.base_params.learning_rate = p.base_params.learning_rate + 1.0;
  vc::check(vc::eq(q.base_params.learning_rate, b.learning_rate), "OptimizerParams copy: no shared state");
}
#include "vc_main.h"
