// C04: the builder and the factories deliver exactly the configuration that was asked for, whatever the order of the calls.
#include "vc.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
static const size_t BIGN = 1000000000;

// the configuration a history of builder calls describes: last call per field wins, the rest has the documented defaults
struct Want {
  bool base = false;
  size_t max_iter = 1000, patience = 20; double etol = 1e-10, gtol = 1e-30, lr = 0.01;
  bool sched = false; double sval = 0;
  bool hcv = false, hcn = false; double cv = 0, cn = 0;
  bool is_en = false, is_det = false; size_t is_max = 3;
  bool ps_en = false, ps_det = false; size_t ps_n = 10; double ps_r = 0.3;
  int algo = -1; double a0 = 0, a1 = 0, a2 = 0, a3 = 0; bool ab = false; size_t an = 0;
  size_t ck_n = 0; std::string ck_p;
  bool sp_auto = true, sp_roll = false; double sp_err = 100.0, sp_grad = 1e10, sp_ng = 10.0, sp_k = 10.0; size_t sp_try = 2, sp_min = 1, sp_win = 50;
};
static void expect(const OptimizerParamsBuilder &b, const Want &w) {
  if (!w.base || w.algo < 0) {
    vc::check(vc::throws([&] { b.Build(); }), "Build: refuses an incomplete configuration");
    return;
  }
  OptimizerParams p = b.Build();
  const auto &q = p.base_params;
  vc::check(q.max_iterations == w.max_iter, "Build: max_iterations as set, default 1000");
  vc::check(vc::eq(q.energy_tolerance, w.etol), "Build: energy_tolerance as set, default 1e-10");
  vc::check(q.gradient_tolerance == w.gtol, "Build: gradient_tolerance 1e-30 whatever the order of the setters");
  vc::check(q.plateau_patience == w.patience, "Build: plateau_patience as set, default 20");
  vc::check(vc::eq(q.learning_rate, w.lr), "Build: learning_rate as set, default 0.01");
  vc::check((q.lr_scheduler != nullptr) == w.sched, "Build: scheduler iff one was given");
  if (w.sched) vc::check(vc::eq(q.lr_scheduler->GetLearningRate(5, 0.0), w.sval), "Build: the last scheduler given is used");
  vc::check(q.clip_value.has_value() == w.hcv && (!w.hcv || vc::eq(*q.clip_value, w.cv)), "Build: clip_value as set, default off");
  vc::check(q.clip_norm.has_value() == w.hcn && (!w.hcn || vc::eq(*q.clip_norm, w.cn)), "Build: clip_norm as set, default off");
  vc::check(q.initial_step_selector.enabled == w.is_en && q.initial_step_selector.max_line_search_steps == w.is_max && q.initial_step_selector.enable_in_deterministic == w.is_det, "Build: initial step selector as set, default off");
  vc::check(q.periodic_step_selector.enabled == w.ps_en && q.periodic_step_selector.every_n_steps == w.ps_n && vc::eq(q.periodic_step_selector.phase_switch_ratio, w.ps_r) && q.periodic_step_selector.enable_in_deterministic == w.ps_det, "Build: periodic step selector as set, default off");
  vc::check(q.jsonl_log_path.empty(), "Build: no log path");
  vc::check(p.IsAlgorithm<SGDParams>() == (w.algo == 0) && p.IsAlgorithm<AdamParams>() == (w.algo == 1) && p.IsAlgorithm<StochasticReconfigurationParams>() == (w.algo == 2) && p.IsAlgorithm<LBFGSParams>() == (w.algo == 3) && p.IsAlgorithm<AdaGradParams>() == (w.algo == 4) && p.IsAlgorithm<MinSRParams>() == (w.algo == 5), "Build: the last algorithm chosen");
  vc::check(p.IsFirstOrder() == (w.algo == 0 || w.algo == 1 || w.algo == 4), "IsFirstOrder: exactly SGD, Adam and AdaGrad");
  if (w.algo == 0) { auto &s = p.GetAlgorithmParams<SGDParams>(); vc::check(vc::eq(s.momentum, w.a0) && s.nesterov == w.ab && vc::eq(s.weight_decay, 0.0), "Build: SGD parameters"); }
  if (w.algo == 1) { auto &s = p.GetAlgorithmParams<AdamParams>(); vc::check(vc::eq(s.beta1, w.a0) && vc::eq(s.beta2, w.a1) && vc::eq(s.epsilon, w.a2) && vc::eq(s.weight_decay, w.a3), "Build: Adam parameters"); }
  if (w.algo == 2) { auto &s = p.GetAlgorithmParams<StochasticReconfigurationParams>(); vc::check(vc::eq(s.diag_shift, w.a0) && s.normalize_update == w.ab && vc::eq(s.adaptive_diagonal_shift, w.a1) && s.cg_params.max_iter == w.an && vc::eq(s.cg_params.relative_tolerance, w.a2) && vc::eq(s.cg_params.absolute_tolerance, w.a3), "Build: SR parameters"); }
  if (w.algo == 3) { auto &s = p.GetAlgorithmParams<LBFGSParams>(); vc::check(s.history_size == w.an && vc::eq(s.tolerance_grad, w.a0) && vc::eq(s.wolfe_c2, w.a1) && s.use_damping == w.ab && vc::eq(s.max_step, w.a2), "Build: L-BFGS parameters"); }
  if (w.algo == 4) { auto &s = p.GetAlgorithmParams<AdaGradParams>(); vc::check(vc::eq(s.epsilon, w.a0) && vc::eq(s.initial_accumulator_value, w.a1), "Build: AdaGrad parameters"); }
  if (w.algo == 5) { auto &s = p.GetAlgorithmParams<MinSRParams>(); vc::check(vc::eq(s.r_pinv, w.a0) && vc::eq(s.a_pinv, w.a1) && s.soft_cutoff == w.ab, "Build: MinSR parameters"); }
  vc::check(p.checkpoint_params.every_n_steps == w.ck_n && p.checkpoint_params.base_path == w.ck_p, "Build: checkpoint as set, default off");
  vc::check(p.checkpoint_params.IsEnabled() == (w.ck_n > 0 && !w.ck_p.empty()), "CheckpointParams: enabled iff an interval and a path are given");
  const auto &s = p.spike_recovery_params;
  vc::check(s.enable_auto_recover == w.sp_auto && s.enable_rollback == w.sp_roll && vc::eq(s.factor_err, w.sp_err) && s.factor_grad == w.sp_grad && vc::eq(s.factor_ngrad, w.sp_ng) && vc::eq(s.sigma_k, w.sp_k)
            && s.redo_mc_max_retries == w.sp_try && s.sr_min_iters_suspicious == w.sp_min && s.ema_window == w.sp_win && s.log_trigger_csv_path.empty(), "Build: spike recovery as set, default S1-S3 on");
}
// ---- one call of each kind, on the builder and on the description ----
static void op_max_iter(OptimizerParamsBuilder &b, Want &w) { w.max_iter = vc::any_size("max_iter", 0, BIGN); w.base = true; b.SetMaxIterations(w.max_iter); }
static void op_etol(OptimizerParamsBuilder &b, Want &w) { w.etol = vc::any_double("etol"); w.base = true; b.SetEnergyTolerance(w.etol); }
static void op_patience(OptimizerParamsBuilder &b, Want &w) { w.patience = vc::any_size("patience", 0, BIGN); w.base = true; b.SetPlateauPatience(w.patience); }
static void op_lr(OptimizerParamsBuilder &b, Want &w) { w.lr = vc::any_double("lr"); w.base = true; b.SetLearningRate(w.lr); }
static void op_lr_sched(OptimizerParamsBuilder &b, Want &w) { w.lr = vc::any_double("lr"); w.base = true; w.sched = true; w.sval = vc::any_double("sval"); b.SetLearningRate(w.lr, std::make_unique<ConstantLR>(w.sval)); }
static void op_clip_value(OptimizerParamsBuilder &b, Want &w) {
  double v = vc::any_double("cv");
  bool t = vc::throws([&] { b.SetClipValue(v); });
  vc::check(t == !w.base, "SetClipValue: refused iff no base parameter was set");
  if (w.base) { w.hcv = true; w.cv = v; }
}
static void op_clip_norm(OptimizerParamsBuilder &b, Want &w) {
  double v = vc::any_double("cn");
  bool t = vc::throws([&] { b.SetClipNorm(v); });
  vc::check(t == !w.base, "SetClipNorm: refused iff no base parameter was set");
  if (w.base) { w.hcn = true; w.cn = v; }
}
static void op_initial(OptimizerParamsBuilder &b, Want &w) {
  bool en = vc::any_bool("is_en"), det = vc::any_bool("is_det"); size_t n = vc::any_size("is_max", 0, BIGN);
  bool t = vc::throws([&] { b.SetInitialStepSelector(en, n, det); });
  vc::check(t == !w.base, "SetInitialStepSelector: refused iff no base parameter was set");
  if (w.base) { w.is_en = en; w.is_det = det; w.is_max = n; }
}
static void op_periodic(OptimizerParamsBuilder &b, Want &w) {
  bool en = vc::any_bool("ps_en"), det = vc::any_bool("ps_det"); size_t n = vc::any_size("ps_n", 0, BIGN); double r = vc::any_double("ps_r");
  bool t = vc::throws([&] { b.SetPeriodicStepSelector(en, n, r, det); });
  vc::check(t == !w.base, "SetPeriodicStepSelector: refused iff no base parameter was set");
  if (w.base) { w.ps_en = en; w.ps_det = det; w.ps_n = n; w.ps_r = r; }
}
static void op_sgd(OptimizerParamsBuilder &b, Want &w) { w.algo = 0; w.a0 = vc::any_double("a0"); w.ab = vc::any_bool("ab"); b.WithSGD(w.a0, w.ab); }
static void op_adam(OptimizerParamsBuilder &b, Want &w) { w.algo = 1; w.a0 = vc::any_double("a0"); w.a1 = vc::any_double("a1"); w.a2 = vc::any_double("a2"); w.a3 = vc::any_double("a3"); b.WithAdam(w.a0, w.a1, w.a2, w.a3); }
static void op_sr(OptimizerParamsBuilder &b, Want &w) {
  w.algo = 2; w.a0 = vc::any_double("a0"); w.a1 = vc::any_double("a1"); w.a2 = vc::any_double("a2"); w.a3 = vc::any_double("a3"); w.ab = vc::any_bool("ab"); w.an = vc::any_size("an", 0, BIGN);
  StochasticReconfigurationParams s; s.diag_shift = w.a0; s.normalize_update = w.ab; s.adaptive_diagonal_shift = w.a1; s.cg_params.max_iter = w.an; s.cg_params.relative_tolerance = w.a2; s.cg_params.absolute_tolerance = w.a3;
  b.WithStochasticReconfiguration(s);
}
static void op_lbfgs(OptimizerParamsBuilder &b, Want &w) {
  w.algo = 3; w.a0 = vc::any_double("a0"); w.a1 = vc::any_double("a1"); w.a2 = vc::any_double("a2"); w.ab = vc::any_bool("ab"); w.an = vc::any_size("an", 0, BIGN);
  LBFGSParams s(w.an, w.a0); s.wolfe_c2 = w.a1; s.use_damping = w.ab; s.max_step = w.a2; b.WithLBFGS(s);
}
static void op_adagrad(OptimizerParamsBuilder &b, Want &w) { w.algo = 4; w.a0 = vc::any_double("a0"); w.a1 = vc::any_double("a1"); b.WithAdaGrad(w.a0, w.a1); }
static void op_minsr(OptimizerParamsBuilder &b, Want &w) { w.algo = 5; w.a0 = vc::any_double("a0"); w.a1 = vc::any_double("a1"); w.ab = vc::any_bool("ab"); b.WithMinSR(MinSRParams(w.a0, w.a1, w.ab)); }
static void op_ckpt(OptimizerParamsBuilder &b, Want &w) { w.ck_n = vc::any_size("ck_n", 0, BIGN); w.ck_p = vc::any_string("ck_p"); b.SetCheckpoint(w.ck_n, w.ck_p); }
static void op_spike(OptimizerParamsBuilder &b, Want &w) {
  SpikeRecoveryParams s;
  w.sp_auto = s.enable_auto_recover = vc::any_bool("sp_auto"); w.sp_roll = s.enable_rollback = vc::any_bool("sp_roll");
  w.sp_err = s.factor_err = vc::any_double("sp_err"); w.sp_grad = s.factor_grad = vc::any_double("sp_grad"); w.sp_ng = s.factor_ngrad = vc::any_double("sp_ng"); w.sp_k = s.sigma_k = vc::any_double("sp_k");
  w.sp_try = s.redo_mc_max_retries = vc::any_size("sp_try", 0, BIGN); w.sp_min = s.sr_min_iters_suspicious = vc::any_size("sp_min", 0, BIGN); w.sp_win = s.ema_window = vc::any_size("sp_win", 0, BIGN);
  b.SetSpikeRecovery(s);
}
static void op_nospike(OptimizerParamsBuilder &b, Want &w) {
  Want d; w.sp_auto = false; w.sp_roll = false; w.sp_err = d.sp_err; w.sp_grad = d.sp_grad; w.sp_ng = d.sp_ng; w.sp_k = d.sp_k; w.sp_try = d.sp_try; w.sp_min = d.sp_min; w.sp_win = d.sp_win;
  b.DisableSpikeRecovery();
}
// every builder state that some history reaches (each field either untouched or set to an arbitrary value)
static void any_state(OptimizerParamsBuilder &b, Want &w) {
  if (vc::any_bool("p_base")) {
    op_max_iter(b, w); op_etol(b, w); op_patience(b, w);
    if (vc::any_bool("p_sched")) op_lr_sched(b, w); else op_lr(b, w);
    if (vc::any_bool("p_cv")) op_clip_value(b, w);
    if (vc::any_bool("p_cn")) op_clip_norm(b, w);
    op_initial(b, w); op_periodic(b, w);
  }
  int al = (int) vc::any_int("p_algo", -1, 5);
  if (al == 0) op_sgd(b, w); else if (al == 1) op_adam(b, w); else if (al == 2) op_sr(b, w); else if (al == 3) op_lbfgs(b, w); else if (al == 4) op_adagrad(b, w); else if (al == 5) op_minsr(b, w);
  if (vc::any_bool("p_ck")) op_ckpt(b, w);
  if (vc::any_bool("p_sp")) op_spike(b, w);
}
#define STEP(op) OptimizerParamsBuilder b; Want w; any_state(b, w); expect(b, w); op(b, w); expect(b, w);
GOAL(builder_max_iterations) { STEP(op_max_iter) }
GOAL(builder_energy_tolerance) { STEP(op_etol) }
GOAL(builder_patience) { STEP(op_patience) }
GOAL(builder_learning_rate) { STEP(op_lr) }
GOAL(builder_learning_rate_sched) { STEP(op_lr_sched) }
GOAL(builder_clip_value) { STEP(op_clip_value) }
GOAL(builder_clip_norm) { STEP(op_clip_norm) }
GOAL(builder_initial_selector) { STEP(op_initial) }
GOAL(builder_periodic_selector) { STEP(op_periodic) }
GOAL(builder_sgd) { STEP(op_sgd) }
GOAL(builder_adam) { STEP(op_adam) }
GOAL(builder_sr) { STEP(op_sr) }
GOAL(builder_lbfgs) { STEP(op_lbfgs) }
GOAL(builder_adagrad) { STEP(op_adagrad) }
GOAL(builder_minsr) { STEP(op_minsr) }
GOAL(builder_checkpoint) { STEP(op_ckpt) }
GOAL(builder_spike) { STEP(op_spike) }
GOAL(builder_disable_spike) { STEP(op_nospike) }
// building twice gives two independent equal configurations and leaves the builder as it was
GOAL(builder_reusable) {
  OptimizerParamsBuilder b; Want w; op_lr_sched(b, w); op_sgd(b, w);
  OptimizerParams p = b.Build(), q = b.Build();
  vc::check(p.base_params.lr_scheduler.get() != q.base_params.lr_scheduler.get(), "Build: results share no schedule");
  p.base_params.max_iterations += 1;
  expect(b, w);
  vc::check(q.base_params.max_iterations == w.max_iter, "Build: results are independent");
}
GOAL(builder_first_call_defaults) {
  OptimizerParamsBuilder b; Want w;
  int f = (int) vc::any_int("first", 0, 4);
  if (f == 0) op_max_iter(b, w); else if (f == 1) op_etol(b, w); else if (f == 2) op_patience(b, w); else if (f == 3) op_lr(b, w); else op_lr_sched(b, w);
  b.WithMinSR(); w.algo = 5; w.a0 = 1e-12; w.a1 = 0.0; w.ab = true;
  expect(b, w);
}
GOAL(builder_algorithm_defaults) {
  OptimizerParamsBuilder b; Want w; op_lr(b, w);
  b.WithSGD(); w.algo = 0; w.a0 = 0; w.ab = false; expect(b, w);
  b.WithAdam(); w.algo = 1; w.a0 = 0.9; w.a1 = 0.999; w.a2 = 1e-8; w.a3 = 0; expect(b, w);
  b.WithAdaGrad(); w.algo = 4; w.a0 = 1e-8; w.a1 = 0; expect(b, w);
  b.SetInitialStepSelector(true); w.is_en = true; w.is_max = 3; w.is_det = false; expect(b, w);
  b.SetPeriodicStepSelector(true); w.ps_en = true; w.ps_n = 10; w.ps_r = 0.3; w.ps_det = false; expect(b, w);
}
// ---- factories ----
static void base_is(const OptimizerParams &p, size_t mi, double et, double gt, size_t pp, double lr) {
  const auto &q = p.base_params;
  vc::check(q.max_iterations == mi, "factory: max_iterations");
  vc::check(q.energy_tolerance == et && q.gradient_tolerance == gt && q.plateau_patience == pp, "factory: stopping rule as given, disabled in the simple versions");
  vc::check(vc::eq(q.learning_rate, lr), "factory: learning rate");
  vc::check(!q.clip_value && !q.clip_norm && !q.initial_step_selector.enabled && !q.periodic_step_selector.enabled && q.jsonl_log_path.empty(), "factory: options off");
  vc::check(!p.checkpoint_params.IsEnabled() && p.spike_recovery_params.enable_auto_recover && !p.spike_recovery_params.enable_rollback, "factory: checkpoint off, S1-S3 on");
}
GOAL(factory_sr) {
  size_t mi = vc::any_size("mi", 0, BIGN), pp = vc::any_size("pp", 0, BIGN); double et = vc::any_double("et"), gt = vc::any_double("gt"), lr = vc::any_double("lr"), ds = vc::any_double("ds"), sv = vc::any_double("sv");
  StochasticReconfigurationParams s; s.diag_shift = ds; s.cg_params.max_iter = pp;
  OptimizerParams a = OptimizerFactory::CreateStochasticReconfiguration(mi, s, lr);
  base_is(a, mi, 0.0, 0.0, mi, lr);
  vc::check(a.IsAlgorithm<StochasticReconfigurationParams>() && vc::eq(a.GetAlgorithmParams<StochasticReconfigurationParams>().diag_shift, ds) && a.GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.max_iter == pp && !a.base_params.lr_scheduler, "factory SR");
  OptimizerParams b = OptimizerFactory::CreateStochasticReconfigurationAdvanced(mi, et, gt, pp, s, lr, std::make_unique<ConstantLR>(sv));
  base_is(b, mi, et, gt, pp, lr);
  vc::check(b.IsAlgorithm<StochasticReconfigurationParams>() && vc::eq(b.GetAlgorithmParams<StochasticReconfigurationParams>().diag_shift, ds) && b.base_params.lr_scheduler && vc::eq(b.base_params.lr_scheduler->GetLearningRate(2, 0.0), sv), "factory SR advanced");
  OptimizerParams c = OptimizerFactory::CreateStochasticReconfiguration(mi, s);
  vc::check(vc::eq(c.base_params.learning_rate, 0.1), "factory SR: default rate 0.1");
}
GOAL(factory_sgd) {
  size_t mi = vc::any_size("mi", 0, BIGN), pp = vc::any_size("pp", 0, BIGN), ds = vc::any_size("ds", 1, BIGN), i = vc::any_size("i", 0, BIGN); double et = vc::any_double("et"), gt = vc::any_double("gt"), lr = vc::any_double("lr"), dr = vc::any_double("dr");
  vc::require(dr > 0);
  ExponentialDecayLR ref(lr, dr, ds);
  OptimizerParams a = OptimizerFactory::CreateSGDWithDecay(mi, lr, dr, ds);
  base_is(a, mi, 0.0, 0.0, mi, lr);
  vc::check(a.IsAlgorithm<SGDParams>() && a.base_params.lr_scheduler && vc::eq(a.base_params.lr_scheduler->GetLearningRate(i, 0.0), ref.GetLearningRate(i, 0.0)), "factory SGD: exponential decay schedule");
  OptimizerParams b = OptimizerFactory::CreateSGDWithDecayAdvanced(mi, et, gt, pp, lr, dr, ds);
  base_is(b, mi, et, gt, pp, lr);
  vc::check(b.IsAlgorithm<SGDParams>() && b.base_params.lr_scheduler && vc::eq(b.base_params.lr_scheduler->GetLearningRate(i, 0.0), ref.GetLearningRate(i, 0.0)), "factory SGD advanced: exponential decay schedule");
  vc::check(vc::eq(b.GetAlgorithmParams<SGDParams>().momentum, 0.0) && !b.GetAlgorithmParams<SGDParams>().nesterov && vc::eq(a.GetAlgorithmParams<SGDParams>().weight_decay, 0.0), "factory SGD: plain SGD");
}
GOAL(factory_adam) {
  size_t mi = vc::any_size("mi", 0, BIGN), pp = vc::any_size("pp", 0, BIGN); double et = vc::any_double("et"), gt = vc::any_double("gt"), lr = vc::any_double("lr"), b1 = vc::any_double("b1"), b2 = vc::any_double("b2"), sv = vc::any_double("sv");
  OptimizerParams a = OptimizerFactory::CreateAdam(mi, lr, b1, b2);
  base_is(a, mi, 0.0, 0.0, mi, lr);
  vc::check(a.IsAlgorithm<AdamParams>() && vc::eq(a.GetAlgorithmParams<AdamParams>().beta1, b1) && vc::eq(a.GetAlgorithmParams<AdamParams>().beta2, b2) && vc::eq(a.GetAlgorithmParams<AdamParams>().epsilon, 1e-8) && !a.base_params.lr_scheduler, "factory Adam");
  OptimizerParams b = OptimizerFactory::CreateAdamAdvanced(mi, et, gt, pp, lr, b1, b2, std::make_unique<ConstantLR>(sv));
  base_is(b, mi, et, gt, pp, lr);
  vc::check(b.IsAlgorithm<AdamParams>() && vc::eq(b.GetAlgorithmParams<AdamParams>().beta1, b1) && vc::eq(b.GetAlgorithmParams<AdamParams>().beta2, b2) && b.base_params.lr_scheduler && vc::eq(b.base_params.lr_scheduler->GetLearningRate(2, 0.0), sv), "factory Adam advanced");
  OptimizerParams c = OptimizerFactory::CreateAdam(mi);
  vc::check(vc::eq(c.base_params.learning_rate, 1e-3) && vc::eq(c.GetAlgorithmParams<AdamParams>().beta1, 0.9) && vc::eq(c.GetAlgorithmParams<AdamParams>().beta2, 0.999) && vc::eq(c.GetAlgorithmParams<AdamParams>().weight_decay, 0.0), "factory Adam: defaults");
}
GOAL(factory_adagrad) {
  size_t mi = vc::any_size("mi", 0, BIGN), pp = vc::any_size("pp", 0, BIGN); double et = vc::any_double("et"), gt = vc::any_double("gt"), lr = vc::any_double("lr"), ep = vc::any_double("ep"), ia = vc::any_double("ia");
  OptimizerParams a = OptimizerFactory::CreateAdaGrad(mi, lr, ep, ia);
  base_is(a, mi, 0.0, 0.0, mi, lr);
  vc::check(a.IsAlgorithm<AdaGradParams>() && vc::eq(a.GetAlgorithmParams<AdaGradParams>().epsilon, ep) && vc::eq(a.GetAlgorithmParams<AdaGradParams>().initial_accumulator_value, ia), "factory AdaGrad");
  OptimizerParams b = OptimizerFactory::CreateAdaGradAdvanced(mi, et, gt, pp, lr, ep, ia);
  base_is(b, mi, et, gt, pp, lr);
  vc::check(b.IsAlgorithm<AdaGradParams>() && vc::eq(b.GetAlgorithmParams<AdaGradParams>().epsilon, ep) && vc::eq(b.GetAlgorithmParams<AdaGradParams>().initial_accumulator_value, ia), "factory AdaGrad advanced");
}
GOAL(factory_lbfgs) {
  size_t mi = vc::any_size("mi", 0, BIGN), pp = vc::any_size("pp", 0, BIGN), h = vc::any_size("h", 0, BIGN); double et = vc::any_double("et"), gt = vc::any_double("gt"), lr = vc::any_double("lr"), sv = vc::any_double("sv"), c1 = vc::any_double("c1");
  OptimizerParams a = OptimizerFactory::CreateLBFGS(mi, lr, h);
  base_is(a, mi, 0.0, 0.0, mi, lr);
  const LBFGSParams &s = a.GetAlgorithmParams<LBFGSParams>();
  vc::check(a.IsAlgorithm<LBFGSParams>() && s.history_size == h && vc::eq(s.tolerance_grad, 1e-5) && vc::eq(s.tolerance_change, 1e-9) && s.max_eval == 20 && s.step_mode == LBFGSStepMode::kFixed && vc::eq(s.wolfe_c1, 1e-4) && vc::eq(s.wolfe_c2, 0.9)
            && vc::eq(s.min_step, 1e-8) && vc::eq(s.max_step, 1.0) && s.use_damping && !s.allow_fallback_to_fixed_step && vc::eq(s.fallback_fixed_step_scale, 0.2) && vc::eq(s.max_direction_norm, 1e3), "factory L-BFGS");
  OptimizerParams b = OptimizerFactory::CreateLBFGSAdvanced(mi, et, gt, pp, lr, h, std::make_unique<ConstantLR>(sv));
  base_is(b, mi, et, gt, pp, lr);
  vc::check(b.IsAlgorithm<LBFGSParams>() && b.GetAlgorithmParams<LBFGSParams>().history_size == h && b.base_params.lr_scheduler && vc::eq(b.base_params.lr_scheduler->GetLearningRate(2, 0.0), sv), "factory L-BFGS advanced");
  LBFGSParams o(h, et, gt, pp, LBFGSStepMode::kStrongWolfe, c1);
  OptimizerParams c = OptimizerFactory::CreateLBFGSAdvanced(mi, et, gt, pp, lr, o, std::make_unique<ConstantLR>(sv));
  base_is(c, mi, et, gt, pp, lr);
  const LBFGSParams &d = c.GetAlgorithmParams<LBFGSParams>();
  vc::check(d.history_size == h && vc::eq(d.tolerance_grad, et) && vc::eq(d.tolerance_change, gt) && d.max_eval == pp && d.step_mode == LBFGSStepMode::kStrongWolfe && vc::eq(d.wolfe_c1, c1) && c.base_params.lr_scheduler && vc::eq(c.base_params.lr_scheduler->GetLearningRate(2, 0.0), sv), "factory L-BFGS advanced, explicit options");
}
#include "vc_main.h"
