// C18: the parameter updates of the optimizer (SGD, momentum, Nesterov, weight decay, AdaGrad, Adam), L-BFGS, stopping criteria.
#include "vc.h"
#include "vc_sitps.h"
#include <cassert>
#include <cstring>
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
typedef std::complex<double> lapack_complex_double;
inline int LAPACKE_dsyev(int, char, char, int, double *, int, double *) { return -1; }
inline int LAPACKE_zheev(int, char, char, int, lapack_complex_double *, int, double *) { return -1; }
#define private public
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_impl.h"
#undef private
using namespace qlpeps;
typedef SplitIndexTPS<double, VcQN> W;
typedef Optimizer<double, VcQN> Opt;
static OptimizerParams::BaseParams base() { return OptimizerParams::BaseParams(10, 1e-15, 1e-15, 20, 0.1); }

GOAL(sgd_step) {
  double x = vc::any_double("x"), g = vc::any_double("g"), lr = vc::any_double("lr"), v = vc::any_double("v");
  double mu = vc::any_double("mu"), wd = vc::any_double("wd"); bool nest = vc::any_bool("nest"), started = vc::any_bool("started");
  vc::require(mu >= 0 && wd >= 0);
  SGDParams p(mu, nest, wd);
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  if (started) { o.velocity_ = W::of(v); o.sgd_momentum_initialized_ = true; }
  double v1 = mu * (started ? v : 0.0) + g;
  double want = (1 - lr * wd) * x - lr * (mu > 0 ? (nest ? mu * v1 + g : v1) : g);
  W pre = o.SGDPreviewUpdate_(W::of(x), W::of(g), lr, p);
  vc::check(vc::eq(pre.at(0), want), "the preview is the step");
  vc::check(o.sgd_momentum_initialized_ == started && (!started || o.velocity_.at(0) == v), "the preview changes no state");
  W got = o.SGDUpdate(W::of(x), W::of(g), lr, p);
  vc::check(vc::eq(got.at(0), want), "the step");
  vc::check(!(mu > 0) || (o.sgd_momentum_initialized_ && vc::eq(o.velocity_.at(0), v1)), "the velocity is carried on");
}
GOAL(sgd_slave) {
  double x = vc::any_double("x"), g = vc::any_double("g"), lr = vc::any_double("lr"), mu = vc::any_double("mu");
  long rank = vc::any_int("rank", 1, 7);
  SGDParams p(mu, true, 0.5);
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, (int) rank, 8);
  vc::check(o.SGDUpdate(W::of(x), W::of(g), lr, p).at(0) == x, "only the master updates");
  vc::check(o.SGDPreviewUpdate_(W::of(x), W::of(g), lr, p).at(0) == x, "only the master updates (preview)");
}
GOAL(adagrad_step) {
  double x = vc::any_double("x"), g = vc::any_double("g"), lr = vc::any_double("lr"), acc = vc::any_double("acc");
  double eps = vc::any_double("eps"), init = vc::any_double("init"); bool started = vc::any_bool("started");
  vc::require(eps >= 0 && init >= 0 && acc >= 0);
  AdaGradParams p(eps, init);
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  if (started) { o.accumulated_gradients_ = W::of(acc); o.adagrad_initialized_ = true; }
  double a1 = (started ? acc : init) + g * g;
  W got = o.AdaGradUpdate(W::of(x), W::of(g), lr);
  vc::check(o.adagrad_initialized_ && vc::eq(o.accumulated_gradients_.at(0), a1), "squared gradients are accumulated");
  double root = std::sqrt(a1), rate = root > eps ? 1.0 / root : 0.0;
  vc::check(vc::eq(got.at(0), x - lr * (rate * g)), "the step");
}
GOAL(adam_step) {
  double x = vc::any_double("x"), g = vc::any_double("g"), lr = vc::any_double("lr"), m = vc::any_double("m"), v = vc::any_double("v");
  double b1 = vc::any_double("b1"), b2 = vc::any_double("b2"), eps = vc::any_double("eps"), wd = vc::any_double("wd");
  size_t t = vc::any_size("t", 0, 100000); bool started = vc::any_bool("started");
  vc::require(b1 >= 0 && b1 < 1 && b2 >= 0 && b2 < 1 && eps >= 0 && wd >= 0 && v >= 0);
  AdamParams p(b1, b2, eps, wd);
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  if (started) { o.first_moment_ = W::of(m); o.second_moment_ = W::of(v); o.adam_timestep_ = t; o.adam_initialized_ = true; }
  double m1 = b1 * (started ? m : 0.0) + (1 - b1) * g, v1 = b2 * (started ? v : 0.0) + (1 - b2) * (g * g);
  size_t t1 = (started ? t : 0) + 1;
  double k1 = 1 - std::pow(b1, (double) t1), k2 = 1 - std::pow(b2, (double) t1);
  vc::require(k1 > 0 && k2 > 0);
  W got = o.AdamUpdate(W::of(x), W::of(g), lr, p);
  vc::check(o.adam_initialized_ && o.adam_timestep_ == t1, "the step counter");
  vc::check(vc::eq(o.first_moment_.at(0), m1), "first moment");
  vc::check(vc::eq(o.second_moment_.at(0), v1), "second moment");
  double root = std::sqrt((1.0 / k2) * v1), rate = root > eps ? 1.0 / root : 0.0;
  vc::check(vc::eq(got.at(0), (1 - lr * wd) * x - lr * (rate * ((1.0 / k1) * m1))), "the step");
}
GOAL(slave_updates) {
  double x = vc::any_double("x"), g = vc::any_double("g"), lr = vc::any_double("lr"); long rank = vc::any_int("rank", 1, 7);
  AdamParams p(0.9, 0.99, 1e-8, 0.5);
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, (int) rank, 8);
  vc::check(o.AdamUpdate(W::of(x), W::of(g), lr, p).at(0) == x && !o.adam_initialized_, "only the master updates (adam)");
  Opt q(OptimizerParams(base(), AdaGradParams(1e-8, 0.0)), MPI_COMM_SELF, (int) rank, 8);
  vc::check(q.AdaGradUpdate(W::of(x), W::of(g), lr).at(0) == x && !q.adagrad_initialized_, "only the master updates (adagrad)");
}
GOAL(lbfgs_fixed_step) {
  double x = vc::any_double("x"), d = vc::any_double("d"), lr = vc::any_double("lr");
  Opt o(OptimizerParams(base(), LBFGSParams()), MPI_COMM_SELF, 0, 1);
  auto r = o.ApplyFixedLBFGSStep_(W::of(x), W::of(d), lr);
  vc::check(r.second == (lr > 0 ? lr : 0.0) && vc::eq(r.first.at(0), x + r.second * d), "the fixed step");
}
GOAL(lbfgs_pair) {
  double x = vc::any_double("x"), g = vc::any_double("g"), ax = vc::any_double("ax"), ag = vc::any_double("ag"), minc = vc::any_double("minc");
  bool damp = vc::any_bool("damp"), has = vc::any_bool("has");
  size_t have = vc::any_size("have", 0, 20), cap = vc::any_size("cap", 0, 20);
  vc::require(minc >= 0 && have <= cap + 1);
  LBFGSParams p; p.history_size = cap; p.min_curvature = minc; p.use_damping = damp;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  for (size_t k = 0; k < have; k++) { Opt::LBFGSHistoryPair h; h.rho = (double) k; o.lbfgs_history_.push_back(h); }
  o.lbfgs_has_anchor_ = has; o.lbfgs_anchor_state_ = W::of(ax); o.lbfgs_anchor_gradient_ = W::of(ag);
  bool threw = vc::throws([&] { o.UpdateLBFGSHistoryFromAnchor_(W::of(x), W::of(g), p); });
  vc::check(threw == (has && cap == 0), "an empty history capacity is refused");
  if (threw) return;
  size_t skipped = o.lbfgs_skip_curvature_count_;
  if (!has) { vc::check(o.lbfgs_history_.size() == have && skipped == 0, "no anchor: nothing happens"); return; }
  if (skipped > 0) { vc::check(o.lbfgs_history_.size() == have, "a refused pair leaves the history alone"); return; }
  vc::check(o.lbfgs_history_.size() == (have + 1 < cap ? have + 1 : cap), "the history is bounded by its capacity");
  const Opt::LBFGSHistoryPair &last = o.lbfgs_history_.back();
  double s = x - ax, y = g - ag, sy = last.s.at(0) * last.y.at(0);
  vc::check(vc::eq(last.s.at(0), s), "s is the step from the anchor");
  vc::check(sy > minc && vc::eq(last.rho * sy, 1.0), "only positive curvature is recorded, rho is its inverse");
  vc::check(o.lbfgs_damping_count_ > 0 || vc::eq(last.y.at(0), y), "undamped, y is the change of the gradient");
  vc::check(o.lbfgs_damping_count_ == 0 || (damp && s * y <= minc), "damping only where the curvature is too small");
}
GOAL(lbfgs_no_history) {
  double g = vc::any_double("g"), cap = vc::any_double("cap");
  LBFGSParams p; p.max_direction_norm = cap;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  double d = o.ComputeLBFGSSearchDirection_(W::of(g), p).at(0);
  if (cap > 0) vc::check(vc::le(d * d, cap * cap), "the direction is limited");
  vc::check(vc::le(d * g, 0), "a descent direction");
  if (!(cap > 0) || g * g <= cap * cap) vc::check(vc::eq(d, -g), "steepest descent");
}
GOAL(lbfgs_one_pair) {
  double g = vc::any_double("g"), s = vc::any_double("s"), y = vc::any_double("y"), cap = vc::any_double("cap"), minc = vc::any_double("minc");
  vc::require(minc >= 0 && s * y > minc && y * y > 1e-12);
  LBFGSParams p; p.max_direction_norm = cap; p.min_curvature = minc;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  Opt::LBFGSHistoryPair h; h.s = W::of(s); h.y = W::of(y); h.rho = 1.0 / (s * y);
  o.lbfgs_history_.push_back(h);
  double d = o.ComputeLBFGSSearchDirection_(W::of(g), p).at(0);
  double exact = -(s / y) * g;
  if (cap > 0) vc::check(vc::le(d * d, cap * cap), "the direction is limited");
  if (!(cap > 0) || exact * exact <= cap * cap) vc::check(vc::eq(d, exact), "in one dimension the secant step");
}
#ifdef VC_VERIFY
static double energy(const double *, double x) { return vc::uf("energy", x, 0.0); }
static double slope(const double *, double x) { return vc::uf("slope", x, 0.0); }
#else
static double energy(const double *k, double x) { return k[0] * x + k[1] * x * x + k[2] * std::cos(3 * x); }
static double slope(const double *k, double x) { return k[0] + 2 * k[1] * x - 3 * k[2] * std::sin(3 * x); }
#endif
BGOAL(strong_wolfe) {
  double k[3] = {vc::any_double("k0"), vc::any_double("k1"), vc::any_double("k2")};
  double x = vc::any_double("x"), d = vc::any_double("d"), lr = vc::any_double("lr"), c1 = vc::any_double("c1"), c2 = vc::any_double("c2");
  double lo = vc::any_double("lo"), hi = vc::any_double("hi"), tolg = vc::any_double("tolg"), tolc = vc::any_double("tolc");
  size_t evals = vc::any_size("evals", 1, 30);
  vc::require(0 < c1 && c1 < c2 && c2 < 1 && 0 < lo && lo <= hi && tolg >= 0 && tolc >= 0);
  LBFGSParams p; p.wolfe_c1 = c1; p.wolfe_c2 = c2; p.min_step = lo; p.max_step = hi; p.tolerance_grad = tolg; p.tolerance_change = tolc; p.max_eval = evals;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  const double *kp = k;
  double e0 = energy(kp, x), s0 = slope(kp, x) * d;
  std::function<std::tuple<double, W, double>(const W &)> f = [kp](const W &w) { return std::tuple<double, W, double>(energy(kp, w.at(0)), W::of(slope(kp, w.at(0))), 0.0); };
  auto r = o.StrongWolfeLBFGSStep_(W::of(x), W::of(d), f, lr, p, e0, s0);
  double a = std::get<2>(r), y = std::get<1>(r).at(0);
  if (std::get<0>(r) == Opt::WolfeStepStatus::kFailed) { vc::check(a == 0.0 && y == x, "a failed search stays"); return; }
  vc::check(s0 < 0, "only a descent direction is followed");
  vc::check(vc::eq(y, x + a * d), "the state is the step taken");
  vc::check(vc::le(energy(kp, y), e0 + c1 * a * s0), "sufficient decrease");
  double t = slope(kp, y) * d;
  vc::check(vc::le(t < 0 ? -t : t, -c2 * s0) || vc::le(t < 0 ? -t : t, tolg), "curvature");
}
GOAL(stopping) {
  double e = vc::any_double("e"), before = vc::any_double("before"), g = vc::any_double("g"), te = vc::any_double("te"), tg = vc::any_double("tg");
  size_t idle = vc::any_size("idle", 0, 1000), patience = vc::any_size("patience", 0, 1000);
  OptimizerParams::BaseParams b(10, te, tg, patience, 0.1);
  Opt o(OptimizerParams(b, SGDParams()), MPI_COMM_SELF, 0, 1);
  bool want = g < tg || (e - before < te && before - e < te) || idle >= patience;
  vc::check(o.ShouldStop(e, before, g, idle) == want, "the stopping rule");
}
GOAL(snapshot) {
  double x = vc::any_double("x"), g = vc::any_double("g"), y = vc::any_double("y"), h = vc::any_double("h"); bool has = vc::any_bool("has"), saved = vc::any_bool("saved");
  size_t n = vc::any_size("n", 0, 20), extra = vc::any_size("extra", 0, 20);
  Opt o(OptimizerParams(base(), LBFGSParams()), MPI_COMM_SELF, 0, 1);
  for (size_t k = 0; k < n; k++) { Opt::LBFGSHistoryPair q; q.rho = (double) k; o.lbfgs_history_.push_back(q); }
  o.lbfgs_has_anchor_ = has; o.lbfgs_anchor_state_ = W::of(x); o.lbfgs_anchor_gradient_ = W::of(g);
  if (saved) o.SaveLBFGSSnapshot_();
  for (size_t k = 0; k < extra; k++) { Opt::LBFGSHistoryPair q; q.rho = -1.0; o.lbfgs_history_.push_back(q); }
  o.lbfgs_has_anchor_ = !has; o.lbfgs_anchor_state_ = W::of(y); o.lbfgs_anchor_gradient_ = W::of(h);
  o.RestoreLBFGSSnapshot_();
  if (!saved) { vc::check(o.lbfgs_history_.size() == 0 && !o.lbfgs_has_anchor_, "nothing to restore: a fresh start"); return; }
  vc::check(o.lbfgs_history_.size() == n && o.lbfgs_has_anchor_ == has, "restored");
  vc::check(o.lbfgs_anchor_state_.at(0) == x && o.lbfgs_anchor_gradient_.at(0) == g, "restored anchor");
  vc::each(n, [&](size_t k) { vc::check(o.lbfgs_history_[k].rho == (double) k, "restored pairs"); });
}
GOAL(clear_up) {
  double x = vc::any_double("x"); size_t n = vc::any_size("n", 0, 20), t = vc::any_size("t", 0, 1000); bool lb = vc::any_bool("lb");
  Opt o(lb ? OptimizerParams(base(), LBFGSParams()) : OptimizerParams(base(), AdamParams()), MPI_COMM_SELF, 0, 1);
  o.velocity_ = W::of(x); o.sgd_momentum_initialized_ = true; o.accumulated_gradients_ = W::of(x); o.adagrad_initialized_ = true;
  o.first_moment_ = W::of(x); o.second_moment_ = W::of(x); o.adam_timestep_ = t; o.adam_initialized_ = true; o.has_prev_state_ = true; o.prev_energy_ = x;
  o.ema_energy_.Update(x); o.ema_error_.Update(x); o.ema_grad_norm_.Update(x); o.ema_ngrad_norm_.Update(x);
  if (lb) { for (size_t k = 0; k < n; k++) { Opt::LBFGSHistoryPair q; o.lbfgs_history_.push_back(q); } o.lbfgs_has_anchor_ = true; }
  o.ClearUp();
  vc::check(!o.sgd_momentum_initialized_ && !o.adagrad_initialized_ && !o.adam_initialized_ && o.adam_timestep_ == 0, "no algorithm state is left");
  vc::check(o.lbfgs_history_.empty() && !o.lbfgs_has_anchor_, "no curvature history is left");
  vc::check(!o.ema_energy_.IsInitialized() && !o.ema_error_.IsInitialized() && !o.ema_grad_norm_.IsInitialized() && !o.ema_ngrad_norm_.IsInitialized(), "no averages are left");
  vc::check(!o.has_prev_state_ && o.prev_energy_ == 0.0, "no rollback state is left");
}
#ifndef VC_VERIFY
typedef std::complex<double> Cx;
static W randw(const char *n, size_t r, size_t c, size_t d) { W w(r, c, d); auto v = vc::any_doubles(n, r * c * d); for (size_t k = 0; k < v.size(); k++) w.at(k) = v[k]; return w; }
typedef SplitIndexTPS<Cx, VcQN> WC;
static WC randc(const char *n, size_t r, size_t c, size_t d) { WC w(r, c, d); auto v = vc::any_doubles(n, 2 * r * c * d); for (size_t k = 0; k < w.size(); k++) w.at(k) = Cx(v[2 * k], v[2 * k + 1]); return w; }
static double unit(double x) { return std::fabs(x) / (1 + std::fabs(x)); }
#endif
// every component of a lattice of tensors, several steps, real and complex
BGOAL(trajectories) {
#ifndef VC_VERIFY
  size_t r = vc::any_size("r", 1, 3), c = vc::any_size("c", 1, 3), d = vc::any_size("d", 1, 3), steps = vc::any_size("steps", 1, 6); long alg = vc::any_int("alg", 0, 2);
  double lr = vc::any_double("lr"), b1 = unit(vc::any_double("b1")), b2 = unit(vc::any_double("b2")), eps = 1e-8, wd = unit(vc::any_double("wd")), init = unit(vc::any_double("init")); bool nest = vc::any_bool("nest");
  if (vc::any_bool("real")) {
    W x = randw("x", r, c, d), m(r, c, d), v(r, c, d), want = x;
    Opt o(OptimizerParams(base(), AdaGradParams(eps, init)), MPI_COMM_SELF, 0, 1);
    for (size_t k = 0; k < want.size(); k++) if (alg == 1) v.at(k) = init;
    for (size_t t = 1; t <= steps; t++) {
      W g = randw("g", r, c, d);
      x = alg == 0 ? o.SGDUpdate(x, g, lr, SGDParams(b1, nest, wd)) : alg == 1 ? o.AdaGradUpdate(x, g, lr) : o.AdamUpdate(x, g, lr, AdamParams(b1, b2, eps, wd));
      for (size_t k = 0; k < x.size(); k++) {
        double q = g.at(k);
        if (alg == 0) { m.at(k) = b1 * m.at(k) + q; want.at(k) = (1 - lr * wd) * want.at(k) - lr * (b1 > 0 ? (nest ? b1 * m.at(k) + q : m.at(k)) : q); }
        else if (alg == 1) { v.at(k) += q * q; double s = std::sqrt(v.at(k)); if (s > eps) want.at(k) -= lr * q / s; }
        else { m.at(k) = b1 * m.at(k) + (1 - b1) * q; v.at(k) = b2 * v.at(k) + (1 - b2) * q * q; double s = std::sqrt(v.at(k) / (1 - std::pow(b2, t))); want.at(k) *= 1 - lr * wd; if (s > eps) want.at(k) -= lr * m.at(k) / (1 - std::pow(b1, t)) / s; }
        vc::check(std::fabs(x.at(k) - want.at(k)) <= 1e-7 * (1 + std::fabs(want.at(k))), "real trajectory");
      }
    }
  } else {
    WC x = randc("x", r, c, d), m(r, c, d), v(r, c, d), want = x; typedef Optimizer<Cx, VcQN> OC;
    OC o(OptimizerParams(base(), AdaGradParams(eps, init)), MPI_COMM_SELF, 0, 1);
    for (size_t k = 0; k < want.size(); k++) if (alg == 1) v.at(k) = init;
    for (size_t t = 1; t <= steps; t++) {
      WC g = randc("g", r, c, d);
      x = alg == 0 ? o.SGDUpdate(x, g, lr, SGDParams(b1, nest, wd)) : alg == 1 ? o.AdaGradUpdate(x, g, lr) : o.AdamUpdate(x, g, lr, AdamParams(b1, b2, eps, wd));
      for (size_t k = 0; k < x.size(); k++) {
        Cx q = g.at(k);
        if (alg == 0) { m.at(k) = b1 * m.at(k) + q; want.at(k) = (1 - lr * wd) * want.at(k) - lr * (b1 > 0 ? (nest ? b1 * m.at(k) + q : m.at(k)) : q); }
        else if (alg == 1) { v.at(k) += std::norm(q); double s = std::sqrt(v.at(k).real()); if (s > eps) want.at(k) -= lr * q / s; }
        else { m.at(k) = b1 * m.at(k) + (1 - b1) * q; v.at(k) = b2 * v.at(k) + (1 - b2) * std::norm(q); double s = std::sqrt(v.at(k).real() / (1 - std::pow(b2, t))); want.at(k) *= 1 - lr * wd; if (s > eps) want.at(k) -= lr * m.at(k) / (1 - std::pow(b1, t)) / s; }
        vc::check(std::abs(x.at(k) - want.at(k)) <= 1e-7 * (1 + std::abs(want.at(k))), "complex trajectory");
      }
    }
  }
#endif
}
// the L-BFGS direction is -H g with the inverse Hessian estimate of the recorded pairs
BGOAL(lbfgs_direction) {
#ifndef VC_VERIFY
  size_t n = vc::any_size("n", 1, 4), pairs = vc::any_size("pairs", 0, 5); double cap = vc::any_double("cap");
  LBFGSParams p; p.max_direction_norm = cap; p.min_curvature = 1e-6;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  std::vector<W> S, Y;
  for (size_t k = 0; k < pairs; k++) {
    W s = randw("s", 1, 1, n), y = randw("y", 1, 1, n); double c = s * y;
    if (c <= 1e-2 || y * y < 1e-3 || y * y > 1e4 || s * s > 1e4) continue;
    Opt::LBFGSHistoryPair h; h.s = s; h.y = y; h.rho = 1.0 / c; o.lbfgs_history_.push_back(h); S.push_back(s); Y.push_back(y);
  }
  W g = randw("g", 1, 1, n); vc::require(g * g < 1e6);
  // H as a matrix: H0 = gamma I, H <- (I - rho s y^T) H (I - rho y s^T) + rho s s^T, oldest pair first
  std::vector<double> H(n * n, 0.0); double gamma = S.empty() ? 1.0 : (S.back() * Y.back()) / (Y.back() * Y.back());
  for (size_t i = 0; i < n; i++) H[i * n + i] = gamma;
  for (size_t k = 0; k < S.size(); k++) {
    double rho = 1.0 / (S[k] * Y[k]); std::vector<double> A(n * n), B(n * n, 0.0), C(n * n, 0.0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) A[i * n + j] = (i == j) - rho * S[k].at(i) * Y[k].at(j);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < n; l++) B[i * n + j] += A[i * n + l] * H[l * n + j];
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < n; l++) C[i * n + j] += B[i * n + l] * A[j * n + l];
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) H[i * n + j] = C[i * n + j] + rho * S[k].at(i) * S[k].at(j);
  }
  std::vector<double> want(n, 0.0); double norm = 0;
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) want[i] -= H[i * n + j] * g.at(j); norm += want[i] * want[i]; }
  norm = std::sqrt(norm); double f = cap > 0 && norm > cap ? cap / norm : 1.0; double hn = 0; for (double q : H) hn += std::fabs(q);
  vc::require(hn < 1e6);
  W got = o.ComputeLBFGSSearchDirection_(g, p);
  for (size_t i = 0; i < n; i++) vc::check(std::fabs(got.at(i) - f * want[i]) <= 1e-8 * (1 + hn) * (1 + std::sqrt(g * g)) * f + 1e-8, "the two-loop recursion");
#endif
}
// in one dimension after two steps the search direction obeys the secant equation of the newest pair
BGOAL(lbfgs_history) {
#ifndef VC_VERIFY
  size_t n = vc::any_size("n", 1, 3), cap = vc::any_size("cap", 1, 4), steps = vc::any_size("steps", 1, 8); double minc = unit(vc::any_double("minc")); bool damp = vc::any_bool("damp");
  LBFGSParams p; p.history_size = cap; p.min_curvature = minc; p.use_damping = damp;
  Opt o(OptimizerParams(base(), p), MPI_COMM_SELF, 0, 1);
  std::vector<std::pair<W, W>> want;
  W x0 = randw("x", 1, 1, n), g0 = randw("g", 1, 1, n);
  for (size_t t = 0; t < steps; t++) {
    o.lbfgs_anchor_state_ = x0; o.lbfgs_anchor_gradient_ = g0; o.lbfgs_has_anchor_ = true;
    W x1 = randw("x", 1, 1, n), g1 = randw("g", 1, 1, n); size_t dc = o.lbfgs_damping_count_;
    o.UpdateLBFGSHistoryFromAnchor_(x1, g1, p);
    W s = x1 - x0, y = g1 - g0; double c = s * y;
    if (c > minc) { want.push_back({s, y}); vc::check(o.lbfgs_damping_count_ == dc, "no damping of a good pair"); }
    else if (damp && o.lbfgs_damping_count_ > dc) { W y2 = y + ((minc - c + 1e-15) / (y * y)) * s; if (s * y2 > minc) want.push_back({s, y2}); }
    while (want.size() > cap) want.erase(want.begin());
    vc::check(o.lbfgs_history_.size() == want.size(), "the newest pairs, at most the capacity");
    for (size_t k = 0; k < want.size(); k++) {
      W es = o.lbfgs_history_[k].s - want[k].first, ey = o.lbfgs_history_[k].y - want[k].second;
      vc::check(es * es <= 1e-16 * (1 + want[k].first * want[k].first) && ey * ey <= 1e-12 * (1 + want[k].second * want[k].second), "oldest first");
      vc::check(vc::close(o.lbfgs_history_[k].rho * (o.lbfgs_history_[k].s * o.lbfgs_history_[k].y), 1.0), "rho");
    }
    x0 = x1; g0 = g1;
  }
#endif
}
// the stopping decision is the master's on every process
BGOAL(stop_together) {
#ifndef VC_VERIFY
  double e = vc::any_double("e"), before = vc::any_double("before"), g = vc::any_double("g"); size_t idle = vc::any_size("idle", 0, 6); long np = vc::any_int("np", 2, 4);
  OptimizerParams::BaseParams b(10, 0.1, 0.1, 5, 0.1); bool want = g < 0.1 || std::fabs(e - before) < 0.1 || idle >= 5; std::vector<int> got(np, -1);
  bool ok = vc_processes((int) np, [&](int r) { Opt o(OptimizerParams(b, SGDParams()), MPI_COMM_WORLD, r, (int) np); got[r] = r == 0 ? o.ShouldStop(e, before, g, idle) : o.ShouldStop(e + 1.0 * r, before, g + r, idle + r); });
  vc::check(ok, "all processes return");
  for (long r = 0; r < np; r++) vc::check(got[r] == (int) want, "the master's decision");
#endif
}
#include "vc_main.h"
