// C02: PlateauLR follows its state machine over every history of energies.
#include "vc.h"
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;

// the documented machine, on ghost state
struct Machine {
  double lr, factor, threshold;
  size_t patience;
  bool seen = false;      // an energy has been recorded as the reference
  double best = 0;
  size_t bad = 0;
  void step(double e) {
    if (!seen || e < best - threshold) { seen = true; best = e; bad = 0; return; }
    bad += 1;
    if (bad >= patience) { lr *= factor; bad = 0; best = e; }
  }
};
GOAL(plateau_history) {
  double lr = vc::any_double("lr"), factor = vc::any_double("factor"), thr = vc::any_double("thr");
  vc::require(thr >= 0 && thr <= 1000000.0);
  size_t patience = vc::any_size("patience", 0, 1000000), n = vc::any_size("n", 0, 1000000);
  std::vector<double> e = vc::any_doubles("e", n);
  std::vector<size_t> it = vc::any_sizes("it", n, 0, 1000000);
  PlateauLR s(lr, factor, patience, thr);
  Machine m{lr, factor, thr, patience};
  for (size_t k = 0; k < n; k++) {
    double got = s.GetLearningRate(it[k], e[k]);
    m.step(e[k]);
    vc::check(vc::eq(got, m.lr), "PlateauLR: rate after every energy of the history");
  }
}
GOAL(plateau_defaults) {
  double lr = vc::any_double("lr");
  size_t n = vc::any_size("n", 0, 1000000);
  std::vector<double> e = vc::any_doubles("e", n);
  PlateauLR s(lr);
  Machine m{lr, 0.5, 1e-4, 10};
  for (size_t k = 0; k < n; k++) {
    double got = s.GetLearningRate(k, e[k]);
    m.step(e[k]);
    vc::check(vc::eq(got, m.lr), "PlateauLR defaults: factor 0.5, patience 10, threshold 1e-4");
  }
}
GOAL(plateau_monotone) {
  double lr = vc::any_double("lr"), factor = vc::any_double("factor"), thr = vc::any_double("thr");
  vc::require(lr > 0 && factor > 0 && factor <= 1 && thr >= 0 && thr <= 1000000.0);
  size_t patience = vc::any_size("patience", 1, 1000000), n = vc::any_size("n", 0, 1000000);
  std::vector<double> e = vc::any_doubles("e", n);
  PlateauLR s(lr, factor, patience, thr);
  double prev = lr;
  for (size_t k = 0; k < n; k++) {
    double got = s.GetLearningRate(k, e[k]);
    vc::check(got <= prev && got >= 0, "PlateauLR: the rate never increases");
    prev = got;
  }
}
GOAL(plateau_clone_midway) {
  double lr = vc::any_double("lr"), factor = vc::any_double("factor"), thr = vc::any_double("thr");
  vc::require(thr >= 0 && thr <= 1000000.0);
  size_t patience = vc::any_size("patience", 0, 1000000), n = vc::any_size("n", 0, 1000000), m = vc::any_size("m", 0, 1000000);
  std::vector<double> e = vc::any_doubles("e", n), f = vc::any_doubles("f", m);
  PlateauLR s(lr, factor, patience, thr);
  for (size_t k = 0; k < n; k++) s.GetLearningRate(k, e[k]);
  auto c = s.Clone();
  for (size_t k = 0; k < m; k++) {
    double a = s.GetLearningRate(k, f[k]);
    double b = c->GetLearningRate(k, f[k]);
    vc::check(vc::eq(a, b), "PlateauLR: a clone taken at any point continues identically");
  }
}
#include "vc_main.h"
