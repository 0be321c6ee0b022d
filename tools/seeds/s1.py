H = '#include <cstdio>\n#include <cmath>\n#include "qlpeps/optimizer/optimizer_params.h"\nusing namespace qlpeps;\n'
L = "include/qlpeps/optimizer/lr_schedulers.h"; O = "include/qlpeps/optimizer/optimizer_params.h"; E = "include/qlpeps/optimizer/spike_detection.h"
S = [
 dict(id="b01", property="C01", needs="an iteration exactly equal to a milestone that occurs twice in the list",
  breaks="MultiStepLR counts distinct crossing points only when milestones repeat",
  edits=[(L, "    std::sort(milestones_.begin(), milestones_.end());\n", "    std::sort(milestones_.begin(), milestones_.end());\n    milestones_.erase(std::unique(milestones_.begin(), milestones_.end()), milestones_.end());\n")],
  demo=H + 'int main(){ MultiStepLR s(1.0,{5,3,5},0.5); return std::fabs(s.GetLearningRate(7,0)-0.125)<1e-15?0:1; }\n'),
 dict(id="b02", property="C02", needs="an improvement that arrives after at least one but fewer than patience bad steps, followed by more bad steps",
  breaks="an improvement no longer restarts the count of bad steps, it only decrements it",
  edits=[(L, "      best_energy_ = current_energy;\n      patience_counter_ = 0;\n    } else {", "      best_energy_ = current_energy;\n      if (patience_counter_ > 0) { --patience_counter_; }\n    } else {")],
  demo=H + 'int main(){ PlateauLR s(1.0,0.5,3,0.1); double e[]={0,0,0,-1,-1,-1}; double r=1; for(int i=0;i<6;i++) r=s.GetLearningRate(i,e[i]); return r==1.0?0:1; }\n'),
 dict(id="b03", property="C03", needs="cloning a plateau schedule after bad steps have accumulated",
  breaks="the clone of a plateau schedule forgets how many bad steps were seen",
  edits=[(L, "    clone->patience_counter_ = patience_counter_;\n", "    clone->patience_counter_ = std::min<size_t>(patience_counter_, 1);\n")],
  demo=H + 'int main(){ PlateauLR s(1.0,0.5,4,0.1); for(int i=0;i<4;i++) s.GetLearningRate(i,0); auto c=s.Clone(); return s.GetLearningRate(5,0)==c->GetLearningRate(5,0)?0:1; }\n'),
 dict(id="b04", property="C05", needs="a series with at least two distinct observations after initialisation whose deviations differ in sign pattern; only the variance is affected",
  breaks="the variance recursion uses the deviation from the already updated mean for small deviations",
  edits=[(E, "    double delta = x - ema_;\n    ema_ += alpha_ * delta;\n", "    double delta = x - ema_;\n    ema_ += alpha_ * delta;\n    if (delta * delta < var_) { delta = x - ema_; }\n")],
  demo=H + '#include "qlpeps/optimizer/spike_detection.h"\nint main(){ EMATracker t(9); double x[]={1,5,3,3.1,2.9,4}; double a=0.2,m=1,v=0; t.Update(1); for(int i=1;i<6;i++){ t.Update(x[i]); double d=x[i]-m; m+=a*d; v=(1-a)*(v+a*d*d);} return std::fabs(t.Var()-v)<1e-12?0:1; }\n'),
 dict(id="b05", property="C03", needs="assigning a parameter set without a schedule over one that has one",
  breaks="assignment keeps the old learning-rate schedule when the source has none",
  edits=[(O, "        lr_scheduler = other.lr_scheduler ? other.lr_scheduler->Clone() : nullptr;\n        clip_value", "        if (other.lr_scheduler) { lr_scheduler = other.lr_scheduler->Clone(); }\n        clip_value")],
  demo=H + 'int main(){ OptimizerParams::BaseParams a(5,1,1,1,0.1), b(5,1,1,1,0.1); a.lr_scheduler=std::make_unique<ConstantLR>(3.0); a=b; return a.lr_scheduler?1:0; }\n'),
]
