D="include/qlpeps/two_dim_tn/framework/duomatrix.h"; OMX="include/qlpeps/utility/observable_matrix.h"; PSI="include/qlpeps/algorithm/vmc_update/psi_consistency.h"
O = "include/qlpeps/optimizer/optimizer_params.h"
H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <complex>\n#include <stdexcept>\nusing namespace std;\n'
DM = H + '#include <cassert>\n#include "qlpeps/two_dim_tn/framework/duomatrix.h"\nusing namespace qlpeps;\n'
S = [
 dict(id="b06", property="C08", needs="copy-assignment over a matrix of the same shape whose target cell is allocated where the source cell is not",
  breaks="assignment between equal shapes copies element values and keeps target elements the source does not have",
  edits=[(D, "    assert(this != &rhs);\n", "    assert(this != &rhs);\n    if (rows() == rhs.rows() && cols() == rhs.cols()) {\n      for (size_t i = 0; i < rows(); ++i) {\n        for (size_t j = 0; j < cols(); ++j) {\n          if (rhs(i, j) != nullptr) {\n            (*this)({i, j}) = *rhs(i, j);\n          }\n        }\n      }\n      return *this;\n    }\n")],
  demo=DM + 'int main(){ DuoMatrix<double> a(2,2), b(2,2); a({0,0})=1; a({1,1})=2; b({0,0})=5; a=b; return a(1,1)==nullptr?0:1; }\n'),
 dict(id="b07", property="C08", needs="move-assigning over a matrix that holds elements, wider than the number of its rows",
  breaks="move assignment deletes only the leading square block of the old elements (a leak otherwise)",
  edits=[(D, "noexcept {\n    for (auto &row : raw_data_) {\n      for (auto &elem : row) {\n        if (elem != nullptr) {\n          delete elem;\n        }\n      }\n    }\n\n    raw_data_ = std::move(rhs.raw_data_);", "noexcept {\n    for (size_t i = 0; i < rows(); ++i) {\n      for (size_t j = 0; j < rows() && j < cols(); ++j) {\n        dealloc(i, j);\n      }\n    }\n    raw_data_ = std::move(rhs.raw_data_);")],
  demo=DM + 'static int alive=0; struct X{ X(){alive++;} X(const X&){alive++;} ~X(){alive--;} };\nint main(){ { DuoMatrix<X> a(2,4), b(2,4); a.alloc(1,3); a.alloc(0,1); a=std::move(b); } return alive==0?0:1; }\n'),
 dict(id="b08", property="C09", needs="comparing iterators at two different cells of a matrix with fewer rows than columns",
  breaks="iterator equality compares a flattened position computed with the wrong stride, so different cells can compare equal",
  edits=[(D, "(&matrix_ == &other.matrix_) && (row_ == other.row_) && (col_ == other.col_);\n    }\n\n    // Inequality operator\n    bool operator!=(const Iterator", "(&matrix_ == &other.matrix_) && (row_ * matrix_.rows() + col_ == other.row_ * matrix_.rows() + other.col_);\n    }\n\n    // Inequality operator\n    bool operator!=(const Iterator")],
  demo=DM + 'int main(){ DuoMatrix<double> a(2,5); auto i=a.begin(), j=a.begin(); ++i; ++i; for(int k=0;k<5;k++) ++j; return i==j?1:0; }\n'),
 dict(id="b09", property="C10", needs="an out-of-range column in a row that is not the last one",
  breaks="an out-of-range column aliases an entry of the next row instead of being refused",
  edits=[(OMX, "    if (row >= rows_ || col >= cols_) {", "    if (row >= rows_ || row * cols_ + col >= data_.size()) {")],
  demo=H + '#include "qlpeps/utility/observable_matrix.h"\nusing namespace qlpeps;\nint main(){ ObservableMatrix<double> m(3,2,0.0); try{ m(0,2)=1; }catch(const std::out_of_range&){ return 0; } return 1; }\n'),
 dict(id="b10", property="C11", needs="a list whose first two amplitudes tie in magnitude with opposite signs",
  breaks="ties of the largest magnitude pick the last instead of the first amplitude as the sign reference",
  edits=[(PSI, "    if (mag > ref_abs) {", "    if (mag >= ref_abs) {")],
  demo=H + '#include "qlpeps/algorithm/vmc_update/psi_consistency.h"\nusing namespace qlpeps;\nint main(){ auto s=ComputePsiConsistencySummaryAligned(std::vector<double>{2.0,-1.0,-2.0}); return s.psi_mean>0?0:1; }\n'),
 dict(id="b11", property="C11", needs="complex amplitudes in quadrature with the reference whose overlap has the sign of the imaginary parts only",
  breaks="the overlap forgets the conjugation, so phases are aligned by Re(psi*ref)",
  edits=[(PSI, "psi_val * conj(psi_ref)", "psi_val * psi_ref")],
  demo=H + '#include "qlpeps/algorithm/vmc_update/psi_consistency.h"\nusing namespace qlpeps;\nint main(){ typedef complex<double> C; auto s=ComputePsiConsistencySummaryAligned(std::vector<C>{C(0,2),C(0,2)}); return s.psi_rel_err<1e-12 && abs(s.psi_mean-C(0,2))<1e-12?0:1; }\n'),
 dict(id="b12", property="C04", needs="setting the maximum number of iterations, to a value below the plateau patience, after another base setting",
  breaks="SetMaxIterations also lowers the plateau patience",
  edits=[(O, "      base_params_->max_iterations = max_iter;\n", "      base_params_->max_iterations = max_iter;\n      base_params_->plateau_patience = std::min(base_params_->plateau_patience, max_iter);\n")],
  demo=H + '#include "qlpeps/optimizer/optimizer_params.h"\nusing namespace qlpeps;\nint main(){ OptimizerParamsBuilder b; b.SetPlateauPatience(30).SetMaxIterations(10).WithSGD(); auto p=b.Build(); return p.base_params.plateau_patience==30?0:1; }\n'),
]
