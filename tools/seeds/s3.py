ST="include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
H = '#include <cstdio>\n#include <vector>\n#include <cassert>\n#include <algorithm>\n#include "%s"\nusing namespace qlpeps; using std::vector;\nstruct G { typedef unsigned result_type; unsigned v; static constexpr unsigned min(){return 0;} static constexpr unsigned max(){return 0xffffffffu;} unsigned operator()(){ return v; } };\n' % ST[8:]
S = [
 dict(id="b13", property="C07", needs="the largest weight at an index other than 0 and the current state being state 0, whose weight is zero-shifted onto the maximum",
  breaks="the current state 0 is not relabelled when the largest weight sits elsewhere and equals the weight of state 0 plus others: the shifted interval of the wrong state is used",
  edits=[(ST, "  } else if (init_state == 0) {\n    init_state = max_weight_id;\n  }", "  } else if (init_state == 0 && max_weight_id + 1 < n) {\n    init_state = max_weight_id;\n  }")],
  demo=H + 'int main(){ G g{0x80000000u}; size_t j=SuwaTodoStateUpdate(0, vector<double>{1,1,3}, g); /* ring 3,1,1; state 0 sits at 4..5 -> shifted to 2..3 -> state 2 */ size_t k=SuwaTodoStateUpdate(0, vector<double>{1,2,3}, g); return j==2 && k==2 ? 0 : 1; }\n'),
 dict(id="b14", property="C07", needs="a draw that lands exactly on the total weight (e.g. weights 2,1, state 0, draw 1/2)",
  breaks="the wrap-around test is strict, so the point S is not folded back and an index past the last state is returned",
  edits=[(ST, "if (x >= S) x -= S;", "if (x > S) x -= S;")],
  demo=H + 'struct A { typedef unsigned result_type; unsigned v; static constexpr unsigned min(){return 0;} static constexpr unsigned max(){return 0xffffffffu;} unsigned operator()(){ unsigned r=v; v=0x80000000u-v; return r; } };\nint main(){ A g{0}; size_t j=SuwaTodoStateUpdate(0, vector<double>{2,1}, g); return j==0 ? 0 : 1; }\n'),
]
