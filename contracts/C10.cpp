// C10: ObservableMatrix is a bounds-checked row-major table.
#include "vc.h"
#include <stdexcept>
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;
typedef ObservableMatrix<double> OM;
static const size_t N = 10000, BIG = 1000000000;

GOAL(construct) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N); double v = vc::any_double("v");
  vc::require(i < r && j < c && r * c <= 20000);
  OM m(r, c, v);
  const OM &cm = m;
  vc::check(m.rows() == r && m.cols() == c && m.size() == r * c, "construction: shape");
  vc::check(cm(i, j) == v && m(i, j) == v, "construction: every entry has the initial value");
  OM z(r, c);
  vc::check(z(i, j) == 0.0, "construction: entries are zero by default");
  OM d;
  vc::check(d.rows() == 0 && d.cols() == 0 && d.size() == 0 && d.Flatten().empty(), "construction: a default matrix is empty");
}
GOAL(write_read_frame) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N);
  double v = vc::any_double("v"), w = vc::any_double("w"), d = vc::any_double("d");
  vc::require(i < r && j < c && k < r && l < c && (i != k || j != l) && r * c <= 20000);
  OM m(r, c, v);
  const OM &cm = m;
  m(i, j) = w;
  vc::check(cm(i, j) == w, "write: read back");
  vc::check(cm(k, l) == v, "write: no other entry changes");
  vc::check(m.Flatten()[i * c + j] == w && m.Flatten()[k * c + l] == v, "Flatten: entry (i,j) is at i*cols+j");
  m.Add(i, j, d);
  vc::check(vc::eq(cm(i, j), w + d), "Add: adds to the entry");
  vc::check(cm(k, l) == v, "Add: no other entry changes");
  vc::check(m.rows() == r && m.cols() == c && m.size() == r * c, "writes keep the shape");
}
GOAL(site_access) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N);
  double v = vc::any_double("v"), w = vc::any_double("w"), d = vc::any_double("d");
  vc::require(i < r && j < c && k < r && l < c && (i != k || j != l) && r * c <= 20000);
  OM m(r, c, v);
  const OM &cm = m;
  SiteIdx s; s.row() = i; s.col() = j;
  const SiteIdx &cs = s;
  vc::check(cs.row() == i && cs.col() == j && s[0] == i && s[1] == j, "SiteIdx: row then column");
  m(s) = w;
  vc::check(&m(s) == &m(i, j) && &cm(s) == &cm(i, j), "site access: the entry at (row, col)");
  vc::check(cm(s) == w && cm(i, j) == w && cm(k, l) == v, "site access: writes that entry only");
  m.Add(s, d);
  vc::check(vc::eq(cm(i, j), w + d) && cm(k, l) == v, "site Add: adds to that entry only");
}
GOAL(out_of_range_refused) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, BIG), j = vc::any_size("j", 0, BIG), q = vc::any_size("q", 0, BIG);
  double v = vc::any_double("v"), d = vc::any_double("d");
  vc::require((i >= r || j >= c) && r * c <= 20000);
  OM m(r, c, v);
  const OM &cm = m;
  SiteIdx s; s.row() = i; s.col() = j;
  vc::check(vc::throws([&] { m(i, j) = d; }), "write out of range: refused");
  vc::check(vc::throws([&] { double t = cm(i, j); (void) t; }), "read out of range: refused");
  vc::check(vc::throws([&] { m(s) = d; }) && vc::throws([&] { double t = cm(s); (void) t; }), "site access out of range: refused");
  vc::check(vc::throws([&] { m.Add(i, j, d); }) && vc::throws([&] { m.Add(s, d); }), "Add out of range: refused");
  vc::check(m.size() == r * c && m.rows() == r && m.cols() == c, "a refused access changes no shape");
  if (q < r * c) vc::check(m.Flatten()[q] == v, "a refused access changes no entry");
}
GOAL(resize) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), r2 = vc::any_size("r2", 0, N), c2 = vc::any_size("c2", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  double v = vc::any_double("v"), w = vc::any_double("w");
  vc::require(i < r2 && j < c2 && r * c <= 20000 && r2 * c2 <= 20000);
  OM m(r, c, v);
  if (r > 0 && c > 0) m(r - 1, c - 1) = w;
  m.Resize(r2, c2, v);
  vc::check(m.rows() == r2 && m.cols() == c2 && m.size() == r2 * c2, "Resize: new shape");
  vc::check(m(i, j) == v, "Resize: every entry has the given value, nothing survives");
  m(i, j) = w;
  m.Resize(r2, c2);
  vc::check(m(i, j) == 0.0, "Resize: zero by default");
}
GOAL(extract) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N);
  double v = vc::any_double("v"), w = vc::any_double("w");
  vc::require(i < r && j < c && k < r && l < c && (i != k || j != l) && r * c <= 20000);
  OM m(r, c, v);
  m(i, j) = w;
  OM n(m);
  std::vector<double> d = m.Extract();
  vc::check(d.size() == r * c && d[i * c + j] == w && d[k * c + l] == v, "Extract: the row-major data");
  vc::check(vc::throws([&] { double t = m(i, j); (void) t; }), "Extract: the emptied matrix refuses access");
  vc::check(n.size() == r * c && n(i, j) == w && n(k, l) == v, "Extract: a copy keeps its data");
}
#include "vc_main.h"
