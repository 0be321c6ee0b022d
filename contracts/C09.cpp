// C09: traversals and views of a DuoMatrix show exactly its cells: iteration visits every cell once, in row-major order, and
// rows, columns, slices and the read-only table point at the elements of the matrix.
#include "vc.h"
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
using namespace qlpeps;
typedef DuoMatrix<double> DM;
static const size_t N = 10000;

static void fill(DM &m, const std::vector<std::vector<int>> &p, const std::vector<std::vector<double>> &x) {
  for (size_t i = 0; i < m.rows(); i++)
    for (size_t j = 0; j < m.cols(); j++)
      if (p[i][j] != 0) m({i, j}) = x[i][j];
}
#define KEPT_MATRIX(m, r, c, p, x) \
  size_t r = vc::any_size(#r, 1, N), c = vc::any_size(#c, 1, N); \
  std::vector<std::vector<int>> p = vc::any_itable(#p, r, c, 0, 1); \
  std::vector<std::vector<double>> x = vc::any_table(#x, r, c); \
  DM &m = *new DM(r, c); fill(m, p, x);

// one step from every position: with the start and the end below this gives every cell exactly once, row by row
GOAL(iterator_step) {
  size_t r = vc::any_size("r", 1, N), c = vc::any_size("c", 1, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  DM &m = *new DM(r, c);
  DM::Iterator it(m, i, j);
  vc::check(it != m.end() && !(it == m.end()), "Iterator: a cell is not the end");
  DM::Iterator was = it++;
  vc::check(was == DM::Iterator(m, i, j), "Iterator: postfix increment returns the old position");
  DM::Iterator jt(m, i, j);
  DM::Iterator &ref = ++jt;
  vc::check(&ref == &jt && jt == it, "Iterator: prefix and postfix increment move alike");
  if (j + 1 < c) vc::check(it == DM::Iterator(m, i, j + 1), "Iterator: next cell of the row");
  else if (i + 1 < r) vc::check(it == DM::Iterator(m, i + 1, 0), "Iterator: first cell of the next row");
  else vc::check(it == m.end() && !(it != m.end()), "Iterator: the last cell is followed by the end");
  vc::check(m.empty(), "Iterator: moving allocates nothing");
}
GOAL(iterator_ends) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N);
  DM &m = *new DM(r, c);
  const DM &cm = m;
  if (r > 0 && c > 0) {
    vc::check(m.begin() == DM::Iterator(m, 0, 0), "begin: the first cell");
    vc::check(cm.begin() == DM::ConstIterator(cm, 0, 0) && cm.cbegin() == cm.begin(), "const begin: the first cell");
  } else {
    vc::check(m.begin() == m.end(), "begin: the end when there is no cell");
    vc::check(cm.begin() == cm.end() && cm.cbegin() == cm.cend(), "const begin: the end when there is no cell");
  }
  vc::check(cm.cend() == cm.end(), "cend is end");
}
GOAL(const_iterator_step) {
  size_t r = vc::any_size("r", 1, N), c = vc::any_size("c", 1, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  const DM &m = *new DM(r, c);
  DM::ConstIterator it(m, i, j);
  vc::check(it != m.end() && !(it == m.end()), "ConstIterator: a cell is not the end");
  DM::ConstIterator was = it++;
  vc::check(was == DM::ConstIterator(m, i, j), "ConstIterator: postfix increment returns the old position");
  DM::ConstIterator jt(m, i, j);
  DM::ConstIterator &ref = ++jt;
  vc::check(&ref == &jt && jt == it, "ConstIterator: prefix and postfix increment move alike");
  if (j + 1 < c) vc::check(it == DM::ConstIterator(m, i, j + 1), "ConstIterator: next cell of the row");
  else if (i + 1 < r) vc::check(it == DM::ConstIterator(m, i + 1, 0), "ConstIterator: first cell of the next row");
  else vc::check(it == m.end() && it == m.cend() && !(it != m.end()), "ConstIterator: the last cell is followed by the end");
}
GOAL(iterator_position_identity) {
  size_t r = vc::any_size("r", 1, N), c = vc::any_size("c", 1, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N);
  vc::require(i < r && j < c && k < r && l < c);
  DM &m = *new DM(r, c), &n = *new DM(r, c);
  const DM &cm = m, &cn = n;
  vc::check((DM::Iterator(m, i, j) == DM::Iterator(m, k, l)) == (i == k && j == l), "Iterator: equal iff at the same cell");
  vc::check((DM::ConstIterator(cm, i, j) == DM::ConstIterator(cm, k, l)) == (i == k && j == l), "ConstIterator: equal iff at the same cell");
  vc::check(!(DM::Iterator(m, i, j) == DM::Iterator(n, i, j)) && DM::Iterator(m, i, j) != DM::Iterator(n, i, j), "Iterator: cells of different matrices differ");
  vc::check(!(DM::ConstIterator(cm, i, j) == DM::ConstIterator(cn, i, j)), "ConstIterator: cells of different matrices differ");
}
GOAL(iterator_dereference) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N); double z = vc::any_double("z");
  vc::require(i < r && j < c && k < r && l < c && (i != k || j != l) && p[k][l] != 0);
  const DM &cm = m;
  *DM::Iterator(m, i, j) = z;
  vc::check(cm(i, j) != nullptr && *cm(i, j) == z, "Iterator: refers to the element of its cell");
  vc::check(cm(k, l) != nullptr && *cm(k, l) == x[k][l], "Iterator: writes no other cell");
  vc::check(&*DM::ConstIterator(cm, i, j) == cm(i, j), "ConstIterator: refers to the element of its cell");
}
GOAL(shape) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N);
  DM &m = *new DM(r, c);
  size_t cc = r == 0 ? 0 : c;
  vc::check(m.rows() == r && m.cols() == cc && m.size() == r * cc, "rows, cols, size");
  vc::check(m.length(HORIZONTAL) == cc, "length: a horizontal line has one cell per column");
  vc::check(m.length(VERTICAL) == r, "length: a vertical line has one cell per row");
  DM &d = *new DM;
  vc::check(d.rows() == 0 && d.cols() == 0 && d.size() == 0 && d.empty(), "a default matrix has no cells");
}
GOAL(rows_and_columns) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  const DM &cm = m;
  const std::vector<double *> &row = cm.get_row(i);
  vc::check(row.size() == c && row[j] == cm(i, j), "get_row: the elements of the row, in order");
  std::vector<double *> col = cm.get_col(j);
  vc::check(col.size() == r && col[i] == cm(i, j), "get_col: the elements of the column, in order");
  std::vector<double *> h = cm.get_slice(i, HORIZONTAL), v = cm.get_slice(j, VERTICAL);
  vc::check(h.size() == c && h[j] == cm(i, j), "get_slice: a horizontal slice is a row");
  vc::check(v.size() == r && v[i] == cm(i, j), "get_slice: a vertical slice is a column");
}
GOAL(read_only_table) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  const DM &cm = m;
  auto d = cm.cdata();
  vc::check(d.size() == r && d[i].size() == c && d[i][j] == cm(i, j), "cdata: the table of all elements");
}
GOAL(allocation_query) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  vc::check(m.has_alloc(i, j) == (p[i][j] != 0), "has_alloc: true iff the cell is allocated");
}
#include "vc_main.h"
