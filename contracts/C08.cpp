// C08: DuoMatrix owns its elements: copies are deep, moves transfer, every element is deleted exactly once, and every
// operation leaves the other cells as they were.
#include "vc.h"
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
using namespace qlpeps;
typedef vc::Cell E;
typedef DuoMatrix<E> DM;
static const size_t N = 10000;

// an arbitrary matrix: cell (i,j) is allocated iff p[i][j] != 0 and then holds x[i][j]
static void fill(DM &m, const std::vector<std::vector<int>> &p, const std::vector<std::vector<double>> &x) {
  for (size_t i = 0; i < m.rows(); i++)
    for (size_t j = 0; j < m.cols(); j++)
      if (p[i][j] != 0) m({i, j}) = x[i][j];
}
#define ANY_MATRIX(m, r, c, p, x) \
  size_t r = vc::any_size(#r, 1, N), c = vc::any_size(#c, 1, N); \
  std::vector<std::vector<int>> p = vc::any_itable(#p, r, c, 0, 1); \
  std::vector<std::vector<double>> x = vc::any_table(#x, r, c); \
  DM m(r, c); fill(m, p, x);
// the same, never destroyed: for goals about values only
#define KEPT_MATRIX(m, r, c, p, x) \
  size_t r = vc::any_size(#r, 1, N), c = vc::any_size(#c, 1, N); \
  std::vector<std::vector<int>> p = vc::any_itable(#p, r, c, 0, 1); \
  std::vector<std::vector<double>> x = vc::any_table(#x, r, c); \
  DM &m = *new DM(r, c); fill(m, p, x);
static bool holds(const DM &m, size_t i, size_t j, int p, double x) { return p != 0 ? (m(i, j) != nullptr && *m(i, j) == x) : m(i, j) == nullptr; }

GOAL(starts_unallocated) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  DM m(r, c);
  vc::check(m.rows() == r && (r == 0 || m.cols() == c), "DuoMatrix: has the shape it was given");
  vc::check(m.empty(), "DuoMatrix: a new matrix holds no element");
  if (i < r && j < c) vc::check(m(i, j) == nullptr, "DuoMatrix: every cell of a new matrix is unallocated");
}
GOAL(fill_and_read) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  vc::check(holds(m, i, j, p[i][j], x[i][j]), "DuoMatrix: each cell holds what was stored in it");
}
GOAL(destroys_everything) {
  {
    ANY_MATRIX(m, r, c, p, x)
  }
  vc::check(vc::none_alive((E *) nullptr), "DuoMatrix: destruction deletes every element exactly once");
}
GOAL(copy_is_deep) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N); double z = vc::any_double("z");
  vc::require(i < r && j < c);
  DM &n = *new DM(m);
  vc::check(n.rows() == r && n.cols() == c, "DuoMatrix copy: same shape");
  vc::check(holds(n, i, j, p[i][j], x[i][j]), "DuoMatrix copy: same cells");
  n({i, j}) = z;
  vc::check(holds(m, i, j, p[i][j], x[i][j]), "DuoMatrix copy: changing the copy leaves the source alone");
}
GOAL(copy_released) {
  {
    ANY_MATRIX(m, r, c, p, x)
    DM n(m);
  }
  vc::check(vc::none_alive((E *) nullptr), "DuoMatrix copy: source and copy are released separately, once");
}
GOAL(copy_assign) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), r2 = vc::any_size("r2", 0, N), c2 = vc::any_size("c2", 0, N); double z = vc::any_double("z");
  vc::require(i < r && j < c);
  DM &n = *new DM(r2, c2);
  if (r2 > 0 && c2 > 0) n({r2 - 1, 0}) = 1.0;
  DM &ref = (n = m);
  vc::check(&ref == &n && n.rows() == r && n.cols() == c, "DuoMatrix assignment: takes the shape of the source");
  vc::check(holds(n, i, j, p[i][j], x[i][j]), "DuoMatrix assignment: same cells");
  n({i, j}) = z;
  vc::check(holds(m, i, j, p[i][j], x[i][j]), "DuoMatrix assignment: no sharing");
}
GOAL(copy_assign_released) {
  {
    ANY_MATRIX(m, r, c, p, x)
    size_t r2 = vc::any_size("r2", 0, N), c2 = vc::any_size("c2", 0, N);
    DM n(r2, c2);
    if (r2 > 0 && c2 > 0) n({r2 - 1, 0}) = 1.0;
    n = m;
  }
  vc::check(vc::none_alive((E *) nullptr), "DuoMatrix assignment: old elements released, nothing released twice");
}
GOAL(move_transfers) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N);
  vc::require(i < r && j < c);
  const E *before = static_cast<const DM &>(m)(i, j);
  DM &n = *new DM(std::move(m));
  vc::check(n.rows() == r && n.cols() == c && holds(n, i, j, p[i][j], x[i][j]), "DuoMatrix move: the target has the elements");
  vc::check(static_cast<const DM &>(n)(i, j) == before, "DuoMatrix move: elements are not copied");
  vc::check(m.empty(), "DuoMatrix move: the source keeps no element");
}
GOAL(move_assign) {
  {
    ANY_MATRIX(m, r, c, p, x)
    size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), r2 = vc::any_size("r2", 0, N), c2 = vc::any_size("c2", 0, N);
    vc::require(i < r && j < c);
    DM n(r2, c2);
    if (r2 > 0 && c2 > 0) n({0, c2 - 1}) = 1.0;
    n = std::move(m);
    vc::check(n.rows() == r && n.cols() == c && holds(n, i, j, p[i][j], x[i][j]), "DuoMatrix move assignment: the target has the elements");
    vc::check(m.empty(), "DuoMatrix move assignment: the source keeps no element");
  }
  vc::check(vc::none_alive((E *) nullptr), "DuoMatrix move assignment: everything released once");
}
GOAL(alloc_dealloc_frame) {
  {
    ANY_MATRIX(m, r, c, p, x)
    size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N);
    vc::require(i < r && j < c && k < r && l < c && (i != k || j != l));
    m.alloc(i, j);
    vc::check(static_cast<const DM &>(m)(i, j) != nullptr, "alloc: the cell is allocated");
    vc::check(holds(m, k, l, p[k][l], x[k][l]), "alloc: no other cell changes");
    m({i, j}) = 3.0;
    m.dealloc(i, j);
    vc::check(static_cast<const DM &>(m)(i, j) == nullptr, "dealloc: the cell is empty");
    vc::check(holds(m, k, l, p[k][l], x[k][l]), "dealloc: no other cell changes");
    m.dealloc(i, j);
    vc::check(static_cast<const DM &>(m)(i, j) == nullptr, "dealloc: of an empty cell does nothing");
  }
  vc::check(vc::none_alive((E *) nullptr), "alloc/dealloc: nothing leaks");
}
GOAL(setter_frame) {
  KEPT_MATRIX(m, r, c, p, x)
  size_t i = vc::any_size("i", 0, N), j = vc::any_size("j", 0, N), k = vc::any_size("k", 0, N), l = vc::any_size("l", 0, N); double z = vc::any_double("z");
  vc::require(i < r && j < c && k < r && l < c && (i != k || j != l));
  const E *before = static_cast<const DM &>(m)(i, j);
  m({i, j}) = z;
  vc::check(holds(m, i, j, 1, z), "element access: writes the cell, allocating it if needed");
  vc::check(before == nullptr || static_cast<const DM &>(m)(i, j) == before, "element access: an existing element is kept in place");
  vc::check(holds(m, k, l, p[k][l], x[k][l]), "element access: no other cell changes");
  const DM &cm = m;
  vc::check(cm({i, j}) == z, "const element access reads the same element");
}
GOAL(clear_empties) {
  {
    ANY_MATRIX(m, r, c, p, x)
    m.clear();
    vc::check(m.rows() == r && m.cols() == c, "clear: keeps the shape");
    vc::check(m.empty(), "clear: no element is left");
    vc::check(vc::none_alive((E *) nullptr), "clear: every element was deleted");
  }
  vc::check(vc::none_alive((E *) nullptr), "clear: nothing is deleted twice");
}
GOAL(empty_iff_unallocated) {
  KEPT_MATRIX(m, r, c, p, x)
  bool any = vc::exists(r, [&](size_t i) { return vc::exists(c, [&](size_t j) { return p[i][j] != 0; }); });
  vc::check(m.empty() == !any, "empty: true iff no cell is allocated");
}
GOAL(equality) {
  KEPT_MATRIX(m, r, c, p, x)
  std::vector<std::vector<int>> q = vc::any_itable("q", r, c, 0, 1);
  std::vector<std::vector<double>> y = vc::any_table("y", r, c);
  DM &n = *new DM(r, c); fill(n, q, y);
  bool same = vc::forall(r, [&](size_t a) { return vc::forall(c, [&](size_t b) { return p[a][b] != 0 && q[a][b] != 0 && x[a][b] == y[a][b]; }); });
  vc::check((m == n) == same, "operator==: true iff every cell is allocated in both and holds equal elements");
}
GOAL(equality_shape) {
  size_t r = vc::any_size("r", 0, N), c = vc::any_size("c", 0, N), r2 = vc::any_size("r2", 0, N), c2 = vc::any_size("c2", 0, N);
  DM a(r, c), b(r2, c2);
  vc::check(!(r != r2 || (r > 0 && c != c2)) || !(a == b), "operator==: matrices of different shape differ");
}
#include "vc_main.h"
