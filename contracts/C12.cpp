// C12: a configuration holds one state per site; random configurations have exactly the requested occupation numbers.
#include "vc.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/configuration.h"
using namespace qlpeps;
static const size_t L = 1000;
#define LATTICE(r, c) size_t r = vc::any_size(#r, 1, L), c = vc::any_size(#c, 1, L); vc::tractable(r * c <= 400);

GOAL(from_table) {
  LATTICE(rows, cols)
  std::vector<std::vector<size_t>> t = vc::any_stable("t", rows, cols, 0, 9);
  Configuration a(t);
  vc::check(a.rows() == rows && a.cols() == cols, "the lattice has the shape of the table");
  size_t i = vc::any_size("i", 0, L), j = vc::any_size("j", 0, L);
  vc::require(i < rows && j < cols);
  SiteIdx s{i, j};
  vc::check(a({i, j}) == t[i][j] && a(s) == t[i][j], "each site has the state of the table");
  vc::check(a.IsValid(), "every site has a state");
}
GOAL(is_valid) {
  LATTICE(rows, cols)
  size_t i = vc::any_size("i", 0, L), j = vc::any_size("j", 0, L);
  vc::require(i < rows && j < cols);
  std::vector<std::vector<size_t>> t = vc::any_stable("t", rows, cols, 0, 9);
  Configuration a(t);
  a.dealloc(i, j);
  vc::check(!a.IsValid(), "a configuration with a missing state is invalid");
  Configuration b(rows, cols);
  vc::check(!b.IsValid(), "a configuration without states is invalid");
}
// the number of sites in state k
static size_t sites_in(Configuration &a, size_t k) { return vc::count(a.rows() * a.cols(), [&](size_t x) { return a({x / a.cols(), x % a.cols()}) == k; }); }
#define TABLE(a) LATTICE(rows, cols) std::vector<std::vector<size_t>> t = vc::any_stable("t", rows, cols, 0, 9); Configuration a(t);

BGOAL(messages) {
  TABLE(a)
  MPI_Status st;
  Configuration b(rows, cols), c(rows, cols), d(t), e(rows, cols);
  vcmpi::world.rank = 0;
  MPI_Send(a, 1, 7, MPI_COMM_WORLD);
  vcmpi::world.rank = 1;
  MPI_Recv(b, 0, 7, MPI_COMM_WORLD, &st);
  vc::check(a == b, "a received configuration is the one sent");
  vcmpi::world.rank = 0;
  MPI_BCast(d, 0, MPI_COMM_WORLD);
  vc::check(a == d, "the root of a broadcast keeps its configuration");
  vcmpi::world.rank = 1;
  MPI_BCast(c, 0, MPI_COMM_WORLD);
  vc::check(a == c, "a broadcast delivers the root's configuration");
  vcmpi::world.rank = 0;
  std::vector<std::vector<size_t>> u = vc::any_stable("u", rows, cols, 0, 9);
  Configuration other(u);
  MPI_Send(other, 0, 7, MPI_COMM_WORLD);
  MPI_Sendrecv(a, 1, 7, e, 1, 7, MPI_COMM_WORLD, &st);
  vc::check(e == other && a == d, "an exchange delivers the partner's configuration and keeps one's own");
  MPI_Recv(b, 0, 7, MPI_COMM_WORLD, &st);
  vc::check(a == b, "an exchange sends one's own configuration");
}
GOAL(empty_table) {
  std::vector<std::vector<size_t>> t;
  Configuration a(t);
  vc::check(a.rows() == 0 && a.size() == 0 && a.IsValid(), "an empty table gives an empty lattice");
}
BGOAL(sum) {
  TABLE(a)
  size_t n = 0;
  for (auto &r : t) for (size_t v : r) n += v;
  vc::check(a.Sum() == n, "the sum of all states");
}
BGOAL(count_occupancy) {
  TABLE(a)
  std::vector<size_t> occ = a.CountOccupancy();
  size_t top = 0;
  for (auto &r : t) for (size_t v : r) top = std::max(top, v);
  vc::check(occ.size() == top + 1, "one number per state up to the largest one present");
  for (size_t k = 0; k < occ.size(); k++) vc::check(occ[k] == sites_in(a, k), "the number of sites in each state");
  vc::check(Configuration(0, 0).CountOccupancy().empty(), "no states on an empty lattice");
}
BGOAL(random_occupancy) {
  LATTICE(rows, cols)
  size_t n = rows * cols, dim = vc::any_size("dim", 1, 6), used = 0;
  std::vector<size_t> occ = vc::any_sizes("occ", dim, 0, 12);
  for (size_t k = 0; k + 1 < dim; k++) { occ[k] = std::min(occ[k], n - used); used += occ[k]; }
  occ[dim - 1] = n - used;
  Configuration a(rows, cols, occ), b(rows, cols);
  b.Random(occ);
  for (size_t k = 0; k < dim; k++) vc::check(sites_in(a, k) == occ[k] && sites_in(b, k) == occ[k], "exactly the requested number of sites is in each state");
  std::vector<size_t> fewer = occ;
  occ[vc::any_size("where", 0, 5) % dim] += vc::any_size("more", 1, 3);
  for (auto &e : fewer) if (e > 0) { e--; break; }
  Configuration c(rows, cols);
  vc::check(vc::throws([&] { c.Random(occ); }) && vc::throws([&] { Configuration d(rows, cols, occ); }) && vc::throws([&] { c.Random(fewer); }), "numbers that do not add up to the number of sites are refused");
}
BGOAL(random_occupancy_map) {
  LATTICE(rows, cols)
  size_t n = rows * cols, dim = vc::any_size("dim", 1, 5), used = 0;
  std::vector<size_t> occ = vc::any_sizes("occ", dim, 0, 12), st = vc::any_sizes("st", dim, 0, 20);
  std::map<size_t, size_t> m;
  for (size_t k = 0; k < dim; k++) { size_t v = std::min(occ[k], n - used); if (m.count(st[k])) continue; m[st[k]] = v; used += v; }
  m[st[0]] += n - used;
  Configuration a(rows, cols, m), b(rows, cols);
  b.Random(m);
  for (auto &e : m) vc::check(sites_in(a, e.first) == e.second && sites_in(b, e.first) == e.second, "exactly the requested number of sites is in each listed state");
  std::map<size_t, size_t> fewer = m, more = m;
  more[st[vc::any_size("where", 0, 4) % dim]] += 1;
  for (auto &e : fewer) if (e.second > 0) { e.second--; break; }
  vc::check(vc::throws([&] { a.Random(more); }) && vc::throws([&] { a.Random(fewer); }), "numbers that do not add up to the number of sites are refused");
}
BGOAL(random_dimension) {
  LATTICE(rows, cols)
  size_t dim = vc::any_size("dim", 1, 9);
  Configuration a(rows, cols, dim);
  for (size_t x = 0; x < rows * cols; x++) vc::check(a({x / cols, x % cols}) < dim, "every site has a state below the dimension");
}
#ifndef VC_VERIFY
#include <unistd.h>
#include <filesystem>
struct Dir { std::string p; Dir() { char b[] = "/tmp/vc_cfg_XXXXXX"; p = mkdtemp(b); } ~Dir() { std::error_code e; std::filesystem::remove_all(p, e); } };
#endif
BGOAL(stream_round_trip) {
#ifndef VC_VERIFY
  Configuration none(vc::any_size("z", 0, 3), 0);
  std::stringstream empty; empty << none; empty >> none;
  vc::check(none.cols() == 0, "lattices without columns can be written and read");
  TABLE(a)
  std::stringstream ss;
  ss << a;
  Configuration b(rows, cols);
  ss >> b;
  vc::check(a == b, "writing and reading back gives the same configuration");
  size_t cut = vc::any_size("cut", 1, 40), n = 0;
  std::string txt = ss.str(), part;
  std::istringstream words(txt); std::string w;
  while (words >> w) if (n++ + cut < rows * cols) part += w + " ";
  std::istringstream shorter(part);
  Configuration c(rows, cols);
  vc::check(vc::throws([&] { shorter >> c; }), "a stream with too few states is refused");
#endif
}
BGOAL(file_round_trip) {
#ifndef VC_VERIFY
  TABLE(a)
  vc::require(vc::any_size("rarely", 0, 40) == 0);
  Dir d;
  size_t label = vc::any_size("label", 0, 12);
  std::string dir = d.p + "/x";
  a.Dump(dir, label);
  Configuration b(rows, cols), c(rows + 1, cols), e(cols + rows, rows), f(rows, cols);
  vc::check(b.Load(dir, label) && a == b, "loading what was dumped gives the same configuration");
  vc::check(!c.Load(dir, label) && !e.Load(dir, label), "a configuration of another shape is refused");
  Configuration tr(cols, rows), flat(1, rows * cols), wide(rows, cols + 1), low(rows - 1, cols);
  vc::check((rows == cols || !tr.Load(dir, label)) && (rows == 1 || !flat.Load(dir, label)) && !wide.Load(dir, label) && !low.Load(dir, label), "also one with the same number of sites");
  vc::check(!f.Load(dir, label + 1), "a missing file is refused");
  std::filesystem::remove(dir + "/configuration" + std::to_string(label) + ".shape");
  Configuration g(rows, cols), h(rows + 1, cols);
  vc::check(g.Load(dir, label) && a == g, "files without shape information are still readable");
  vc::check(!h.Load(dir, label), "too few states are refused");
#endif
}
#include "vc_main.h"
