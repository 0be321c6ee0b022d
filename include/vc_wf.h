// Stand-ins for the tensor network library under the Monte-Carlo code: a tensor is (site, state); a wave function is any function of the configuration;
// an environment remembers which states it was built from, so that using a stale or a missing environment is seen.
#ifndef CPPVC_WF_H
#define CPPVC_WF_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_TWO_DIM_TN_TPS_TENSOR_NETWORK_2D_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_BMPS_CONTRACTOR_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_TRG_CONTRACTOR_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_SOLVERS_SQUARE_HUBBARD_MODEL_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "qlten/qlten.h"
#ifdef VC_VERIFY
namespace vcw { inline std::vector<double> draws; inline double psi_new = 0, psi_new_im = 0; inline size_t got1 = 0, got2 = 0, asked = 0; }
namespace std {
struct vc_mt19937 { std::vector<double> us; size_t pos = 0; using result_type = unsigned; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() { return 0; } void seed(unsigned long) {} vc_mt19937() {} explicit vc_mt19937(unsigned) { us = vcw::draws; } };
}
#define mt19937 vc_mt19937
#else
namespace vcw {
struct Script {   // every random engine of the code under check
  bool constant = false; unsigned value = 0; std::mt19937 gen;
};
inline Script &script() { static Script s; return s; }
}
namespace std {
struct vc_mt19937 {
  using result_type = unsigned;
  vc_mt19937() {} explicit vc_mt19937(unsigned long) {}
  void seed(unsigned long) {}
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { auto &s = vcw::script(); return s.constant ? s.value : (unsigned) s.gen(); }
  void discard(unsigned long long) {}
};
}
#define mt19937 vc_mt19937
#endif
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/configuration.h"
struct VcQN {};
namespace vcw {
using Cells = std::vector<long>;                    // state per site, -1: not included
struct Globals {
  std::function<std::complex<double>(const Cells &)> psi;
  bool free = false;                                // environments are not needed (local moves are looked at alone)
  std::string bad;
};
inline Globals &g() { static Globals x; return x; }
inline void fault(const char *s) { if (g().bad.empty()) g().bad = s; }
template<class E> E cast(std::complex<double> z) { if constexpr (std::is_same_v<E, double>) return z.real(); else return z; }
struct Ten { size_t r = 0, c = 0, s = 0; bool def = true; bool IsDefault() const { return def; } int GetIndexes() const { return 0; } static constexpr bool IsFermionic() { return false; } };
struct Trunc { int id = 0; };
}
namespace qlpeps {
enum class HubbardSingleSiteState { DoubleOccupancy, SpinUp, SpinDown, Empty };
using BTenPOSITION = BMPSPOSITION;
#ifdef VC_VERIFY
// what the verifier reads: two sites, one bond; the contractor answers with a given amplitude and notes which tensors it was asked for
template<class E, class QNT> struct SplitIndexTPS {
  size_t dim_;
  struct Site { size_t r, c; vcw::Ten operator[](size_t s) const { vcw::Ten x; x.r = r; x.c = c; x.s = s; x.def = false; return x; } };
  SplitIndexTPS(size_t, size_t, size_t d) : dim_(d) {}
  size_t PhysicalDim() const { return dim_; }
  Site operator()(const SiteIdx &s) const { Site x; x.r = s[0]; x.c = s[1]; return x; }
};
template<class E, class QNT> struct TensorNetwork2D {
  size_t rows_ = 0, cols_ = 0; vcw::Ten a, b;
  TensorNetwork2D(size_t r, size_t c) : rows_(r), cols_(c) {}
  TensorNetwork2D(const SplitIndexTPS<E, QNT> &x, const Configuration &cfg) : rows_(cfg.rows()), cols_(cfg.cols()) {}
  size_t rows() const { return rows_; } size_t cols() const { return cols_; }
  const vcw::Ten &operator()(const SiteIdx &s) const { if (s[1] == 0) return a; return b; }
  void UpdateSiteTensor(const SiteIdx &s, size_t cfg, const SplitIndexTPS<E, QNT> &x) { if (s[1] == 0) a = x(s)[cfg]; else b = x(s)[cfg]; }
};
template<class E, class QNT> struct BMPSContractor {
  using Tensor = vcw::Ten; using TruncateParams = vcw::Trunc; using TN = TensorNetwork2D<E, QNT>; size_t erased = 0;
  BMPSContractor(size_t r, size_t c) {}
  void Init(const TN &) {}
  void SetTruncateParams(const TruncateParams &t) {}
  void GrowBMPSForRow(const TN &, size_t) {} void InitBTen(const TN &, BMPSPOSITION, size_t) {}
  void GrowFullBTen(const TN &, BMPSPOSITION, size_t, size_t remain = 2, bool init = true) {}
  void GenerateBMPSApproach(const TN &, BMPSPOSITION) {} void ShiftBTenWindow(const TN &, BMPSPOSITION) {} void ShiftBMPSWindow(const TN &, BMPSPOSITION) {}
  void InitBTen2(const TN &, BMPSPOSITION, size_t) {} void GrowFullBTen2(const TN &, BMPSPOSITION, size_t, size_t remain = 2, bool init = true) {} void ShiftBTen2Window(const TN &, BMPSPOSITION, size_t) {}
  void DeleteInnerBMPS(BMPSPOSITION) {}
  E Trace(const TN &, const SiteIdx &, BondOrientation) const { if constexpr (std::is_same_v<E, double>) return vcw::psi_new; else return E(vcw::psi_new, vcw::psi_new_im); }
  E ReplaceNNSiteTrace(const TN &, const SiteIdx &a, const SiteIdx &b, BondOrientation d, const Tensor &x, const Tensor &y) const {
    vcw::asked++; vcw::got1 = x.s; vcw::got2 = y.s;
    vc::check(d == HORIZONTAL && a[0] == 0 && a[1] == 0 && b[0] == 0 && b[1] == 1, "the bond asked for is the bond of the move");
    vc::check(x.r == a[0] && x.c == a[1] && y.r == b[0] && y.c == b[1] && !x.def && !y.def, "the tensors inserted are those of the sites");
    if constexpr (std::is_same_v<E, double>) return vcw::psi_new; else return E(vcw::psi_new, vcw::psi_new_im);
  }
  void EraseEnvsAfterUpdate(const SiteIdx &s) { if (s[0] == 0 && s[1] < 2) erased += s[1] + 1; }
};
template<class E, class QNT> struct TRGContractor {
  using Tensor = vcw::Ten; using TruncateParams = vcw::Trunc; using TN = TensorNetwork2D<E, QNT>;
  struct Trial { E amplitude{}; size_t s1 = 0, s2 = 0; };
  size_t commits = 0; size_t c1 = 0, c2 = 0;
  TRGContractor(size_t r, size_t c) {}
  void Init(const TN &) {}
  void SetTruncateParams(const TruncateParams &t) {}
  E Trace(const TN &) { return E(1); }
  Trial BeginTrialWithReplacement(const std::vector<std::pair<SiteIdx, Tensor>> &rep) const {
    Trial t; t.s1 = c1; t.s2 = c2;
    vc::check(rep.size() == 2, "two sites are replaced");
    if (rep[0].first[1] == 0) { t.s1 = rep[0].second.s; t.s2 = rep[1].second.s; } else { t.s1 = rep[1].second.s; t.s2 = rep[0].second.s; }
    vcw::asked++; vcw::got1 = t.s1; vcw::got2 = t.s2;
    if constexpr (std::is_same_v<E, double>) t.amplitude = vcw::psi_new; else t.amplitude = E(vcw::psi_new, vcw::psi_new_im);
    return t;
  }
  void CommitTrial(Trial &&t) { commits++; c1 = t.s1; c2 = t.s2; }
};
#else
template<class E, class QNT> struct SplitIndexTPS {
  size_t rows_, cols_, dim_; std::vector<std::vector<vcw::Ten>> t;
  SplitIndexTPS(size_t r, size_t c, size_t d) : rows_(r), cols_(c), dim_(d), t(r * c) {
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t s = 0; s < d; s++) { vcw::Ten x; x.r = i; x.c = j; x.s = s; x.def = false; t[i * c + j].push_back(x); }
  }
  size_t PhysicalDim() const { return dim_; }
  size_t rows() const { return rows_; } size_t cols() const { return cols_; }
  const std::vector<vcw::Ten> &operator()(const SiteIdx &s) const { return t.at(s[0] * cols_ + s[1]); }
};
template<class E, class QNT> struct TensorNetwork2D {
  size_t rows_ = 0, cols_ = 0; std::vector<vcw::Ten> t;
  TensorNetwork2D(size_t r, size_t c) : rows_(r), cols_(c), t(r * c) {}
  TensorNetwork2D(const SplitIndexTPS<E, QNT> &x, const Configuration &cfg) : rows_(cfg.rows()), cols_(cfg.cols()), t(rows_ * cols_) {
    for (size_t i = 0; i < rows_; i++) for (size_t j = 0; j < cols_; j++) t[i * cols_ + j] = x({i, j}).at(cfg({i, j}));
  }
  size_t rows() const { return rows_; } size_t cols() const { return cols_; }
  const vcw::Ten &operator()(const SiteIdx &s) const { return t.at(s[0] * cols_ + s[1]); }
  void UpdateSiteTensor(const SiteIdx &s, size_t cfg, const SplitIndexTPS<E, QNT> &x) { t.at(s[0] * cols_ + s[1]) = x(s).at(cfg); }
  vcw::Cells cells() const { vcw::Cells r; for (auto &x : t) r.push_back((long) x.s); return r; }
};
template<class E, class QNT> struct BMPSContractor {
  using Tensor = vcw::Ten; using TruncateParams = vcw::Trunc; using TN = TensorNetwork2D<E, QNT>; using Cells = vcw::Cells;
  size_t R, C; std::vector<Cells> bmps[4], bten[4], bten2[4]; size_t line[4] = {0, 0, 0, 0}, line2[4] = {0, 0, 0, 0}; int trunc = -1;
  std::vector<std::array<size_t, 3>> *asked = nullptr;
  BMPSContractor(size_t r, size_t c) : R(r), C(c) {}
  void SetTruncateParams(const TruncateParams &t) { trunc = t.id; }
  Cells none() const { return Cells(R * C, -1); }
  void Init(const TN &) { for (int p = 0; p < 4; p++) { bmps[p].assign(1, none()); bten[p].clear(); bten2[p].clear(); } }
  size_t lines(BMPSPOSITION p) const { return p == UP || p == DOWN ? R : C; }
  void step(const TN &tn, BMPSPOSITION p) {
    if (bmps[p].empty() || bmps[p].size() > lines(p)) { vcw::fault("boundary grown outside the lattice"); return; }
    if (trunc < 0) vcw::fault("truncation parameters not set");
    size_t k = bmps[p].size() - 1; Cells c = bmps[p].back();
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) if ((p == UP && i == k) || (p == DOWN && R - 1 - i == k) || (p == LEFT && j == k) || (p == RIGHT && C - 1 - j == k)) c[i * C + j] = (long) tn({i, j}).s;
    bmps[p].push_back(c);
  }
  void GrowBMPSStep(const TN &tn, BMPSPOSITION p) { step(tn, p); }
  void GrowFullBMPS(const TN &tn, BMPSPOSITION p) { while (bmps[p].size() < lines(p) && vcw::g().bad.empty()) step(tn, p); }
  void DeleteInnerBMPS(BMPSPOSITION p) { bmps[p].resize(1); }
  void GenerateBMPSApproach(const TN &tn, BMPSPOSITION p) { DeleteInnerBMPS(p); GrowFullBMPS(tn, Opposite(p)); }
  void GrowBMPSForRow(const TN &tn, size_t row) { while (bmps[DOWN].size() < R - row && vcw::g().bad.empty()) step(tn, DOWN); while (bmps[UP].size() < row + 1 && vcw::g().bad.empty()) step(tn, UP); }
  void GrowBMPSForCol(const TN &tn, size_t col) { while (bmps[RIGHT].size() < C - col && vcw::g().bad.empty()) step(tn, RIGHT); while (bmps[LEFT].size() < col + 1 && vcw::g().bad.empty()) step(tn, LEFT); }
  void ShiftBMPSWindow(const TN &tn, BMPSPOSITION p) { if (bmps[p].size() < 2) { vcw::fault("boundary window shifted outside the lattice"); return; } bmps[p].pop_back(); step(tn, Opposite(p)); }
  // the environment of the lines [l, l + n) as columns/rows along the line
  bool walls(BMPSPOSITION along, size_t l, size_t n, Cells &c) const {
    BMPSPOSITION a = along == LEFT || along == RIGHT ? UP : LEFT, b = Opposite(a); size_t N = lines(a);
    if (bmps[a].size() <= l || bmps[b].size() <= N - l - n) { vcw::fault("boundary environment missing"); return false; }
    c = bmps[a][l]; for (size_t i = 0; i < R * C; i++) if (bmps[b][N - l - n][i] >= 0) c[i] = bmps[b][N - l - n][i];
    return true;
  }
  size_t along_len(BMPSPOSITION p) const { return p == LEFT || p == RIGHT ? C : R; }
  Cells slice(const TN &tn, BMPSPOSITION p, size_t l, size_t n, size_t k) const {   // the k-th position from side p of the strip, walls included
    Cells w, r = none(); if (!walls(p, l, n, w)) return r;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) {
      size_t pos = p == LEFT ? j : p == RIGHT ? C - 1 - j : p == UP ? i : R - 1 - i, ln = p == LEFT || p == RIGHT ? i : j;
      if (pos != k) continue;
      r[i * C + j] = ln >= l && ln < l + n ? (long) tn({i, j}).s : w[i * C + j];
    }
    return r;
  }
  void grow(const TN &tn, BMPSPOSITION p, std::vector<Cells> &st, size_t l, size_t n) {
    if (st.empty() || st.size() > along_len(p)) { vcw::fault("environment of the line grown without start or past its end"); return; }
    Cells c = st.back(), s = slice(tn, p, l, n, st.size() - 1); for (size_t i = 0; i < R * C; i++) if (s[i] >= 0) c[i] = s[i];
    st.push_back(c);
  }
  void InitBTen(const TN &, BMPSPOSITION p, size_t l) { bten[p].assign(1, none()); line[p] = l; }
  void InitBTen2(const TN &, BMPSPOSITION p, size_t l) { bten2[p].assign(1, none()); line2[p] = l; }
  void GrowFullBTen(const TN &tn, BMPSPOSITION p, size_t l, size_t remain = 2, bool init = true) { if (init) InitBTen(tn, p, l); while (bten[p].size() + remain < along_len(p) + 1 && vcw::g().bad.empty()) grow(tn, p, bten[p], l, 1); }
  void GrowFullBTen2(const TN &tn, BMPSPOSITION p, size_t l, size_t remain = 2, bool init = true) { if (init) InitBTen2(tn, p, l); while (bten2[p].size() + remain < along_len(p) + 1 && vcw::g().bad.empty()) grow(tn, p, bten2[p], l, 2); }
  void GrowBTenStep(const TN &tn, BMPSPOSITION p) { grow(tn, p, bten[p], line[p], 1); }
  void ShiftBTenWindow(const TN &tn, BMPSPOSITION p) { if (bten[p].empty()) { vcw::fault("window shifted past the line"); return; } bten[p].pop_back(); grow(tn, Opposite(p), bten[Opposite(p)], line[Opposite(p)], 1); }
  void ShiftBTen2Window(const TN &tn, BMPSPOSITION p, size_t l) { if (bten2[p].empty()) { vcw::fault("window shifted past the line"); return; } bten2[p].pop_back(); grow(tn, Opposite(p), bten2[Opposite(p)], l, 2); }
  void BTenMoveStep(const TN &tn, BMPSPOSITION p) { ShiftBTenWindow(tn, p); }
  void BTen2MoveStep(const TN &tn, BMPSPOSITION p, size_t l) { ShiftBTen2Window(tn, p, l); }
  // amplitude with the sites of the window (n along the line, w lines wide) replaced
  E trace(const TN &tn, size_t row, size_t col, BondOrientation dir, const std::vector<std::pair<SiteIdx, Tensor>> &rep, size_t n, size_t w = 1) const {
    Cells c = none();
    if (vcw::g().free) c = tn.cells();
    else {
      bool h = dir == HORIZONTAL; BMPSPOSITION a = h ? LEFT : UP, b = Opposite(a); size_t l = h ? row : col, k = h ? col : row, N = h ? C : R;
      auto &A = w == 1 ? bten[a] : bten2[a]; auto &B = w == 1 ? bten[b] : bten2[b]; const size_t *ln = w == 1 ? line : line2;
      if (A.size() <= k || k + n > N || B.size() <= N - k - n || ln[a] != l || ln[b] != l) { vcw::fault("environment of the bond missing"); return E(1); }
      for (size_t i = 0; i < R * C; i++) { if (A[k][i] >= 0) c[i] = A[k][i]; if (B[N - k - n][i] >= 0) c[i] = B[N - k - n][i]; }
      for (size_t q = 0; q < n; q++) { Cells s = slice(tn, a, l, w, k + q); for (size_t i = 0; i < R * C; i++) if (s[i] >= 0) c[i] = s[i]; }
      for (long x : c) if (x < 0) { vcw::fault("environments do not cover the lattice"); return E(1); }
    }
    for (auto &x : rep) { if (x.second.r != x.first[0] || x.second.c != x.first[1] || x.second.def) vcw::fault("a tensor of another site is inserted"); c.at(x.first[0] * C + x.first[1]) = (long) x.second.s; }
    return vcw::cast<E>(vcw::g().psi(c));
  }
  E Trace(const TN &tn, const SiteIdx &a, BondOrientation d) const { return trace(tn, a[0], a[1], d, {}, 2); }
  E Trace(const TN &tn, const SiteIdx &a, const SiteIdx &, BondOrientation d) const { return trace(tn, a[0], a[1], d, {}, 2); }
  E ReplaceNNSiteTrace(const TN &tn, const SiteIdx &a, const SiteIdx &b, BondOrientation d, const Tensor &x, const Tensor &y) const {
    if (!(d == HORIZONTAL ? a[0] == b[0] && a[1] + 1 == b[1] : a[1] == b[1] && a[0] + 1 == b[0])) vcw::fault("not a nearest-neighbour bond of this orientation");
    return trace(tn, a[0], a[1], d, {{a, x}, {b, y}}, 2);
  }
  E ReplaceTNNSiteTrace(const TN &tn, const SiteIdx &a, BondOrientation d, const Tensor &x, const Tensor &y, const Tensor &z) const {
    SiteIdx b = d == HORIZONTAL ? SiteIdx{a[0], a[1] + 1} : SiteIdx{a[0] + 1, a[1]}, c = d == HORIZONTAL ? SiteIdx{a[0], a[1] + 2} : SiteIdx{a[0] + 2, a[1]};
    return trace(tn, a[0], a[1], d, {{a, x}, {b, y}, {c, z}}, 3);
  }
  E ReplaceOneSiteTrace(const TN &tn, const SiteIdx &a, const Tensor &x, BondOrientation d) const { return trace(tn, a[0], a[1], d, {{a, x}}, 1); }
  E window2(const TN &tn, size_t row, size_t col) const { return trace(tn, row, col, HORIZONTAL, {}, 2, 2); }
  void EraseEnvsAfterUpdate(const SiteIdx &s) {
    size_t i = s[0] * C + s[1];
    for (int p = 0; p < 4; p++) for (auto *st : {&bmps[p], &bten[p], &bten2[p]}) for (size_t k = 0; k < st->size(); k++) if ((*st)[k][i] >= 0) { st->resize(k); break; }
  }
};
template<class E, class QNT> struct TRGContractor {
  using Tensor = vcw::Ten; using TruncateParams = vcw::Trunc; using TN = TensorNetwork2D<E, QNT>;
  struct Trial { E amplitude{}; vcw::Cells cells; bool real = false; };
  size_t R, C; vcw::Cells cached; int trunc = -1;
  TRGContractor(size_t r, size_t c) : R(r), C(c) {}
  void SetTruncateParams(const TruncateParams &t) { trunc = t.id; }
  void Init(const TN &tn) { cached = tn.cells(); }
  E Trace(const TN &tn) { cached = tn.cells(); return vcw::cast<E>(vcw::g().psi(cached)); }
  Trial BeginTrialWithReplacement(const std::vector<std::pair<SiteIdx, Tensor>> &rep) const {
    Trial t; t.cells = cached; t.real = true;
    for (auto &x : rep) { if (x.second.r != x.first[0] || x.second.c != x.first[1] || x.second.def) vcw::fault("a tensor of another site is inserted"); t.cells.at(x.first[0] * C + x.first[1]) = (long) x.second.s; }
    t.amplitude = vcw::cast<E>(vcw::g().psi(t.cells)); return t;
  }
  void CommitTrial(Trial &&t) { if (!t.real) vcw::fault("an empty trial is committed"); cached = t.cells; }
  void ClearCache() { cached.clear(); }
};
#endif
}
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h"
#undef mt19937
#endif
