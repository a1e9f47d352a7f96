// Independent description of which sides a refinement pattern splits and of integer lattice geometry.
#ifndef VERIF_PATTERNS_H
#define VERIF_PATTERNS_H
#include <lf/refinement/refinement.h>

#include <array>
#include <set>

#include "engine/pbt.h"

namespace gen {
using lf::refinement::RefPat;
using IMat = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>;
using IPt = std::array<int, 2>;

/// a pattern with an arbitrary lattice resolution
class LatticePattern : public lf::refinement::Hybrid2DRefinementPattern {
 public:
  LatticePattern(lf::base::RefEl t, RefPat p, unsigned a, unsigned lattice) : Hybrid2DRefinementPattern(t, p, a) {
    lattice_const_ = lattice;
  }
  LatticePattern(lf::base::RefEl t, RefPat p, unsigned lattice) : Hybrid2DRefinementPattern(t, p) { lattice_const_ = lattice; }
};

struct PatCase {
  lf::base::RefEl type;
  RefPat pat;
  bool needs_anchor;
  std::vector<int> split;  // sides split for anchor 0
};
inline const std::vector<PatCase> &AllPatterns() {
  using lf::base::RefEl;
  using namespace lf::refinement;
  static const std::vector<PatCase> v = {
      {RefEl::kTria(), rp_copy, false, {}},
      {RefEl::kTria(), rp_bisect, true, {0}},
      {RefEl::kTria(), rp_trisect, true, {0, 1}},
      {RefEl::kTria(), rp_trisect_left, true, {0, 2}},
      {RefEl::kTria(), rp_quadsect, true, {0, 1, 2}},
      {RefEl::kTria(), rp_regular, false, {0, 1, 2}},
      {RefEl::kTria(), rp_barycentric, false, {0, 1, 2}},
      {RefEl::kQuad(), rp_copy, false, {}},
      {RefEl::kQuad(), rp_trisect, true, {0}},
      {RefEl::kQuad(), rp_quadsect, true, {0, 1}},
      {RefEl::kQuad(), rp_bisect, true, {0, 2}},
      {RefEl::kQuad(), rp_split, true, {0, 2}},
      {RefEl::kQuad(), rp_threeedge, true, {0, 1, 3}},
      {RefEl::kQuad(), rp_regular, false, {0, 1, 2, 3}},
      {RefEl::kQuad(), rp_barycentric, false, {0, 1, 2, 3}},
      {RefEl::kSegment(), rp_copy, false, {}},
      {RefEl::kSegment(), rp_split, false, {0}},
      {RefEl::kPoint(), rp_copy, false, {}},
  };
  return v;
}
inline const char *PatName(RefPat p) {
  static const char *n[] = {"nil", "copy", "split", "bisect", "trisect", "trisect_left", "quadsect", "threeedge", "regular", "barycentric"};
  return (p >= 0 && p < 10) ? n[p] : "?";
}
inline long Cross(const IPt &a, const IPt &b, const IPt &c) {
  return static_cast<long>(b[0] - a[0]) * (c[1] - a[1]) - static_cast<long>(b[1] - a[1]) * (c[0] - a[0]);
}
inline std::vector<IPt> ToPts(const IMat &m) {
  std::vector<IPt> p;
  for (int k = 0; k < m.cols(); ++k) p.push_back({m(0, k), m.rows() > 1 ? m(1, k) : 0});
  return p;
}
/// twice the signed area
inline long Area2(const std::vector<IPt> &p) {
  long s = 0;
  for (size_t k = 0; k < p.size(); ++k) {
    const IPt &a = p[k];
    const IPt &b = p[(k + 1) % p.size()];
    s += static_cast<long>(a[0]) * b[1] - static_cast<long>(a[1]) * b[0];
  }
  return s;
}
inline bool ConvexStrict(const std::vector<IPt> &p) {
  const long s = Area2(p) > 0 ? 1 : -1;
  for (size_t k = 0; k < p.size(); ++k)
    if (s * Cross(p[k], p[(k + 1) % p.size()], p[(k + 2) % p.size()]) <= 0) return false;
  return true;
}
/// interiors of two strictly convex polygons are disjoint
inline bool Disjoint(const std::vector<IPt> &p, const std::vector<IPt> &q) {
  for (int r = 0; r < 2; ++r) {
    const auto &a = r ? q : p;
    const auto &b = r ? p : q;
    const long s = Area2(a) > 0 ? 1 : -1;
    for (size_t k = 0; k < a.size(); ++k) {
      bool sep = true;
      for (const auto &x : b) sep = sep && s * Cross(a[k], a[(k + 1) % a.size()], x) <= 0;
      if (sep) return true;
    }
  }
  return false;
}
}  // namespace gen
#endif
