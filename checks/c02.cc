// C02: sub-entity geometries and child geometries are restrictions of the parent map
#include "gen/patterns.h"
#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

static RefEl TypeOf(int ncorners) {
  return ncorners == 1 ? RefEl::kPoint() : (ncorners == 2 ? RefEl::kSegment() : (ncorners == 3 ? RefEl::kTria() : RefEl::kQuad()));
}

/// corners of the reference element (own table)
static Mat RefCorners(RefEl t) { return t == RefEl::kPoint() ? Mat(0, 1) : Mat(Ref(t, 1).nodes); }

/// affine/bilinear interpolation of polygon corners
static Mat PolyMap(const Mat &corners, const Mat &local) {
  if (corners.cols() == 1) return corners.replicate(1, local.cols());
  Mat r(corners.rows(), local.cols());
  const RefLag &L = Ref(TypeOf(corners.cols()), 1);
  for (int k = 0; k < local.cols(); ++k) r.col(k) = corners * L.eval(local.col(k));
  return r;
}

static void CheckEqualMap(pbt::G &g, const lf::geometry::Geometry &sub, const Shape &s, const Mat &corners, const std::string &key,
                          const std::string &who) {
  const RefEl t = TypeOf(corners.cols());
  CHECK(sub.RefEl() == t, key + " type", who);
  CHECK(sub.DimGlobal() == static_cast<unsigned>(s.dimG()), key + " DimGlobal", who);
  const int n = g.i(1, 4);
  const Mat P = RandRefPoints(g, t, n);
  const Mat Q = PolyMap(corners, P);
  Mat X(s.dimG(), n);
  for (int k = 0; k < n; ++k) X.col(k) = s.map(Q.col(k));
  CHECK_MAT(sub.Global(P), X, 1e-12 * CoordScale(s.nodes), key, who << " at local points " << Str(P));
}

PBT_SUB("subgeometry", 150000, 3000000,
        "every sub-entity (all codimensions, also repeated SubGeometry) of a random shape at random points; non-trivial: edge of a 2D shape") {
  const int kind = 1 + static_cast<int>(g.raw(kNumKinds - 1));
  Shape s = RandShape(g, kind);
  const int dl = s.dimL();
  const Mat rc = RefCorners(s.type);
  const int nc = rc.cols();
  const int codim = g.i(0, dl);
  const int cnt = codim == 0 ? 1 : nc;
  const int i = g.i(0, cnt - 1);
  const std::string who = s.kind + " codim " + std::to_string(codim) + " sub " + std::to_string(i);
  g.desc() << who;
  Mat corners;
  if (codim == 0) corners = rc;
  else if (codim == dl) corners = rc.col(i);
  else {
    corners.resize(2, 2);
    corners << rc.col(i), rc.col((i + 1) % nc);
  }
  auto sub = s.geo->SubGeometry(codim, i);
  CHECK(sub != nullptr, "null", who);
  g.nontrivial(dl == 2 && codim == 1);
  CheckEqualMap(g, *sub, s, corners, "SubGeometry", who);
  if (s.affine) CHECK(sub->isAffine(), "affine flag of sub-entity", who);
  if (dl == 2 && codim == 1) {
    // end points of an edge, obtained through the edge
    const int j = g.i(0, 1);
    auto subsub = sub->SubGeometry(1, j);
    CheckEqualMap(g, *subsub, s, rc.col((i + j) % nc), "SubGeometry of SubGeometry", who);
  }
}

static std::vector<double> Areas(const lf::geometry::Geometry &geo, int n) {
  Mat q;
  Vec w;
  RefQuad(geo.RefEl(), n, q, w);
  const Vec I = geo.IntegrationElement(q);
  std::vector<double> r;
  double mn = 1e300;
  for (int k = 0; k < w.size(); ++k) mn = std::min(mn, I(k));
  r.push_back(w.dot(I));
  r.push_back(mn);
  return r;
}

PBT_SUB("children", 90000, 2000000,
        "random shape x random refinement pattern x anchor x lattice resolution, every child of every codimension at random points; "
        "non-trivial: pattern splits something") {
  const int kind = static_cast<int>(g.raw(kNumKinds));
  Shape s = RandShape(g, kind);
  const int dl = s.dimL();
  std::vector<const PatCase *> ok;
  for (const auto &c : AllPatterns())
    if (c.type == s.type) ok.push_back(&c);
  const PatCase &pc = *g.pick(ok);
  const int na = dl == 2 ? static_cast<int>(s.type.NumSubEntities(1)) : 1;
  const int anchor = g.i(0, na - 1);
  const unsigned N = 6u * (g.b(0.6) ? 1 : static_cast<unsigned>(g.i(1, 12)));
  const LatticePattern rp = dl == 2 ? LatticePattern(pc.type, pc.pat, anchor, N) : LatticePattern(pc.type, pc.pat, N);
  g.nontrivial(!pc.split.empty());
  g.label(std::string("pattern ") + PatName(pc.pat));
  double vol = 0;
  double pv = 0;
  // regular second order planar shapes: determinant bounded away from zero on a fine grid
  bool regular = true;
  if (dl == 2 && s.order == 2 && s.dimG() == 2) {
    double mn = 1e300;
    double mx = -1e300;
    for (int a = 0; a <= 12; ++a)
      for (int b = 0; b <= (s.type == RefEl::kTria() ? 12 - a : 12); ++b) {
        const double d = s.jac((Vec(2) << a / 12.0, b / 12.0).finished()).determinant();
        mn = std::min(mn, d);
        mx = std::max(mx, d);
      }
    regular = (mn > 0.05 * mx && mn > 0) || (mx < 0 && mx < 0.05 * mn);
    g.label(regular ? "regular curved cell" : "folded curved cell");
  }
  const int nq = s.order == 2 ? 6 : 3;
  for (int codim = 0; codim <= dl; ++codim) {
    const auto polys = rp.ChildPolygons(codim);
    auto ch = s.geo->ChildGeometry(rp, codim);
    const std::string who0 = s.kind + " " + PatName(pc.pat) + " anchor " + std::to_string(anchor) + " lattice " + std::to_string(N) +
                             " codim " + std::to_string(codim);
    CHECK(ch.size() == polys.size(), "number of children", who0);
    for (size_t k = 0; k < ch.size(); ++k) {
      const std::string who = who0 + " child " + std::to_string(k);
      CHECK(ch[k] != nullptr, "null child", who);
      const Mat corners = dl == 0 ? Mat(0, 1) : Mat(polys[k].cast<double>() / N);
      const RefEl t = TypeOf(dl == 0 ? 1 : static_cast<int>(corners.cols()));
      CHECK(ch[k]->RefEl() == t, "child type", who);
      // is the restriction of the parent map to the child representable by the child?
      auto axis = [&](const Mat &c) {
        for (int e = 0; e + 1 < c.cols() + (c.cols() > 2 ? 1 : 0); ++e) {
          const Vec d = c.col((e + 1) % c.cols()) - c.col(e);
          if (std::abs(d(0)) > 1e-12 && std::abs(d(1)) > 1e-12) return false;
        }
        return true;
      };
      bool exact = s.affine || t == RefEl::kPoint() || s.type == RefEl::kSegment();
      if (s.kind == "TriaO2") exact = true;
      if (s.type == RefEl::kQuad() && !s.affine && t != RefEl::kPoint()) exact = axis(corners) && t != RefEl::kTria();
      if (exact) {
        CheckEqualMap(g, *ch[k], s, corners, "child shape", who);
      } else {
        // corners (and midpoints of the sides for second order) are images of lattice points
        const Mat rn = Ref(t, s.order == 2 ? 2 : 1).nodes;
        const Mat Q = PolyMap(corners, rn);
        Mat X(s.dimG(), rn.cols());
        for (int l = 0; l < rn.cols(); ++l) X.col(l) = s.map(Q.col(l));
        CHECK_MAT(ch[k]->Global(rn), X, 1e-12 * CoordScale(s.nodes), "child nodes", who);
      }
      if (s.order == 1 && t == RefEl::kTria()) CHECK(ch[k]->isAffine(), "approximation order of child", who);
      if (dl == 2 && codim == 0) {
        const auto a = Areas(*ch[k], nq);
        CHECK(a[1] > 0 || !regular, "degenerate child", who);
        vol += a[0];
      }
      if (dl == 1 && codim == 0) vol += Areas(*ch[k], 4)[0];
    }
  }
  // total volume: for shapes on which the construction is exact
  const bool vol_exact = (dl == 1 && s.order == 1) || (dl == 1 && s.dimG() == 1) ||
                         (dl == 2 && (s.affine || (s.dimG() == 2 && s.kind != "QuadO2" && regular)));
  if (vol_exact) {
    pv = Areas(*s.geo, nq)[0];
    const double cs = CoordScale(s.nodes);
    CHECK_NEAR(vol, pv, 1e-11 * std::pow(cs, dl) + 1e-10 * pv, "volume of children", s.kind << " " << PatName(pc.pat));
  }
}
