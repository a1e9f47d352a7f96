// C10: transferring functions to finer levels preserves them
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "gen/fespace.h"
#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

namespace {
Mat InnerPoints(pbt::G &g, RefEl t, int n) {
  Mat p(t.Dimension(), n);
  for (int k = 0; k < n; ++k) {
    double x = g.r(0.05, 0.95);
    double y = g.r(0.05, 0.95);
    if (t == RefEl::kTria()) {
      x *= 0.9;
      y = 0.02 + (0.96 - x) * y;
    }
    if (t.Dimension() > 0) p(0, k) = x;
    if (t.Dimension() > 1) p(1, k) = y;
  }
  return p;
}
/// true if the map of the child is exactly the restriction of the parent's map
bool ExactStep(const MeshHierarchy &mh, unsigned lv, const lf::mesh::Entity &e) {
  const auto *p = mh.ParentEntity(lv, e);
  if (p->RefEl().Dimension() < 2 || e.RefEl().Dimension() == 0 || p->RefEl() == RefEl::kTria()) return true;
  {  // parallelograms up to round-off
    const Mat c = p->Geometry()->Global(RefEl::kQuad().NodeCoords());
    const Mat mid = p->Geometry()->Global((Mat(2, 4) << 0.5, 1, 0.5, 0, 0, 0.5, 1, 0.5).finished());
    double d = (c.col(0) - c.col(1) + c.col(2) - c.col(3)).norm();
    for (int k = 0; k < 4; ++k) d += (mid.col(k) - 0.5 * (c.col(k) + c.col((k + 1) % 4))).norm();
    if (d < 1e-13 * CoordScale(c)) return true;
  }
  const Mat q = mh.GeometryInParent(lv, e)->Global(e.RefEl().NodeCoords());
  const int n = static_cast<int>(q.cols());
  if (n == 3) return false;
  for (int k = 0; k < n; ++k) {
    const Vec d = q.col((k + 1) % n) - q.col(k);
    if (std::abs(d(0) * d(1)) > 1e-14) return false;
  }
  return true;
}
bool ExactChain(const MeshHierarchy &mh, unsigned lf, unsigned lc, const lf::mesh::Entity &e) {
  const lf::mesh::Entity *p = &e;
  for (unsigned l = lf; l > lc; --l) {
    if (!ExactStep(mh, l, *p)) return false;
    p = mh.ParentEntity(l, *p);
  }
  return true;
}
struct Pair {
  unsigned lc, lf;
};
Pair RandLevels(pbt::G &g, const MeshHierarchy &mh) {
  const unsigned L = mh.NumLevels();
  Pair p;
  p.lc = static_cast<unsigned>(g.i(0, static_cast<int>(L) - 2));
  p.lf = static_cast<unsigned>(g.i(static_cast<int>(p.lc) + 1, static_cast<int>(L) - 1));
  g.desc() << "levels " << p.lc << "->" << p.lf << "; ";
  return p;
}
std::vector<const lf::mesh::Entity *> Pick(pbt::G &g, const lf::mesh::Mesh &m, int cd, int n) {
  std::vector<const lf::mesh::Entity *> r;
  const int N = static_cast<int>(m.NumEntities(cd));
  if (N <= n) {
    for (const auto *e : m.Entities(cd)) r.push_back(e);
  } else {
    for (int k = 0; k < n; ++k) r.push_back(m.EntityByIndex(cd, g.i(0, N - 1)));
  }
  return r;
}
}  // namespace

PBT_SUB("global functions", 6000, 60000,
        "position-dependent function on a level of a random history (straight, curved, 2D/3D, also non-affine quadrilaterals), transferred over 1..4 "
        "levels in one go or by nested transfers, evaluated in entities of all codimensions; oracle: the function at the physical point (where child "
        "shapes are exact restrictions; vertices otherwise); non-trivial: some edge was split between the levels") {
  MeshOpt o;
  o.max_n = 3;
  o.allow_curved = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 4;
  ho.max_cells = 150;
  auto mh = RandHistory(g, m, ho);
  const Pair lv = RandLevels(g, *mh);
  const Vec a = (Vec(3) << g.num(2), g.num(2), g.num(2)).finished() / CoordScale(m.X);
  auto f = [&](const Eigen::VectorXd &x) { return std::sin(a(0) * x(0) + a(1) * x(1)) + a(2) * x(x.size() - 1); };
  const lf::mesh::utils::MeshFunctionGlobal mf(f);
  const MeshFunctionTransfer tr(*mh, mf, lv.lc, lv.lf);
  const auto fm = std::as_const(*mh).getMesh(lv.lf);
  CHECK(tr.getMesh() == fm, "getMesh", "must be the mesh of the fine level");
  if (fm->NumEntities(2) > mh->getMesh(lv.lc)->NumEntities(2)) g.nontrivial();
  for (int cd = 0; cd < 3; ++cd)
    for (const auto *e : Pick(g, *fm, cd, 8)) {
      const bool exact = ExactChain(*mh, lv.lf, lv.lc, *e);
      if (!exact && lv.lf - lv.lc > 1) continue;
      Mat p = exact ? RandRefPoints(g, e->RefEl(), g.i(1, 3)) : Mat(e->RefEl().NodeCoords());
      if (cd == 2) p = Mat(0, 1);
      const auto v = tr(*e, p);
      CHECK(v.size() == static_cast<size_t>(p.cols()), "number of values", cd);
      const Mat x = e->Geometry()->Global(p);
      for (int k = 0; k < p.cols(); ++k) CHECK_NEAR(v[k], f(x.col(k)), 1e-10, "transferred value", "codim " << cd << " entity " << fm->Index(*e) << " point " << Str(p.col(k)));
    }
}

PBT_SUB("finite element functions", 5000, 50000,
        "random coefficient vector in a random space (Lagrange 1..3, hierarchic up to degree 5, mixed degrees) on a level of a random history of an "
        "affine mesh; value, gradient and cell index after transfer against direct evaluation of the coarse function in the coarse cells that contain "
        "the physical point (point location by inverting the affine map); non-trivial: at least 2 levels apart or partial refinement") {
  MeshOpt o;
  o.max_n = 3;
  o.affine_only = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 4;
  ho.max_cells = 150;
  std::vector<RefStep> steps;
  auto mh = RandHistory(g, m, ho, &steps);
  const Pair lv = RandLevels(g, *mh);
  for (unsigned l = lv.lc; l < lv.lf; ++l) g.nontrivial(!steps[l].uniform);
  g.nontrivial(lv.lf - lv.lc >= 2);
  const auto cm = std::as_const(*mh).getMesh(lv.lc);
  const auto fm = std::as_const(*mh).getMesh(lv.lf);
  // coarse meshes may contain non-affine children (trapezoids): skip those
  for (const auto *c : cm->Entities(0))
    if (!c->Geometry()->isAffine()) throw pbt::Discard{};
  Space S = RandSpace(g, cm, 1, 5);
  const Vec u = RandCoeffs(g, static_cast<int>(S.s->LocGlobMap().NumDofs()));
  const lf::fe::MeshFunctionFE mf(S.s, u);
  const lf::fe::MeshFunctionGradFE gf(S.s, u);
  const auto cidx = [&](const lf::mesh::Entity &e, const Mat &l) { return std::vector<int>(l.cols(), static_cast<int>(cm->Index(e))); };
  const MeshFunctionTransfer tr(*mh, mf, lv.lc, lv.lf);
  CHECK(tr.getMesh() == fm, "getMesh", "must be the mesh of the fine level");
  const MeshFunctionTransfer tg(*mh, gf, lv.lc, lv.lf);
  const MeshFunctionTransfer ti(*mh, cidx, lv.lc, lv.lf);
  auto compare = [&](const auto &t, const char *key) {
    for (int cd = 0; cd < 3; ++cd)
      for (const auto *e : Pick(g, *fm, cd, 6)) {
        Mat p = RandRefPoints(g, e->RefEl(), g.i(1, 3));
        if (cd == 2) p = Mat(0, 1);
        const Mat x = e->Geometry()->Global(p);
        const auto v = t(*e, p);
        CHECK(v.size() == static_cast<size_t>(p.cols()), "number of values", cd);
        for (int k = 0; k < p.cols(); ++k) {
          const auto hits = Locate(*cm, x.col(k));
          CHECK(!hits.empty(), "fine point outside the coarse mesh", Str(x.col(k)));
          for (const auto &h : hits)
            CHECK_NEAR(v[k], mf(*h.first, h.second)[0], 1e-7 * (1 + u.cwiseAbs().maxCoeff()), key,
                       "codim " << cd << " entity " << fm->Index(*e) << " coarse cell " << cm->Index(*h.first));
        }
      }
  };
  compare(tr, "transferred value");
  if (lv.lf - lv.lc >= 2) {  // nested transfers
    const unsigned mid = static_cast<unsigned>(g.i(static_cast<int>(lv.lc) + 1, static_cast<int>(lv.lf) - 1));
    const MeshFunctionTransfer t1(*mh, mf, lv.lc, mid);
    const MeshFunctionTransfer<decltype(t1)> t2(*mh, t1, mid, lv.lf);
    CHECK(t2.getMesh() == fm, "getMesh", "nested");
    compare(t2, "nested transferred value");
    g.label("nested transfer");
  }
  for (const auto *e : Pick(g, *fm, 0, 6)) {
    const Mat p = InnerPoints(g, e->RefEl(), 2);
    const Mat x = e->Geometry()->Global(p);
    const auto v = tg(*e, p);
    const auto w = ti(*e, p);
    for (int k = 0; k < 2; ++k) {
      const auto hits = Locate(*cm, x.col(k));
      CHECK(!hits.empty(), "fine point outside the coarse mesh", Str(x.col(k)));
      if (hits.size() > 1) continue;  // on the boundary of a coarse cell only up to round-off
      CHECK(w[k] == static_cast<int>(cm->Index(*hits[0].first)), "transfer evaluates another coarse cell", w[k]);
      const auto r = gf(*hits[0].first, hits[0].second)[0];
      CHECK_MAT(Vec(v[k]), Vec(r), 1e-7 * (1 + u.cwiseAbs().maxCoeff()) * (1 + r.norm()), "transferred gradient", "cell " << fm->Index(*e));
    }
  }
  // illegal levels
  if (g.b(0.05)) {
    CHECK(pbt::Rejects([&] { const MeshFunctionTransfer t(*mh, mf, lv.lc, lv.lc); }), "fine level not finer accepted", "");
    CHECK(pbt::Rejects([&] { const MeshFunctionTransfer t(*mh, mf, lv.lc, mh->NumLevels()); }), "fine level out of range accepted", "");
    CHECK(pbt::Rejects([&] { const MeshFunctionTransfer t(*mh, mf, lv.lc == 0 ? 1 : 0, mh->NumLevels() - 1); }), "wrong coarse level accepted", "");
  }
}

PBT_SUB("prolongation", 5000, 50000,
        "coefficient vector of a random coarse space, prolonged to a random finer space containing it (degree raised where quadrilaterals are split into "
        "other shapes) on affine meshes and curved triangular meshes; the two functions must agree at random points of every cell and edge; "
        "prolongation is repeated over all levels; non-trivial: edges are split and degree >= 2 or different space types") {
  MeshOpt o;
  o.max_n = 2;
  o.allow_3d = true;
  const bool curved = g.b(0.25);
  if (curved) {
    o.tri_only = true;
    o.allow_curved = true;
  } else {
    o.affine_only = true;
  }
  HMesh m = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 3;
  ho.max_cells = 60;
  std::vector<RefStep> steps;
  auto mh = RandHistory(g, m, ho, &steps);
  const unsigned start = static_cast<unsigned>(g.i(0, static_cast<int>(mh->NumLevels()) - 2));
  auto cm = std::as_const(*mh).getMesh(start);
  for (const auto *c : cm->Entities(0))
    if (c->RefEl() == RefEl::kQuad() && !c->Geometry()->isAffine()) throw pbt::Discard{};
  Space S = RandSpace(g, cm, 1, 3);
  Vec u = RandCoeffs(g, static_cast<int>(S.s->LocGlobMap().NumDofs()));
  for (unsigned l = start; l + 1 < mh->NumLevels(); ++l) {
    const auto fm = std::as_const(*mh).getMesh(l + 1);
    int lo = S.pmax;
    for (const auto *c : fm->Entities(0)) {
      const auto *p = mh->ParentEntity(l + 1, *c);
      if (p->RefEl() == RefEl::kQuad() && (c->RefEl() == RefEl::kTria() || !c->Geometry()->isAffine())) lo = 2 * S.pmax;
      if (p->RefEl() == RefEl::kQuad() && !p->Geometry()->isAffine()) lo = 100;  // not exactly representable
    }
    if (lo > 6) break;
    Space F = RandSpace(g, fm, lo, std::min(6, lo + 2));
    Vec w;
    w = lf::fe::prolongate(*mh, S.s, F.s, u, l);
    CHECK(w.size() == F.s->LocGlobMap().NumDofs(), "size of prolonged vector", w.size());
    const lf::fe::MeshFunctionFE mc(S.s, u);
    const lf::fe::MeshFunctionFE mf(F.s, w);
    if (fm->NumEntities(2) > cm->NumEntities(2) && (S.pmax >= 2 || F.name != S.name)) g.nontrivial();
    const double tol = 1e-9 * (1 + u.cwiseAbs().maxCoeff() * S.pmax);
    for (int cd = 0; cd < 3; ++cd)
      for (const auto *e : fm->Entities(cd)) {
        const Mat p = cd == 2 ? Mat(0, 1) : RandRefPoints(g, e->RefEl(), 2);
        const auto *par = mh->ParentEntity(l + 1, *e);
        const auto a = mf(*e, p);
        const auto b = mc(*par, mh->GeometryInParent(l + 1, *e)->Global(p));
        for (size_t k = 0; k < a.size(); ++k) CHECK_NEAR(a[k], b[k], tol, "prolonged function differs", S.name << " -> " << F.name << " codim " << cd << " entity " << fm->Index(*e));
      }
    if (!curved) {
      for (int r = 0; r < 4; ++r) {
        const auto *e = fm->EntityByIndex(0, g.i(0, static_cast<int>(fm->NumEntities(0)) - 1));
        const Mat p = RandRefPoints(g, e->RefEl(), 1);
        for (const auto &h : Locate(*cm, e->Geometry()->Global(p)))
          CHECK_NEAR(mf(*e, p)[0], mc(*h.first, h.second)[0], 1e3 * tol, "prolonged function differs at the physical point", S.name << " -> " << F.name);
      }
    }
    S = F;
    u = w;
    cm = fm;
    if (S.pmax > 3) break;
  }
}

PBT_SUB("boundary points", 1500, 15000,
        "position-dependent function on curved meshes, transferred over 1..3 levels and evaluated on the boundary of the reference elements (equidistant "
        "points of the sides as used by Lagrangian interpolation, and random ones): always defined and equal to the function at the physical point; non-trivial: some edge was split") {
  MeshOpt o;
  o.max_n = 1;
  o.allow_curved = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 3;
  ho.max_cells = 60;
  auto mh = RandHistory(g, m, ho);
  const Pair lv = RandLevels(g, *mh);
  const Vec a = (Vec(3) << g.num(2), g.num(2), g.num(2)).finished() / CoordScale(m.X);
  auto f = [&](const Eigen::VectorXd &x) { return std::sin(a(0) * x(0) + a(1) * x(1)) + a(2) * x(x.size() - 1); };
  const lf::mesh::utils::MeshFunctionGlobal mf(f);
  const MeshFunctionTransfer tr(*mh, mf, lv.lc, lv.lf);
  const auto fm = std::as_const(*mh).getMesh(lv.lf);
  if (fm->NumEntities(2) > mh->getMesh(lv.lc)->NumEntities(2)) g.nontrivial();
  const int q = g.i(2, 9);
  for (int cd = 0; cd < 2; ++cd)
    for (const auto *e : fm->Entities(cd)) {
      std::vector<double> ts;
      for (int k = 0; k <= q; ++k) ts.push_back(static_cast<double>(k) / q);
      ts.push_back(g.r(0, 1));
      Mat p;
      if (cd == 1) {
        p = Mat(1, ts.size());
        for (size_t k = 0; k < ts.size(); ++k) p(0, k) = ts[k];
      } else {
        const Mat c = e->RefEl().NodeCoords();
        const int n = static_cast<int>(c.cols());
        p = Mat(2, n * ts.size());
        for (int s = 0; s < n; ++s)
          for (size_t k = 0; k < ts.size(); ++k) p.col(s * ts.size() + k) = c.col(s) * (1 - ts[k]) + c.col((s + 1) % n) * ts[k];
        p = p.cwiseMax(0.0).cwiseMin(1.0).eval();
      }
      const bool exact = ExactChain(*mh, lv.lf, lv.lc, *e);
      const auto v = tr(*e, p);
      CHECK(v.size() == static_cast<size_t>(p.cols()), "number of values", cd);
      if (!exact) continue;
      const Mat x = e->Geometry()->Global(p);
      for (int k = 0; k < p.cols(); ++k) CHECK_NEAR(v[k], f(x.col(k)), 1e-10, "transferred value", "codim " << cd << " entity " << fm->Index(*e) << " point " << Str(p.col(k)));
    }
}
