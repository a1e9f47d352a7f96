// C09: refinement bookkeeping links parents and children truthfully
#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

namespace {
struct Topo {
  std::vector<std::vector<int>> ce;
  std::vector<RefEl> type;
};
Topo Read(const lf::mesh::Mesh &m) {
  Topo t;
  for (const auto *c : m.Entities(0)) {
    std::vector<int> e;
    for (const auto *s : c->SubEntities(1)) e.push_back(static_cast<int>(m.Index(*s)));
    t.ce.push_back(e);
    t.type.push_back(c->RefEl());
  }
  return t;
}
const PatCase *FindPat(RefEl t, RefPat p) {
  for (const auto &c : AllPatterns())
    if (c.type == t && c.pat == p) return &c;
  return nullptr;
}
/// documented initial choice: a longest edge (midpoint speed)
bool IsLongest(const lf::mesh::Entity &c, unsigned k) {
  double mx = 0;
  double lk = 0;
  unsigned i = 0;
  for (const auto *e : c.SubEntities(1)) {
    const double l = e->Geometry()->IntegrationElement(Mat::Constant(1, 1, 0.5))(0);
    mx = std::max(mx, l);
    if (i == k) lk = l;
    ++i;
  }
  return lk >= mx * (1 - 1e-9);
}

void CheckStep(pbt::G &g, const HMesh &m, const MeshHierarchy &mh, unsigned lf, const RefStep &st) {
  const unsigned lc = lf - 1;
  const auto cm = mh.getMesh(lc);
  const auto fm = mh.getMesh(lf);
  const Topo T = Read(*cm);
  const double cs = CoordScale(m.X);
  const double tol = 1e-11 * cs;
  const int nE = static_cast<int>(cm->NumEntities(1));
  const std::string who = "levels " + std::to_string(lc) + "->" + std::to_string(lf);
  const auto &re = mh.RefinementEdges(lc);
  CHECK(re.size() == T.ce.size(), "RefinementEdges size", who);
  for (size_t c = 0; c < T.ce.size(); ++c) {
    if (T.type[c] == RefEl::kTria()) CHECK(re[c] < 3, "refinement edge of a triangle", who << " cell " << c);
  }
  // --- closure
  std::vector<char> split(nE, 0);
  if (st.uniform) std::fill(split.begin(), split.end(), 1);
  else {
    split = st.marks;
    for (bool again = true; again;) {
      again = false;
      for (size_t c = 0; c < T.ce.size(); ++c) {
        if (T.type[c] != RefEl::kTria()) continue;
        bool any = false;
        for (int e : T.ce[c]) any = any || split[e];
        if (any && !split[T.ce[c][re[c]]]) {
          split[T.ce[c][re[c]]] = 1;
          again = true;
        }
      }
    }
  }
  const auto &pci = mh.PointChildInfos(lc);
  const auto &eci = mh.EdgeChildInfos(lc);
  const auto &cci = mh.CellChildInfos(lc);
  CHECK(pci.size() == cm->NumEntities(2) && eci.size() == cm->NumEntities(1) && cci.size() == cm->NumEntities(0), "child info size", who);
  int extra = 0;
  for (int e = 0; e < nE; ++e) {
    CHECK(eci[e].ref_pat_ == (split[e] ? RefPat::rp_split : RefPat::rp_copy), split[e] ? "edge not split although required" : "edge split although not required",
          who << " edge " << e << (st.uniform || !st.marks[e] ? " (unmarked)" : " (marked)"));
    if (!st.uniform && split[e] && !st.marks[e]) ++extra;
  }
  if (extra) g.label("closure splits extra edges");
  for (const auto &p : pci) CHECK(p.ref_pat == RefPat::rp_copy, "point pattern", who);
  // --- parents and children; owner[codim][child] counts
  std::vector<int> owner[3];
  for (int cd = 0; cd < 3; ++cd) {
    owner[cd].assign(fm->NumEntities(cd), 0);
    CHECK(mh.ParentInfos(lf, cd).size() == fm->NumEntities(cd), "ParentInfos size", who);
  }
  auto check_child = [&](int cd, unsigned idx, const lf::mesh::Entity *parent, unsigned pidx, unsigned number, const IMat *poly, int lattice) {
    const std::string w2 = who + " child codim " + std::to_string(cd) + " index " + std::to_string(idx) + " number " + std::to_string(number) + " of " +
                           parent->RefEl().ToString() + " " + std::to_string(pidx);
    CHECK(idx < owner[cd].size(), "child index out of range", w2);
    CHECK(owner[cd][idx]++ == 0, "entity is child of two parents", w2);
    const auto &pi = mh.ParentInfos(lf, cd)[idx];
    CHECK(pi.parent_ptr == parent, "parent pointer", w2);
    CHECK(pi.parent_index == pidx, "parent index", w2 << " recorded " << pi.parent_index);
    CHECK(pi.child_number == number, "child number", w2 << " recorded " << pi.child_number);
    const auto *ch = fm->EntityByIndex(cd, idx);
    CHECK(mh.ParentEntity(lf, *ch) == parent, "ParentEntity", w2);
    const auto *rg = mh.GeometryInParent(lf, *ch);
    CHECK(rg != nullptr && rg == pi.rel_ref_geo_.get(), "GeometryInParent", w2);
    CHECK(rg->RefEl() == ch->RefEl(), "relative geometry type", w2);
    CHECK(rg->DimGlobal() == parent->RefEl().Dimension(), "relative geometry dimension", w2);
    const Mat nc = ch->RefEl().NodeCoords();
    if (poly == nullptr) {
      const Mat q = rg->Global(Mat(0, 1));
      CHECK(q.rows() == 0, "relative geometry of a copied point", w2);
      CHECK_MAT(Mat(ch->Geometry()->Global(Mat(0, 1))), Mat(parent->Geometry()->Global(Mat(0, 1))), 0.0, "copied point moved", w2);
      return;
    }
    const Mat want = poly->cast<double>() / lattice;
    CHECK(want.cols() == ch->RefEl().NumNodes(), "child type", w2);
    CHECK_MAT(Mat(rg->Global(nc)), want, 1e-14, "relative geometry", w2);
    // world position of corners
    CHECK_MAT(Mat(ch->Geometry()->Global(nc)), Mat(parent->Geometry()->Global(want)), tol, "child corners not at the place in the parent", w2);
    // child inside parent: reference coordinates
    for (int k = 0; k < want.cols(); ++k) {
      CHECK(want.col(k).minCoeff() >= 0 && want.col(k).maxCoeff() <= 1, "outside parent", w2);
      if (parent->RefEl() == RefEl::kTria()) CHECK(want.col(k).sum() <= 1 + 1e-14, "outside parent", w2);
    }
    // all points: exact for affine parents, edges, and second-order triangles
    bool exact = parent->RefEl() == RefEl::kSegment() || parent->Geometry()->isAffine() || parent->RefEl() == RefEl::kTria();
    if (parent->RefEl() == RefEl::kQuad() && ch->RefEl() == RefEl::kQuad()) {
      // axis-parallel sub-rectangles
      exact = true;
      for (int k = 0; k < 4; ++k) {
        const Vec d = want.col((k + 1) % 4) - want.col(k);
        exact = exact && std::abs(d(0) * d(1)) < 1e-14;
      }
    }
    if (exact && ch->RefEl().Dimension() > 0) {
      Mat p = RandRefPoints(g, ch->RefEl(), 2);
      CHECK_MAT(Mat(ch->Geometry()->Global(p)), Mat(parent->Geometry()->Global(rg->Global(p))), tol, "relative geometry does not compose to the child's shape", w2);
    }
  };
  for (unsigned k = 0; k < pci.size(); ++k) check_child(2, pci[k].child_point_idx, cm->EntityByIndex(2, k), k, 0, nullptr, 1);
  for (unsigned k = 0; k < eci.size(); ++k) {
    const auto *p = cm->EntityByIndex(1, k);
    if (!split[k]) {
      const IMat whole = (IMat(1, 2) << 0, 1).finished();
      CHECK(eci[k].child_edge_idx.size() == 1 && eci[k].child_point_idx.empty(), "children of a copied edge", who << " edge " << k);
      check_child(1, eci[k].child_edge_idx[0], p, k, 0, &whole, 1);
    } else {
      const IMat a = (IMat(1, 2) << 0, 1).finished();
      const IMat b = (IMat(1, 2) << 1, 2).finished();
      const IMat c = (IMat(1, 1) << 1).finished();
      CHECK(eci[k].child_edge_idx.size() == 2 && eci[k].child_point_idx.size() == 1, "children of a split edge", who << " edge " << k);
      check_child(1, eci[k].child_edge_idx[0], p, k, 0, &a, 2);
      check_child(1, eci[k].child_edge_idx[1], p, k, 1, &b, 2);
      check_child(2, eci[k].child_point_idx[0], p, k, 0, &c, 2);
    }
  }
  const auto &fre = mh.RefinementEdges(lf);
  CHECK(fre.size() == fm->NumEntities(0), "RefinementEdges size", who);
  for (unsigned k = 0; k < cci.size(); ++k) {
    const auto *p = cm->EntityByIndex(0, k);
    const RefEl t = T.type[k];
    const int n = static_cast<int>(T.ce[k].size());
    const auto &ci = cci[k];
    const std::string w2 = who + " " + t.ToString() + " " + std::to_string(k) + " pattern " + PatName(ci.ref_pat_);
    // the pattern splits exactly the sides that are split
    const PatCase *pc = FindPat(t, ci.ref_pat_);
    CHECK(pc != nullptr, "cell pattern", w2);
    if (st.uniform) CHECK(ci.ref_pat_ == st.pat, "uniform pattern", w2);
    else CHECK(ci.ref_pat_ != RefPat::rp_barycentric, "cell pattern", w2);
    std::set<int> a;
    std::set<int> b;
    for (int s = 0; s < n; ++s)
      if (split[T.ce[k][s]]) a.insert(s);
    if (pc->needs_anchor) CHECK(ci.anchor_ < static_cast<unsigned>(n), "anchor", w2);
    for (int s : pc->split) b.insert((s + (pc->needs_anchor ? static_cast<int>(ci.anchor_) : 0)) % n);
    CHECK(a == b, "pattern does not match the split sides", w2);
    if (t == RefEl::kTria() && pc->needs_anchor) CHECK(ci.anchor_ == re[k], "anchor is not the refinement edge", w2);
    g.label(t.ToString() + " " + PatName(ci.ref_pat_));
    const Hybrid2DRefinementPattern rp(t, ci.ref_pat_, pc->needs_anchor ? ci.anchor_ : lf::base::sub_idx_t(-1));
    const std::vector<IMat> pol[3] = {rp.ChildPolygons(0), rp.ChildPolygons(1), rp.ChildPolygons(2)};
    const std::vector<unsigned> *lists[3] = {&ci.child_cell_idx, &ci.child_edge_idx, &ci.child_point_idx};
    for (int cd = 0; cd < 3; ++cd) {
      CHECK(lists[cd]->size() == pol[cd].size(), "number of children", w2 << " codim " << cd);
      for (unsigned j = 0; j < pol[cd].size(); ++j) check_child(cd, (*lists[cd])[j], p, k, j, &pol[cd][j], static_cast<int>(rp.LatticeConst()));
    }
    // refinement edges of the children where the rule is determined geometrically
    for (unsigned j = 0; j < ci.child_cell_idx.size(); ++j) {
      const unsigned fc = ci.child_cell_idx[j];
      const auto *ch = fm->EntityByIndex(0, fc);
      if (ch->RefEl() != RefEl::kTria()) continue;
      CHECK(fre[fc] < 3, "refinement edge of a child triangle", w2 << " child " << j);
      if (t == RefEl::kQuad() || ci.ref_pat_ == RefPat::rp_barycentric) {
        CHECK(IsLongest(*ch, fre[fc]), "refinement edge is not the longest edge", w2 << " child " << j);
        continue;
      }
      // reference coordinates of the chosen edge
      const Mat q = pol[0][j].cast<double>() / rp.LatticeConst();
      const Vec d = q.col((fre[fc] + 1) % 3) - q.col(fre[fc]);
      const Mat R = t.NodeCoords();
      const Vec pd = R.col((re[k] + 1) % 3) - R.col(re[k]);
      if (ci.ref_pat_ == RefPat::rp_copy || ci.ref_pat_ == RefPat::rp_regular) {
        CHECK(std::abs(d(0) * pd(1) - d(1) * pd(0)) < 1e-12, "refinement edge not inherited", w2 << " child " << j);
      } else if (ci.ref_pat_ == RefPat::rp_bisect) {
        // newest vertex bisection: the edge opposite to the new vertex
        const Vec mid = R.col(re[k]) + 0.5 * pd;
        CHECK((q.col((fre[fc] + 2) % 3) - mid).norm() < 1e-12, "refinement edge not opposite to the new vertex", w2 << " child " << j);
      }
    }
  }
  for (int cd = 0; cd < 3; ++cd)
    for (size_t k = 0; k < owner[cd].size(); ++k) CHECK(owner[cd][k] == 1, "entity without parent", who << " codim " << cd << " index " << k);
}
}  // namespace

PBT_SUB("bookkeeping", 6000, 80000,
        "random hybrid mesh (straight or curved, 2D/3D) and 1..6 refinement steps; after every step all parent/child records, patterns, anchors, "
        "relative geometries and refinement edges of the new level against an independent closure computation; older records are re-checked at the "
        "end; non-trivial: 2+ steps, or a step that splits edges") {
  MeshOpt o;
  o.max_n = 3;
  o.allow_curved = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  auto mh = MakeHierarchy(m);
  HistOpt ho;
  ho.max_steps = 6;
  ho.max_cells = 200;
  const int n = g.i(1, ho.max_steps);
  // level 0
  for (int cd = 0; cd < 3; ++cd)
    for (const auto &p : mh->ParentInfos(0, cd)) CHECK(p.parent_ptr == nullptr, "coarsest level has parents", cd);
  for (const auto *c : m.mesh->Entities(0))
    if (c->RefEl() == RefEl::kTria()) {
      const unsigned re = mh->RefinementEdges(0)[m.mesh->Index(*c)];
      CHECK(re < 3 && IsLongest(*c, re), "initial refinement edge is not a longest edge", m.mesh->Index(*c) << " edge " << re);
    }
  std::vector<RefStep> steps;
  for (int k = 0; k < n; ++k) {
    RefStep st;
    if (!RandRefine(g, *mh, ho, st)) break;
    steps.push_back(st);
    CheckStep(g, m, *mh, mh->NumLevels() - 1, st);
    // the new finest level has no children yet
    for (const auto &c : mh->CellChildInfos(mh->NumLevels() - 1)) CHECK(c.ref_pat_ == RefPat::rp_nil && c.child_cell_idx.empty(), "finest level has children", "");
    if (std::count(st.marks.begin(), st.marks.end(), 1) > 0 || st.uniform) g.nontrivial();
  }
  if (steps.empty()) throw pbt::Discard{};
  if (steps.size() >= 2) {
    g.nontrivial();
    CheckStep(g, m, *mh, 1, steps[0]);
  }
  // illegal queries
  const auto *e0 = m.mesh->EntityByIndex(0, 0);
  if (g.b(0.1)) {
    CHECK(pbt::Rejects([&] { (void)mh->ParentEntity(0, *e0); }), "ParentEntity on level 0 accepted", "");
    CHECK(pbt::Rejects([&] { (void)mh->GeometryInParent(0, *e0); }), "GeometryInParent on level 0 accepted", "");
    CHECK(pbt::Rejects([&] { mh->RefineRegular(RefPat::rp_copy); }), "RefineRegular with other patterns accepted", "");
    CHECK(pbt::Rejects([&] { (void)mh->getMesh(mh->NumLevels()); }), "level out of range accepted", "");
  }
}
