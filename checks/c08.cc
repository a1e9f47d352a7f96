// C08: every refinement history yields conforming meshes of the same domain
#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

namespace {
struct Level {
  View v;
  std::vector<Mat> curve;  // edge: start, mid, end
  double area = 0;
  bool folded = false;
};
double SignedMin(const lf::mesh::Entity &c, pbt::G &g) {
  // orientation of the map at several points; 0 if it changes
  Mat p(2, 6);
  p.leftCols(3) << 0.05, 0.9, 0.05, 0.05, 0.05, 0.9;
  for (int k = 3; k < 6; ++k) {
    double x = g.r(0, 1);
    double y = g.r(0, 1);
    if (c.RefEl() == RefEl::kTria() && x + y > 1) {
      x = 1 - x;
      y = 1 - y;
    }
    p.col(k) << x, y;
  }
  const Mat J = c.Geometry()->Jacobian(p);
  double s = 0;
  for (int k = 0; k < 6; ++k) {
    const double d = J.block(0, 2 * k, 2, 2).determinant();
    if (s == 0) s = d > 0 ? 1 : -1;
    if (!(d * s > 0)) return 0;
  }
  return s;
}
/// admissible for curved refinement: the Jacobian determinant varies moderately over every cell
void RequireMild(const lf::mesh::Mesh &mesh) {
  for (const auto *c : mesh.Entities(0)) {
    std::vector<Vec> pts;
    for (int i = 0; i <= 6; ++i)
      for (int j = 0; j <= 6; ++j)
        if (c->RefEl() == RefEl::kQuad() || i + j <= 6) pts.push_back((Vec(2) << i / 6.0, j / 6.0).finished());
    double lo = 1e300;
    double hi = -1e300;
    for (const auto &p : pts) {
      const Mat J = c->Geometry()->Jacobian(p);
      const double d = J.rows() == 2 ? J.determinant() : c->Geometry()->IntegrationElement(p)(0);
      lo = std::min(lo, d);
      hi = std::max(hi, d);
    }
    if (hi < 0) {
      std::swap(lo, hi);
      lo = -lo;
      hi = -hi;
    }
    if (!(lo > 0.5 * hi)) throw pbt::Discard{};
  }
}
Level Read(const lf::mesh::Mesh &mesh, pbt::G &g, bool curved) {
  Level L;
  L.v = ReadMesh(mesh, true, &g);
  Mat t(1, 3);
  t << 0, 0.5, 1;
  for (const auto *e : mesh.Entities(1)) L.curve.push_back(e->Geometry()->Global(t));
  for (const auto *c : mesh.Entities(0)) {
    CHECK(c->Geometry()->IntegrationElement(Mat::Constant(2, 1, 0.3)).minCoeff() > 0, "degenerate cell", mesh.Index(*c));
    if (L.v.dim == 2) {
      const bool ok = SignedMin(*c, g) != 0;
      // interpolated children of strongly curved quadrilaterals may fold; straight cells never do
      CHECK(ok || curved, "cell map changes orientation", mesh.Index(*c));
      L.folded = L.folded || !ok;
    }
  }
  if (L.v.dim == 2) L.area = MeshArea(mesh);
  return L;
}
bool Inside(const Vec &p, const View &v, int c, double *dist) {
  const auto &n = v.cn[c];
  bool in = false;
  double d = 1e300;
  for (size_t i = 0, j = n.size() - 1; i < n.size(); j = i++) {
    const Vec a = v.X.col(n[i]);
    const Vec b = v.X.col(n[j]);
    if ((a(1) > p(1)) != (b(1) > p(1)) && p(0) < (b(0) - a(0)) * (p(1) - a(1)) / (b(1) - a(1)) + a(0)) in = !in;
    const double s = std::clamp((p - a).dot(b - a) / (b - a).squaredNorm(), 0.0, 1.0);
    d = std::min(d, (p - a - s * (b - a)).norm());
  }
  *dist = std::min(*dist, d);
  return in;
}
}  // namespace

PBT_SUB("history", 6000, 80000,
        "random hybrid mesh (straight or curved, 2D/3D, holes, annular) and 1..6 refinement steps (regular, barycentric, 7 families of marked edge "
        "sets); after every step the finest mesh is read and checked for conformity, unchanged domain and refined boundary; non-trivial: some step "
        "of the history splits some but not all edges, or there are 2+ levels") {
  MeshOpt o;
  o.max_n = 3;
  o.allow_curved = true;
  o.allow_3d = true;
  o.allow_null_edge_geo = true;
  HMesh m = RandMesh(g, o);
  auto mh = MakeHierarchy(m);
  HistOpt ho;
  ho.max_steps = 6;
  ho.max_cells = 260;
  const int n = g.i(1, ho.max_steps);
  if (m.curved) RequireMild(*m.mesh);
  Level prev = Read(*m.mesh, g, m.curved);
  const Level base = prev;
  const int euler = static_cast<int>(base.v.X.cols()) - static_cast<int>(base.v.en.size()) + static_cast<int>(base.v.cn.size());
  const double cs = CoordScale(base.v.X);
  const double tol = 1e-11 * cs;
  for (int k = 0; k < n; ++k) {
    RefStep st;
    if (!RandRefine(g, *mh, ho, st)) break;
    const unsigned lv = mh->NumLevels() - 1;
    CHECK(lv == static_cast<unsigned>(k + 1), "NumLevels", lv);
    const auto mesh = mh->getMesh(lv);
    Level cur = Read(*mesh, g, m.curved);
    const std::string who = "level " + std::to_string(lv);
    CHECK(cur.v.dim == base.v.dim, "DimWorld", who);
    // distinct nodes
    const int nn = static_cast<int>(cur.v.X.cols());
    std::vector<int> ord(nn);
    for (int i = 0; i < nn; ++i) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return cur.v.X(0, a) < cur.v.X(0, b); });
    auto find = [&](const Vec &p) {
      int lo = static_cast<int>(std::lower_bound(ord.begin(), ord.end(), p(0) - tol, [&](int a, double x) { return cur.v.X(0, a) < x; }) - ord.begin());
      std::vector<int> r;
      for (; lo < nn && cur.v.X(0, ord[lo]) <= p(0) + tol; ++lo)
        if ((cur.v.X.col(ord[lo]) - p).norm() <= tol) r.push_back(ord[lo]);
      return r;
    };
    for (int i = 0; i < nn; ++i) CHECK(find(cur.v.X.col(i)).size() == 1, "duplicate node", who << " node " << i << " at " << Str(cur.v.X.col(i)));
    // every node belongs to a cell
    for (int i = 0; i < nn; ++i) CHECK(!cur.v.nc[i].empty(), "isolated node", who << " node " << i);
    // edges of the coarser level reappear whole or halved
    std::map<std::pair<int, int>, int> emap;
    for (size_t e = 0; e < cur.v.en.size(); ++e) emap[{std::min(cur.v.en[e][0], cur.v.en[e][1]), std::max(cur.v.en[e][0], cur.v.en[e][1])}] = static_cast<int>(e);
    auto edge = [&](int a, int b) {
      auto it = emap.find({std::min(a, b), std::max(a, b)});
      return it == emap.end() ? -1 : it->second;
    };
    int nb = 0;
    int nsplit = 0;
    std::set<int> used;
    for (size_t e = 0; e < prev.v.en.size(); ++e) {
      const Mat &c = prev.curve[e];
      const auto A = find(c.col(0));
      const auto B = find(c.col(2));
      const auto M = find(c.col(1));
      CHECK(A.size() == 1 && B.size() == 1, "coarse node lost", who << " edge " << e);
      std::vector<std::pair<int, double>> pieces;  // fine edge, coarse parameter of its midpoint
      const int whole = edge(A[0], B[0]);
      if (M.empty()) {
        CHECK(whole >= 0, "coarse edge lost", who << " edge " << e);
        pieces = {{whole, 0.5}};
      } else {
        const int p = edge(A[0], M[0]);
        const int q = edge(M[0], B[0]);
        CHECK(p >= 0 && q >= 0, "coarse edge lost", who << " edge " << e);
        CHECK(whole < 0, "edge both whole and split", who << " edge " << e);
        pieces = {{p, 0.25}, {q, 0.75}};
        ++nsplit;
      }
      const bool bd = prev.v.Boundary(static_cast<int>(e));
      const auto *ce = mh->getMesh(lv - 1)->EntityByIndex(1, static_cast<unsigned>(e));
      for (const auto &pc : pieces) {
        CHECK(used.insert(pc.first).second, "fine edge covers two coarse edges", who);
        CHECK(cur.v.Boundary(pc.first) == bd, "boundary not inherited", who << " coarse edge " << e << (bd ? " boundary" : " interior"));
        nb += bd;
        CHECK_MAT(cur.curve[pc.first].col(1), ce->Geometry()->Global(Mat::Constant(1, 1, pc.second)), tol, "edge piece leaves coarse edge", who << " edge " << e);
      }
    }
    int nbf = 0;
    for (size_t e = 0; e < cur.v.en.size(); ++e) nbf += cur.v.Boundary(static_cast<int>(e));
    CHECK(nb == nbf, "spurious boundary edges", who << ": " << nbf << " boundary edges, refined boundary has " << nb);
    if (st.uniform) CHECK(nsplit == static_cast<int>(prev.v.en.size()), "uniform refinement splits all edges", who);
    const int eu = nn - static_cast<int>(cur.v.en.size()) + static_cast<int>(cur.v.cn.size());
    CHECK(eu == euler, "Euler characteristic", who << " " << eu << " vs " << euler);
    if (cur.v.dim == 2 && !cur.folded) CHECK_NEAR(cur.area, base.area, 1e-10 * base.area + 1e-12 * cs * cs, "area", who);
    if (lv >= 2 || (nsplit > 0 && nsplit < static_cast<int>(prev.v.en.size()))) g.nontrivial();
    if (nsplit > 0 && nsplit < static_cast<int>(prev.v.en.size())) g.label("partial refinement");
    // point location on straight planar meshes: every point of the domain lies in exactly one cell
    if (cur.v.dim == 2 && !m.curved) {
      for (int r = 0; r < 12; ++r) {
        const int c = g.i(0, static_cast<int>(base.v.cn.size()) - 1);
        double x = g.r(0.01, 0.99);
        double y = g.r(0.01, 0.99);
        if (base.v.cn[c].size() == 3 && x + y > 1) {
          x = 1 - x;
          y = 1 - y;
        }
        const Vec p = m.mesh->EntityByIndex(0, c)->Geometry()->Global((Mat(2, 1) << x, y).finished());
        int hit = 0;
        double dist = 1e300;
        for (size_t f = 0; f < cur.v.cn.size(); ++f) hit += Inside(p, cur.v, static_cast<int>(f), &dist);
        if (dist > 1e-9 * cs) CHECK(hit == 1, "cells overlap or leave a gap", who << " point " << Str(p) << " lies in " << hit << " cells");
      }
    }
    prev = std::move(cur);
  }
  if (mh->NumLevels() < 2) throw pbt::Discard{};
  // coarser meshes are untouched
  const View b2 = ReadMesh(*mh->getMesh(0), false);
  CHECK(b2.cn == base.v.cn && b2.en == base.v.en && b2.X == base.v.X, "base mesh changed", "");
  CHECK(mh->getMesh(0) == m.mesh, "level 0 mesh", "");
  const auto all = mh->getMeshes();
  CHECK(all.size() == mh->NumLevels(), "getMeshes", "");
  for (unsigned l = 0; l < all.size(); ++l) CHECK(all[l] == mh->getMesh(l), "getMeshes", l);
}

PBT_SUB("uniform hierarchy", 3000, 30000,
        "GenerateMeshHierarchyByUniformRefinemnt with 0..3 levels: level count, cell/edge/node counts and mesh area of every level; non-trivial: at "
        "least one refinement") {
  MeshOpt o;
  o.max_n = 2;
  o.allow_curved = true;
  HMesh m = RandMesh(g, o);
  if (m.curved) RequireMild(*m.mesh);
  const int lev = g.i(0, m.cells.size() > 4 ? 2 : 3);
  const RefPat pat = g.b(0.4) ? RefPat::rp_barycentric : RefPat::rp_regular;
  g.nontrivial(lev > 0);
  auto mh = g.b(0.2) && pat == RefPat::rp_regular ? GenerateMeshHierarchyByUniformRefinemnt(m.mesh, lev) : GenerateMeshHierarchyByUniformRefinemnt(m.mesh, lev, pat);
  CHECK(mh->NumLevels() == static_cast<unsigned>(lev + 1), "NumLevels", lev);
  double area = 0;
  for (int l = 0; l <= lev; ++l) {
    const auto mesh = mh->getMesh(l);
    ReadMesh(*mesh, true, &g);
    const double a = MeshArea(*mesh);
    if (l == 0) area = a;
    else {
      const auto cm = mh->getMesh(l - 1);
      const unsigned T = cm->NumEntities(RefEl::kTria());
      const unsigned Q = cm->NumEntities(RefEl::kQuad());
      const unsigned E = cm->NumEntities(1);
      const unsigned N = cm->NumEntities(2);
      const unsigned tk = pat == RefPat::rp_regular ? 4 : 6;
      CHECK(mesh->NumEntities(RefEl::kTria()) == tk * T && mesh->NumEntities(RefEl::kQuad()) == 4 * Q, "cell counts", l);
      CHECK(mesh->NumEntities(2) == N + E + Q + (tk == 6 ? T : 0), "node count", l);
      CHECK(mesh->NumEntities(1) == 2 * E + 4 * Q + (tk == 6 ? 6 : 3) * T, "edge count", l);
      CHECK_NEAR(a, area, 1e-10 * area, "area", "level " << l);
    }
  }
}
