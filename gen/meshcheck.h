// Extraction of a mesh through its public interface with consistency checks on the way.
#ifndef VERIF_MESHCHECK_H
#define VERIF_MESHCHECK_H
#include <lf/mesh/mesh.h>

#include <map>
#include <set>

#include "gen/shapes.h"

namespace gen {
struct View {
  int dim = 2;
  Mat X;                              // node positions
  std::vector<std::array<int, 2>> en; // edge -> nodes
  std::vector<std::vector<int>> cn;   // cell -> nodes
  std::vector<std::vector<int>> ce;   // cell -> edges
  std::vector<std::vector<std::pair<int, int>>> ec;  // edge -> (cell, local)
  std::vector<std::vector<int>> nc;   // node -> cells
  std::vector<std::vector<int>> ne;   // node -> edges
  bool Boundary(int e) const { return ec[e].size() == 1; }
};

inline Vec NodePos(const lf::mesh::Entity &n) { return n.Geometry()->Global(Mat(0, 1)); }

/// Reads a mesh; every structural and geometric inconsistency is a failure.
inline View ReadMesh(const lf::mesh::Mesh &mesh, bool check_geo = true, pbt::G *g = nullptr) {
  using lf::base::RefEl;
  View v;
  CHECK(mesh.DimMesh() == 2, "DimMesh", mesh.DimMesh());
  v.dim = static_cast<int>(mesh.DimWorld());
  unsigned tot[3] = {mesh.NumEntities(0u), mesh.NumEntities(1u), mesh.NumEntities(2u)};
  CHECK(mesh.NumEntities(RefEl::kTria()) + mesh.NumEntities(RefEl::kQuad()) == tot[0], "NumEntities by type", "cells");
  CHECK(mesh.NumEntities(RefEl::kSegment()) == tot[1], "NumEntities by type", "edges");
  CHECK(mesh.NumEntities(RefEl::kPoint()) == tot[2], "NumEntities by type", "points");
  unsigned nt = 0;
  std::set<const lf::mesh::Entity *> all;
  for (unsigned c = 0; c <= 2; ++c) {
    const auto ents = mesh.Entities(c);
    CHECK(ents.size() == tot[c], "Entities size", "codim " << c);
    unsigned k = 0;
    for (const auto *e : ents) {
      CHECK(e != nullptr, "null entity", "codim " << c << " index " << k);
      CHECK(e->Codim() == c, "Codim", "codim " << c << " index " << k);
      CHECK(e->RefEl().Dimension() + c == 2, "RefEl dimension", "codim " << c << " index " << k);
      CHECK(mesh.Index(*e) == k, "Index", "codim " << c << " position " << k << " has index " << mesh.Index(*e));
      CHECK(mesh.EntityByIndex(c, k) == e, "EntityByIndex", "codim " << c << " index " << k);
      CHECK(mesh.Contains(*e), "Contains", "codim " << c << " index " << k);
      CHECK(all.insert(e).second, "entity listed twice", "codim " << c << " index " << k);
      CHECK(*e == *e, "entity equality", "");
      CHECK(e->Geometry() != nullptr, "missing geometry", "codim " << c << " index " << k);
      CHECK(e->Geometry()->RefEl() == e->RefEl(), "geometry type", "codim " << c << " index " << k);
      CHECK(static_cast<int>(e->Geometry()->DimGlobal()) == v.dim, "geometry DimGlobal", "codim " << c << " index " << k);
      const auto self = e->SubEntities(0);
      CHECK(self.size() == 1 && self[0] == e, "SubEntities(0)", "codim " << c << " index " << k);
      for (unsigned s = 1; s <= e->RefEl().Dimension(); ++s) {
        CHECK(e->SubEntities(s).size() == e->RefEl().NumSubEntities(s), "SubEntities size", "codim " << c << " index " << k << " sub " << s);
        for (const auto *q : e->SubEntities(s)) {
          CHECK(q != nullptr && q->Codim() == c + s, "SubEntities codim", "codim " << c << " index " << k);
          CHECK(mesh.Contains(*q) && mesh.EntityByIndex(c + s, mesh.Index(*q)) == q, "SubEntities belong to mesh", "codim " << c << " index " << k);
        }
      }
      if (c == 0 && e->RefEl() == RefEl::kTria()) ++nt;
      ++k;
    }
  }
  CHECK(nt == mesh.NumEntities(RefEl::kTria()), "NumEntities(tria)", nt);
  v.X.resize(v.dim, tot[2]);
  v.nc.resize(tot[2]);
  v.ne.resize(tot[2]);
  for (unsigned k = 0; k < tot[2]; ++k) {
    const Mat p = mesh.EntityByIndex(2, k)->Geometry()->Global(Mat(0, 1));
    CHECK(p.cols() == 1 && p.rows() == v.dim, "point geometry", k);
    v.X.col(k) = p;
  }
  const double cs = CoordScale(v.X) + 1e-300;
  const double tol = 1e-12 * cs;
  std::set<std::pair<int, int>> keys;
  for (unsigned k = 0; k < tot[1]; ++k) {
    const auto *e = mesh.EntityByIndex(1, k);
    const int a = static_cast<int>(mesh.Index(*e->SubEntities(1)[0]));
    const int b = static_cast<int>(mesh.Index(*e->SubEntities(1)[1]));
    v.en.push_back({a, b});
    CHECK(a != b, "loop edge", k);
    CHECK(keys.insert({std::min(a, b), std::max(a, b)}).second, "duplicate edge", a << "-" << b);
    v.ne[a].push_back(k);
    v.ne[b].push_back(k);
    const Mat c = lf::geometry::Corners(*e->Geometry());
    CHECK_MAT(c.col(0), v.X.col(a), tol, "edge geometry start", "edge " << k);
    CHECK_MAT(c.col(1), v.X.col(b), tol, "edge geometry end", "edge " << k);
  }
  v.ec.resize(tot[1]);
  for (unsigned k = 0; k < tot[0]; ++k) {
    const auto *e = mesh.EntityByIndex(0, k);
    std::vector<int> n;
    std::vector<int> ed;
    for (const auto *s : e->SubEntities(2)) n.push_back(static_cast<int>(mesh.Index(*s)));
    for (const auto *s : e->SubEntities(1)) ed.push_back(static_cast<int>(mesh.Index(*s)));
    const int m = static_cast<int>(n.size());
    CHECK(std::set<int>(n.begin(), n.end()).size() == n.size(), "repeated cell node", k);
    const auto ori = e->RelativeOrientations();
    CHECK(static_cast<int>(ori.size()) == m, "RelativeOrientations size", k);
    const Mat c = lf::geometry::Corners(*e->Geometry());
    for (int l = 0; l < m; ++l) {
      CHECK_MAT(c.col(l), v.X.col(n[l]), tol, "cell corner", "cell " << k << " corner " << l);
      v.nc[n[l]].push_back(k);
      const auto &en = v.en[ed[l]];
      const int p = n[l];
      const int q = n[(l + 1) % m];
      CHECK((en[0] == p && en[1] == q) || (en[0] == q && en[1] == p), "cell side", "cell " << k << " side " << l);
      const bool pos = en[0] == p;
      CHECK((ori[l] == lf::mesh::Orientation::positive) == pos, "relative orientation", "cell " << k << " side " << l);
      CHECK(lf::mesh::to_sign(ori[l]) == (pos ? 1 : -1), "to_sign", "cell " << k << " side " << l);
      v.ec[ed[l]].push_back({static_cast<int>(k), l});
      if (check_geo) {
        // the edge's own shape equals the trace of the cell's shape
        const double ts[3] = {0.25, 0.5, g ? g->r(0.0, 1.0) : 0.8125};
        auto side = e->Geometry()->SubGeometry(1, l);
        for (double t : ts) {
          const Mat a = Mat::Constant(1, 1, pos ? t : 1 - t);
          const Mat b = Mat::Constant(1, 1, t);
          CHECK_MAT(e->SubEntities(1)[l]->Geometry()->Global(a), side->Global(b), tol, "edge shape differs from the side of the cell",
                    "cell " << k << " side " << l << " t " << t);
          // reference coordinates of the point in the cell
          const Mat rc = e->RefEl().NodeCoords();
          const Mat x = (1 - t) * rc.col(l) + t * rc.col((l + 1) % m);
          CHECK_MAT(e->Geometry()->Global(x), side->Global(b), tol, "side shape", "cell " << k << " side " << l);
        }
      }
    }
    v.cn.push_back(n);
    v.ce.push_back(ed);
  }
  for (unsigned k = 0; k < tot[1]; ++k) CHECK(!v.ec[k].empty() && v.ec[k].size() <= 2, "edge adjacency", "edge " << k << " has " << v.ec[k].size() << " cells");
  return v;
}

/// Signed areas; total area of a planar mesh (Gauss quadrature of the volume element, exact for straight cells)
inline double MeshArea(const lf::mesh::Mesh &mesh) {
  double a = 0;
  Mat q;
  Vec w;
  for (const auto *c : mesh.Entities(0)) {
    RefQuad(c->RefEl(), 3, q, w);
    a += w.dot(c->Geometry()->IntegrationElement(q));
  }
  return a;
}
}  // namespace gen
#endif
