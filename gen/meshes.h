// Random conforming hybrid meshes with full ground truth (independent of the library's mesh classes).
#ifndef VERIF_MESHES_H
#define VERIF_MESHES_H
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>

#include <algorithm>
#include <map>
#include <set>

#include "gen/shapes.h"

namespace gen {
struct MeshOpt {
  int max_n = 4;            // cells per direction
  bool tri_only = false;
  bool quad_only = false;
  bool affine_only = false; // triangles and parallelograms
  bool allow_curved = false;
  bool force_curved = false;
  bool allow_3d = false;
  bool allow_flip = true;   // clockwise cells
  bool allow_holes = true;
  bool allow_wrap = true;   // annular topology
  bool unit_scale = false;  // keep coordinates of order one
  bool allow_null_geo = true;
  bool allow_explicit_edges = true;
  bool allow_null_edge_geo = false;
  bool rotate = true;       // arbitrary first vertex of a cell
  bool permute = true;      // arbitrary numbering of nodes and cells
  double perturb = 0.22;
};

struct MCell {
  std::vector<int> v;
  std::vector<int> e;  // own edge ids, side k joins v[k], v[k+1]
  int geo = 1;         // 0 none, 1 first order, 2 second order, 3 parallelogram
};
struct MEdge {
  int a = 0, b = 0;  // a < b
  bool curved = false;
  Vec mid;
  std::vector<std::pair<int, int>> cells;  // (cell, side)
};
struct MExp {
  int edge = 0;
  int first = 0;  // first node
  int geo = 1;    // 0 none, 1, 2
};

struct HMesh {
  int dim = 2;
  Mat X;
  std::vector<MCell> cells;
  std::vector<MEdge> edges;
  std::map<std::pair<int, int>, int> eid;
  std::vector<MExp> expl;
  bool curved = false;
  double scale = 1.0;
  std::shared_ptr<lf::mesh::Mesh> mesh;

  static lf::base::RefEl CellType(const MCell &c) { return c.v.size() == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad(); }
  Vec Mid(int e) const { return edges[e].curved ? edges[e].mid : Vec(0.5 * (X.col(edges[e].a) + X.col(edges[e].b))); }
  /// defining nodes of a cell for the given order
  Mat CellNodes(int c, int order) const {
    const MCell &C = cells[c];
    const int n = C.v.size();
    Mat m(dim, order == 2 ? 2 * n : n);
    for (int k = 0; k < n; ++k) m.col(k) = X.col(C.v[k]);
    if (order == 2)
      for (int k = 0; k < n; ++k) m.col(n + k) = Mid(C.e[k]);
    return m;
  }
  int CellOrder(int c) const { return cells[c].geo == 2 ? 2 : 1; }
  /// true parametrisation of a cell
  Vec CellMap(int c, const Vec &x) const { return CellNodes(c, CellOrder(c)) * Ref(CellType(cells[c]), CellOrder(c)).eval(x); }
  Mat CellJac(int c, const Vec &x) const { return CellNodes(c, CellOrder(c)) * Ref(CellType(cells[c]), CellOrder(c)).grad(x); }
  /// point on an edge, parameter from node `from`
  Vec EdgeMap(int e, int from, double t) const {
    const MEdge &E = edges[e];
    const Vec p = X.col(from);
    const Vec q = X.col(from == E.a ? E.b : E.a);
    const Vec m = Mid(e);
    return p * (1 - t) * (1 - 2 * t) + m * 4 * t * (1 - t) + q * t * (2 * t - 1);
  }
  void MakeEdges() {
    edges.clear();
    eid.clear();
    for (size_t c = 0; c < cells.size(); ++c) {
      auto &C = cells[c];
      const int n = C.v.size();
      C.e.assign(n, -1);
      for (int k = 0; k < n; ++k) {
        const int a = std::min(C.v[k], C.v[(k + 1) % n]);
        const int b = std::max(C.v[k], C.v[(k + 1) % n]);
        auto it = eid.find({a, b});
        if (it == eid.end()) {
          it = eid.insert({{a, b}, static_cast<int>(edges.size())}).first;
          MEdge E;
          E.a = a;
          E.b = b;
          edges.push_back(E);
        }
        C.e[k] = it->second;
        edges[it->second].cells.push_back({static_cast<int>(c), k});
      }
    }
  }
  std::unique_ptr<lf::geometry::Geometry> CellGeo(int c) const {
    using namespace lf::geometry;
    const bool tri = cells[c].v.size() == 3;
    switch (cells[c].geo) {
      case 0: return nullptr;
      case 1:
        if (tri) return std::make_unique<TriaO1>(CellNodes(c, 1));
        return std::make_unique<QuadO1>(CellNodes(c, 1));
      case 2:
        if (tri) return std::make_unique<TriaO2>(CellNodes(c, 2));
        return std::make_unique<QuadO2>(CellNodes(c, 2));
      default: return std::make_unique<Parallelogram>(CellNodes(c, 1));
    }
  }
  std::unique_ptr<lf::geometry::Geometry> EdgeGeo(const MExp &x) const {
    using namespace lf::geometry;
    const MEdge &E = edges[x.edge];
    const int o = x.first == E.a ? E.b : E.a;
    if (x.geo == 0) return nullptr;
    if (x.geo == 1) {
      Mat m(dim, 2);
      m << X.col(x.first), X.col(o);
      return std::make_unique<SegmentO1>(m);
    }
    Mat m(dim, 3);
    m << X.col(x.first), X.col(o), Mid(x.edge);
    return std::make_unique<SegmentO2>(m);
  }
  /// builds the library mesh; order: points, then edges and cells interleaved by `mix`
  void Build(pbt::G *g = nullptr) {
    lf::mesh::hybrid2d::MeshFactory f(dim);
    for (int k = 0; k < X.cols(); ++k) {
      const unsigned idx = f.AddPoint(Vec(X.col(k)));
      CHECK(idx == static_cast<unsigned>(k), "AddPoint index", k);
    }
    size_t ie = 0;
    size_t ic = 0;
    while (ie < expl.size() || ic < cells.size()) {
      const bool edge = ic >= cells.size() || (ie < expl.size() && (g == nullptr || !g->b()));
      if (edge) {
        const MExp &x = expl[ie];
        const MEdge &E = edges[x.edge];
        const std::array<lf::base::size_type, 2> nn = {static_cast<unsigned>(x.first), static_cast<unsigned>(x.first == E.a ? E.b : E.a)};
        const unsigned idx = f.AddEntity(lf::base::RefEl::kSegment(), nn, EdgeGeo(x));
        CHECK(idx == ie, "AddEntity edge index", ie);
        ++ie;
      } else {
        std::vector<lf::base::size_type> nn(cells[ic].v.begin(), cells[ic].v.end());
        const unsigned idx = f.AddEntity(CellType(cells[ic]), nn, CellGeo(static_cast<int>(ic)));
        CHECK(idx == ic, "AddEntity cell index", ic);
        ++ic;
      }
    }
    mesh = f.Build();
  }
  double Diam() const { return (X.rowwise().maxCoeff() - X.rowwise().minCoeff()).norm(); }
  std::string Describe() const {
    std::ostringstream o;
    o << "mesh dim " << dim << " nodes [" << Str(X) << "] cells";
    for (const auto &c : cells) {
      o << " (";
      for (size_t k = 0; k < c.v.size(); ++k) o << (k ? "," : "") << c.v[k];
      o << "|g" << c.geo << ")";
    }
    if (!expl.empty()) {
      o << " edges";
      for (const auto &x : expl) o << " (" << x.first << "," << (edges[x.edge].a == x.first ? edges[x.edge].b : edges[x.edge].a) << "|g" << x.geo << ")";
    }
    for (size_t e = 0; e < edges.size(); ++e)
      if (edges[e].curved) o << " mid{" << edges[e].a << "," << edges[e].b << "}=[" << Str(edges[e].mid.transpose()) << "]";
    return o.str();
  }
  int NumQuads() const {
    int n = 0;
    for (const auto &c : cells) n += c.v.size() == 4;
    return n;
  }
};

inline HMesh RandMesh(pbt::G &g, const MeshOpt &o) {
  HMesh m;
  const bool wrap = o.allow_wrap && !o.affine_only && g.b(0.12);
  const int nx = wrap ? g.i(4, std::max(4, o.max_n + 3)) : g.i(1, o.max_n);
  const int ny = g.i(1, wrap ? 2 : o.max_n);
  const int ncol = wrap ? nx : nx + 1;
  std::vector<Vec> P;
  for (int j = 0; j <= ny; ++j)
    for (int i = 0; i < ncol; ++i) P.push_back((Vec(2) << i, j).finished());
  auto id = [&](int i, int j) { return j * ncol + (wrap ? i % nx : i); };
  std::vector<std::vector<int>> cl;
  std::vector<std::vector<int>> dropped;  // removed cells (their place must stay free)
  const double holes = (o.allow_holes && g.b(0.3)) ? 0.3 : 0.0;
  const double trip = o.tri_only ? 1.0 : (o.quad_only ? 0.0 : (g.b(0.25) ? (g.b() ? 0.0 : 1.0) : 0.5));
  std::vector<char> fixed(P.size(), 0);  // nodes of parallelogram cells (affine_only)
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      if (holes > 0 && g.b(holes) && (cl.size() > 0 || i + 1 < nx || j + 1 < ny)) {
        dropped.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
        continue;
      }
      const int a = id(i, j);
      const int b = id(i + 1, j);
      const int c = id(i + 1, j + 1);
      const int d = id(i, j + 1);
      if (trip > 0 && (trip >= 1.0 || g.b(trip))) {
        const int mode = static_cast<int>(g.raw(wrap ? 4 : 5));
        if (mode <= 1) {
          cl.push_back({a, b, c});
          cl.push_back({a, c, d});
        } else if (mode <= 3) {
          cl.push_back({a, b, d});
          cl.push_back({b, c, d});
        } else {
          P.push_back((Vec(2) << i + 0.5, j + 0.5).finished());
          fixed.push_back(0);
          const int z = static_cast<int>(P.size()) - 1;
          cl.push_back({a, b, z});
          cl.push_back({b, c, z});
          cl.push_back({c, d, z});
          cl.push_back({d, a, z});
        }
        if (holes > 0 && g.b(0.15) && cl.size() > 1) {
          dropped.push_back(cl.back());
          cl.pop_back();
        }
      } else {
        cl.push_back({a, b, c, d});
        fixed[a] = fixed[b] = fixed[c] = fixed[d] = 1;
      }
    }
  if (cl.empty()) cl.push_back({id(0, 0), id(1, 0), id(1, 1), id(0, 1)}), fixed.assign(P.size(), 1);
  if (o.tri_only && cl.size() == 1 && cl[0].size() == 4) {
    auto c = cl[0];
    cl = {{c[0], c[1], c[2]}, {c[0], c[2], c[3]}};
  }
  // perturbation
  const double pert = g.b(0.25) ? 0.0 : o.perturb;
  if (pert > 0)
    for (size_t k = 0; k < P.size(); ++k) {
      const double dx = g.r(0, pert) * (g.b() ? 1 : -1);
      const double dy = g.r(0, pert) * (g.b() ? 1 : -1);
      if (o.affine_only && fixed[k]) continue;
      const bool center = static_cast<int>(k) >= ncol * (ny + 1);
      P[k](0) += dx * (center ? 0.5 : 1.0);
      P[k](1) += dy * (center ? 0.5 : 1.0);
    }
  if (wrap) {
    for (auto &p : P) {
      const double th = 2 * M_PI * p(0) / nx;
      const double r = 1.5 + ny - p(1);
      p = (Vec(2) << r * std::cos(th), r * std::sin(th)).finished();
    }
  }
  // all cells must be properly oriented with margin (before any relabelling they are counter-clockwise)
  dropped.insert(dropped.end(), cl.begin(), cl.end());
  for (auto &c : dropped) {
    const int n = c.size();
    for (int k = 0; k < n; ++k) {
      const Vec u = P[c[(k + 1) % n]] - P[c[k]];
      const Vec w = P[c[(k + 2) % n]] - P[c[(k + 1) % n]];
      if (u(0) * w(1) - u(1) * w(0) < 0.05) throw pbt::Discard{};
    }
  }
  // overall affine map
  Mat A = Mat::Identity(2, 2);
  if (g.b(0.6)) {
    A(0, 1) = g.r(-0.5, 0.5);
    A(1, 1) = g.r(0.5, 1.5);
    const double th = g.r(0, 2 * M_PI);
    Mat R(2, 2);
    R << std::cos(th), -std::sin(th), std::sin(th), std::cos(th);
    A = R * A;
  }
  if (!o.unit_scale && g.b(0.3)) m.scale = g.b() ? 100.0 : 0.01;
  Vec t = Vec::Zero(2);
  if (g.b(0.5)) t << g.num(3), g.num(3);
  // used nodes, permutation
  std::vector<int> remap(P.size(), -1);
  std::vector<int> used;
  for (auto &c : cl)
    for (int v : c)
      if (remap[v] < 0) {
        remap[v] = static_cast<int>(used.size());
        used.push_back(v);
      }
  const int nn = static_cast<int>(used.size());
  std::vector<int> np = (o.permute && g.b(0.7)) ? g.perm(nn) : std::vector<int>();
  if (np.empty()) {
    // natural order
    std::vector<int> srt = used;
    std::sort(srt.begin(), srt.end());
    np.resize(nn);
    for (int k = 0; k < nn; ++k) np[remap[srt[k]]] = k;
  }
  m.dim = (o.allow_3d && g.b(0.2)) ? 3 : 2;
  m.X.resize(m.dim, nn);
  double ca[6];
  if (m.dim == 3)
    for (double &c : ca) c = g.r(-0.2, 0.2);
  auto world = [&](const Vec &p) {
    const Vec q = m.scale * (A * p + t);
    if (m.dim == 2) return Vec(q);
    Vec r(3);
    r << q, m.scale * (ca[0] * p(0) + ca[1] * p(1) + (o.affine_only ? 0.0 : 0.3 * (ca[2] * p(0) * p(0) + ca[3] * p(0) * p(1) + ca[4] * p(1) * p(1)))) ;
    return r;
  };
  for (int k = 0; k < nn; ++k) m.X.col(np[k]) = world(P[used[k]]);
  const int nc = static_cast<int>(cl.size());
  std::vector<int> cp = (o.permute && g.b(0.6)) ? g.perm(nc) : std::vector<int>();
  m.cells.resize(nc);
  for (int k = 0; k < nc; ++k) {
    MCell &C = m.cells[cp.empty() ? k : cp[k]];
    for (int v : cl[k]) C.v.push_back(np[remap[v]]);
  }
  if (o.rotate && g.b(0.7))
    for (auto &C : m.cells) {
      std::rotate(C.v.begin(), C.v.begin() + g.i(0, static_cast<int>(C.v.size()) - 1), C.v.end());
      if (o.allow_flip && g.b(0.3)) std::reverse(C.v.begin() + 1, C.v.end());
    }
  m.MakeEdges();
  // curved edges
  m.curved = o.force_curved || (o.allow_curved && g.b(0.4));
  if (m.curved)
    for (auto &E : m.edges) {
      if (g.b(0.3)) continue;
      E.curved = true;
      const Vec d = m.X.col(E.b) - m.X.col(E.a);
      E.mid = 0.5 * (m.X.col(E.a) + m.X.col(E.b));
      const double s = d.norm() * 0.07;
      for (int l = 0; l < m.dim; ++l) E.mid(l) += g.r(0, s) * (g.b() ? 1 : -1);
    }
  // shapes of cells
  for (int c = 0; c < nc; ++c) {
    MCell &C = m.cells[c];
    bool cur = false;
    for (int e : C.e) cur = cur || m.edges[e].curved;
    bool para = false;
    if (C.v.size() == 4) {
      const Vec r = m.X.col(C.v[0]) - m.X.col(C.v[1]) + m.X.col(C.v[2]) - m.X.col(C.v[3]);
      para = r.norm() < 1e-13 * CoordScale(m.X);
    }
    if (cur) C.geo = 2;
    else if (o.affine_only && C.v.size() == 4) C.geo = 3;
    else if (para && g.b(0.4)) C.geo = 3;
    else {
      C.geo = 1;
      if (o.allow_null_geo && m.dim == 2 && g.b(0.2)) C.geo = 0;
      if (m.curved && g.b(0.3)) C.geo = 2;
    }
  }
  // explicitly inserted edges
  if (o.allow_explicit_edges && g.b(0.5)) {
    std::vector<int> ids;
    const double frac = g.r(0.0, 1.0);
    for (size_t e = 0; e < m.edges.size(); ++e)
      if (g.b(frac)) ids.push_back(static_cast<int>(e));
    const auto pe = g.perm(static_cast<int>(ids.size()));
    for (int k : pe) {
      MExp x;
      x.edge = ids[k];
      x.first = g.b() ? m.edges[ids[k]].b : m.edges[ids[k]].a;
      x.geo = m.edges[ids[k]].curved ? 2 : ((m.curved && g.b(0.3)) ? 2 : 1);
      if (o.allow_null_edge_geo && g.b(0.3)) x.geo = 0;
      m.expl.push_back(x);
    }
  }
  m.Build(&g);
  g.label(std::string(m.dim == 3 ? "3D " : "") + (m.curved ? "curved " : "straight ") +
          (m.NumQuads() == 0 ? "triangles" : (m.NumQuads() == nc ? "quads" : "hybrid")) + (wrap ? " annular" : "") + (holes > 0 ? " with holes" : ""));
  g.desc() << m.Describe() << "; ";
  return m;
}

}  // namespace gen
#endif
