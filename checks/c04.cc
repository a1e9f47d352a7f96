// C04: structured mesh builders
#include <annulus_triag_mesh_builder.h>
#include <lf/mesh/utils/utils.h>

#include "gen/meshcheck.h"
#include "gen/meshes.h"
using namespace gen;
using lf::base::RefEl;
namespace lmu = lf::mesh::utils;

static std::unique_ptr<lf::mesh::MeshFactory> Fac(int d) { return std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d); }

struct Box {
  double x0, y0, x1, y1;
  unsigned nx, ny;
};
static Box RandBox(pbt::G &g, int maxn) {
  Box b;
  const double s = g.b(0.3) ? (g.b() ? 1e3 : 1e-3) : 1.0;
  b.x0 = s * g.num(4);
  b.y0 = s * g.num(4);
  b.x1 = b.x0 + s * g.r(0.05, 5);
  b.y1 = b.y0 + s * g.r(0.05, 5);
  b.nx = g.i(1, maxn);
  b.ny = g.i(1, maxn);
  if (g.b(0.1)) b.nx = g.i(1, 40);
  if (g.b(0.1)) b.ny = g.i(1, 40);
  return b;
}
template <class B>
static void Setup(pbt::G &g, B &b, const Box &x) {
  const std::vector<int> ord = g.perm(4);
  for (int k : ord) switch (k) {
      case 0:
        if (g.b()) b.setBottomLeftCorner(x.x0, x.y0);
        else b.setBottomLeftCorner(Eigen::Vector2d(x.x0, x.y0));
        break;
      case 1:
        if (g.b()) b.setTopRightCorner(x.x1, x.y1);
        else b.setTopRightCorner(Eigen::Vector2d(x.x1, x.y1));
        break;
      case 2: b.setNumXCells(x.nx); break;
      default: b.setNumYCells(x.ny);
    }
}
// true if seq is a lexicographic enumeration of the given grid positions (either direction fastest)
static bool Lexi(const std::vector<std::pair<int, int>> &seq, int na, int nb) {
  if (static_cast<int>(seq.size()) != na * nb) return false;
  bool rowfast = true;
  bool colfast = true;
  for (size_t k = 0; k < seq.size(); ++k) {
    rowfast = rowfast && seq[k] == std::make_pair(static_cast<int>(k) % na, static_cast<int>(k) / na);
    colfast = colfast && seq[k] == std::make_pair(static_cast<int>(k) / nb, static_cast<int>(k) % nb);
  }
  return rowfast || colfast;
}

static void CheckTP(pbt::G &g, const lf::mesh::Mesh &mesh, const Box &b, bool tria) {
  const View v = ReadMesh(mesh, true, &g);
  const int nx = b.nx;
  const int ny = b.ny;
  CHECK(v.dim == 2, "DimWorld", v.dim);
  CHECK(v.X.cols() == (nx + 1) * (ny + 1), "number of nodes", v.X.cols());
  CHECK(static_cast<int>(v.cn.size()) == nx * ny * (tria ? 2 : 1), "number of cells", v.cn.size());
  CHECK(static_cast<int>(v.en.size()) == nx * (ny + 1) + (nx + 1) * ny + (tria ? nx * ny : 0), "number of edges", v.en.size());
  const double tol = 1e-12 * (std::abs(b.x0) + std::abs(b.x1) + std::abs(b.y0) + std::abs(b.y1));
  auto pos = [&](int n) { return std::make_pair(n % (nx + 1), n / (nx + 1)); };
  for (int j = 0; j <= ny; ++j)
    for (int i = 0; i <= nx; ++i) {
      const Vec p = v.X.col(i + j * (nx + 1));
      CHECK_NEAR(p(0), b.x0 + (b.x1 - b.x0) * i / nx, tol, "node position", "x of node " << i << "," << j);
      CHECK_NEAR(p(1), b.y0 + (b.y1 - b.y0) * j / ny, tol, "node position", "y of node " << i << "," << j);
    }
  std::vector<std::pair<int, int>> seq;
  for (size_t c = 0; c < v.cn.size(); ++c) {
    int i0 = nx + 1;
    int j0 = ny + 1;
    int i1 = -1;
    int j1 = -1;
    std::set<std::pair<int, int>> rel;
    for (int n : v.cn[c]) {
      const auto p = pos(n);
      i0 = std::min(i0, p.first);
      j0 = std::min(j0, p.second);
      i1 = std::max(i1, p.first);
      j1 = std::max(j1, p.second);
    }
    CHECK(i1 == i0 + 1 && j1 == j0 + 1, "cell shape", "cell " << c << " is not part of one grid square");
    for (int n : v.cn[c]) rel.insert({pos(n).first - i0, pos(n).second - j0});
    if (tria) {
      CHECK(v.cn[c].size() == 3, "cell type", c);
      const std::set<std::pair<int, int>> sup = {{0, 0}, {1, 1}, {0, 1}};
      const std::set<std::pair<int, int>> sub = {{0, 0}, {1, 0}, {1, 1}};
      CHECK(rel == (c % 2 == 0 ? sup : sub), "cell numbering: super-diagonal even, sub-diagonal odd", "cell " << c);
      if (c % 2 == 0) seq.push_back({i0, j0});
      else CHECK(seq.back() == std::make_pair(i0, j0), "cell numbering: both halves of a square follow each other", "cell " << c);
    } else {
      CHECK(v.cn[c].size() == 4 && rel.size() == 4, "cell type", c);
      seq.push_back({i0, j0});
    }
    const auto *e = mesh.EntityByIndex(0, c);
    CHECK_NEAR(lf::geometry::Volume(*e->Geometry()), (b.x1 - b.x0) / nx * ((b.y1 - b.y0) / ny) * (tria ? 0.5 : 1.0),
               1e-11 * (b.x1 - b.x0) * (b.y1 - b.y0) + tol * ((b.x1 - b.x0) + (b.y1 - b.y0)), "cell volume", c);
  }
  if (tria) CHECK(Lexi(seq, nx, ny), "cells numbered lexicographically", "");
  else {
    std::set<std::pair<int, int>> s(seq.begin(), seq.end());
    CHECK(s.size() == seq.size(), "cells overlap", "");
  }
  std::vector<std::pair<int, int>> hs;
  std::vector<std::pair<int, int>> vs;
  int stage = 0;
  for (size_t e = 0; e < v.en.size(); ++e) {
    const auto p = pos(v.en[e][0]);
    const auto q = pos(v.en[e][1]);
    const int di = std::abs(p.first - q.first);
    const int dj = std::abs(p.second - q.second);
    const std::pair<int, int> lo = {std::min(p.first, q.first), std::min(p.second, q.second)};
    CHECK(di <= 1 && dj <= 1 && di + dj >= 1, "edge shape", e);
    const int kind = di == 1 && dj == 0 ? 0 : (di == 0 ? 1 : 2);
    if (kind == 2) CHECK(tria, "diagonal edge in a quadrilateral mesh", e);
    if (tria) {
      CHECK(kind >= stage, "edge numbering: horizontal, then vertical edges first", "edge " << e);
      stage = kind;
    }
    if (kind == 0) hs.push_back(lo);
    if (kind == 1) vs.push_back(lo);
    const bool bd = (kind == 0 && (lo.second == 0 || lo.second == ny)) || (kind == 1 && (lo.first == 0 || lo.first == nx));
    CHECK(v.Boundary(e) == bd, "boundary edges", "edge " << e);
  }
  if (tria) {
    CHECK(Lexi(hs, nx, ny + 1), "horizontal edges lexicographic", "");
    CHECK(Lexi(vs, nx + 1, ny), "vertical edges lexicographic", "");
  }
}

PBT_SUB("tensor product", 9000, 90000,
        "triangle and quadrilateral tensor-product builders: box of random position, size and scale, 1..40 cells per direction, setters in any "
        "order and overload; non-trivial: at least 2 cells in some direction") {
  const Box b = RandBox(g, 7);
  g.desc() << b.nx << "x" << b.ny << " cells on [" << b.x0 << "," << b.x1 << "]x[" << b.y0 << "," << b.y1 << "]";
  g.nontrivial(b.nx * b.ny > 1);
  const bool tria = g.b();
  g.label(tria ? "triangles" : "quads");
  std::shared_ptr<lf::mesh::Mesh> m;
  if (tria) {
    lmu::TPTriagMeshBuilder bu(Fac(2));
    Setup(g, bu, b);
    m = bu.Build();
  } else {
    lmu::TPQuadMeshBuilder bu(Fac(2));
    Setup(g, bu, b);
    m = bu.Build();
  }
  CHECK(m != nullptr, "Build returns a mesh", "");
  CheckTP(g, *m, b, tria);
}

PBT_SUB("degenerate requests", 4000, 20000,
        "tensor-product and torus builders with zero cells or empty/inverted box; non-trivial always; must not deliver a mesh") {
  Box b = RandBox(g, 5);
  const int k = g.i(0, 3);
  if (k == 0) b.nx = 0;
  if (k == 1) b.ny = 0;
  if (k == 2) b.x1 = b.x0 - (g.b() ? g.r(0, 3) : 0.0);
  if (k == 3) b.y1 = b.y0 - (g.b() ? g.r(0, 3) : 0.0);
  g.nontrivial();
  const int w = g.i(0, 2);
  g.desc() << "builder " << w << " " << b.nx << "x" << b.ny << " cells on [" << b.x0 << "," << b.x1 << "]x[" << b.y0 << "," << b.y1 << "]";
  bool got = false;
  const bool rej = pbt::Rejects([&] {
    if (w == 0) {
      lmu::TPTriagMeshBuilder bu(Fac(2));
      Setup(g, bu, b);
      got = bu.Build() != nullptr;
    } else if (w == 1) {
      lmu::TPQuadMeshBuilder bu(Fac(2));
      Setup(g, bu, b);
      got = bu.Build() != nullptr;
    } else {
      lmu::TorusMeshBuilder bu(Fac(3));
      Setup(g, bu, b);
      got = bu.Build() != nullptr;
    }
  });
  CHECK(rej || !got, "degenerate request", "a mesh was delivered");
}

PBT_SUB("torus", 5000, 40000, "torus builder: 3..15 cells per direction, box giving major radius > minor radius; non-trivial always") {
  Box b = RandBox(g, 8);
  b.nx = g.i(3, 12);
  b.ny = g.i(3, 15);
  const double w = b.x1 - b.x0;
  b.y1 = b.y0 + w * g.r(1.2, 5);
  if (g.b()) {
    // the same with the roles of the directions exchanged is only admissible if it still is an embedded torus
  }
  g.nontrivial();
  g.desc() << b.nx << "x" << b.ny << " cells on [" << b.x0 << "," << b.x1 << "]x[" << b.y0 << "," << b.y1 << "]";
  lmu::TorusMeshBuilder bu(Fac(3));
  Setup(g, bu, b);
  auto m = bu.Build();
  CHECK(m != nullptr, "Build returns a mesh", "");
  const View v = ReadMesh(*m, true, &g);
  const int nx = b.nx;
  const int ny = b.ny;
  CHECK(v.dim == 3, "DimWorld", v.dim);
  CHECK(v.X.cols() == nx * ny, "number of nodes", v.X.cols());
  CHECK(static_cast<int>(v.cn.size()) == nx * ny, "number of cells", v.cn.size());
  CHECK(static_cast<int>(v.en.size()) == 2 * nx * ny, "number of edges", v.en.size());
  const double a = (b.x1 - b.x0) / (2 * M_PI);
  const double c = (b.y1 - b.y0) / (2 * M_PI);
  const double tol = 1e-12 * (std::abs(b.x0) + std::abs(b.x1) + std::abs(b.y0) + std::abs(b.y1));
  // nodes lie on a torus whose radii belong to width and height; directions close up
  bool ok1 = true;
  bool ok2 = true;
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      const Vec p = v.X.col(i + j * nx);
      auto tor = [](double R, double r, double phi, double th) {
        Vec q(3);
        q << (R + r * std::cos(th)) * std::cos(phi), (R + r * std::cos(th)) * std::sin(phi), r * std::sin(th);
        return q;
      };
      const double ai = 2 * M_PI * i / nx;
      const double aj = 2 * M_PI * j / ny;
      if (!((p - tor(c, a, aj, ai)).norm() <= tol)) ok1 = false;
      if (!((p - tor(a, c, ai, aj)).norm() <= tol)) ok2 = false;
    }
  CHECK(ok1 || ok2, "node positions on the torus", "");
  std::set<std::pair<int, int>> squares;
  for (size_t k = 0; k < v.cn.size(); ++k) {
    CHECK(v.cn[k].size() == 4, "cell type", k);
    bool found = false;
    for (int s = 0; s < 4 && !found; ++s) {
      const int n = v.cn[k][s];
      const int i = n % nx;
      const int j = n / nx;
      std::set<int> want = {i + j * nx, (i + 1) % nx + j * nx, (i + 1) % nx + ((j + 1) % ny) * nx, i + ((j + 1) % ny) * nx};
      if (want == std::set<int>(v.cn[k].begin(), v.cn[k].end())) {
        // opposite corners
        CHECK(v.cn[k][(s + 2) % 4] == (i + 1) % nx + ((j + 1) % ny) * nx, "cell vertex order", k);
        if (nx == 3 || ny == 3 || true) squares.insert({i, j});
        found = true;
      }
    }
    CHECK(found, "cell is a grid square", k);
  }
  CHECK(static_cast<int>(squares.size()) == nx * ny, "cells tile the torus", squares.size());
  for (size_t e = 0; e < v.en.size(); ++e) CHECK(!v.Boundary(e), "torus has no boundary", "edge " << e);
  CHECK(v.X.cols() - static_cast<int>(v.en.size()) + static_cast<int>(v.cn.size()) == 0, "Euler characteristic", "");
}

PBT_SUB("annulus", 6000, 50000,
        "annulus builder: 3..16 angular, 1..6 radial cells, radii, centre, setters or defaults; non-trivial if a setter was used") {
  using projects::ipdg_stokes::mesh::AnnulusTriagMeshBuilder;
  AnnulusTriagMeshBuilder bu(Fac(2));
  double r = 0.25;
  double R = 1.0;
  double cx = 0;
  double cy = 0;
  unsigned nr = 1;
  unsigned na = 4;
  const double s = g.b(0.3) ? (g.b() ? 100.0 : 0.01) : 1.0;
  if (g.b(0.8)) {
    r = s * g.r(0.05, 2);
    R = r + s * g.r(0.1, 3);
    bu.setInnerRadius(r);
    bu.setOuterRadius(R);
    g.nontrivial();
  }
  if (g.b(0.7)) bu.setNumRadialCells(nr = g.i(1, 6));
  if (g.b(0.7)) bu.setNumAngularCells(na = g.i(3, 16));
  if (g.b(0.6)) {
    cx = s * g.num(5);
    cy = s * g.num(5);
    bu.setCenterPoint(cx, cy);
    g.label("centre set");
    g.nontrivial();
  }
  g.desc() << "annulus r=" << r << " R=" << R << " centre " << cx << "," << cy << " cells " << nr << "x" << na;
  auto m = bu.Build();
  CHECK(m != nullptr, "Build returns a mesh", "");
  const View v = ReadMesh(*m, true, &g);
  CHECK(v.X.cols() == static_cast<int>(na * (nr + 1)), "number of nodes", v.X.cols());
  CHECK(v.cn.size() == 2 * na * nr, "number of cells", v.cn.size());
  CHECK(v.en.size() == na * (nr + 1) + 2 * na * nr, "number of edges", v.en.size());
  Vec c(2);
  c << cx, cy;
  const double tol = 1e-12 * (R + c.norm());
  // every node on one of the circles, each circle equidistributed
  std::vector<int> ring(v.X.cols());
  std::vector<int> ang(v.X.cols());
  std::set<std::pair<int, int>> used;
  for (int k = 0; k < v.X.cols(); ++k) {
    const Vec d = v.X.col(k) - c;
    const double fr = (d.norm() - r) / (R - r) * nr;
    double fa = std::atan2(d(1), d(0)) / (2 * M_PI) * na;
    ring[k] = static_cast<int>(std::lround(fr));
    ang[k] = (static_cast<int>(std::lround(fa)) % static_cast<int>(na) + na) % na;
    CHECK(ring[k] >= 0 && ring[k] <= static_cast<int>(nr), "node radius", "node " << k << " radius " << d.norm());
    const double pr = r + (R - r) * ring[k] / nr;
    const double pa = 2 * M_PI * ang[k] / na;
    Vec want(2);
    want << pr * std::cos(pa), pr * std::sin(pa);
    CHECK_MAT(d, want, tol, "node position", "node " << k);
    CHECK(used.insert({ring[k], ang[k]}).second, "duplicate node", k);
  }
  double area = 0;
  for (size_t k = 0; k < v.cn.size(); ++k) {
    CHECK(v.cn[k].size() == 3, "cell type", k);
    const Vec a = v.X.col(v.cn[k][0]);
    const Vec b = v.X.col(v.cn[k][1]);
    const Vec d = v.X.col(v.cn[k][2]);
    const double sa = 0.5 * ((b(0) - a(0)) * (d(1) - a(1)) - (b(1) - a(1)) * (d(0) - a(0)));
    CHECK(sa > 0, "cell orientation", "cell " << k << " signed area " << sa);
    area += sa;
    std::set<int> rr;
    for (int n : v.cn[k]) rr.insert(ring[n]);
    CHECK(rr.size() == 2 && *rr.rbegin() == *rr.begin() + 1, "cell spans one layer", k);
    CHECK_NEAR(lf::geometry::Volume(*m->EntityByIndex(0, k)->Geometry()), sa, 1e-10 * R * R + tol * R, "cell volume", k);
  }
  const double want = 0.5 * na * std::sin(2 * M_PI / na) * (R * R - r * r);
  CHECK_NEAR(area, want, 1e-10 * R * R + 10 * tol * R, "cells tile the polygonal annulus", "");
  for (size_t e = 0; e < v.en.size(); ++e) {
    const int a = ring[v.en[e][0]];
    const int b = ring[v.en[e][1]];
    const bool bd = a == b && (a == 0 || a == static_cast<int>(nr));
    CHECK(v.Boundary(e) == bd, "boundary edges lie on the two circles", "edge " << e);
    if (a == b) {
      const int d = std::abs(ang[v.en[e][0]] - ang[v.en[e][1]]);
      CHECK(d == 1 || d == static_cast<int>(na) - 1, "edges on a circle join neighbours", e);
    }
  }
}
