// C03: MeshFactory / hybrid2d::Mesh represent exactly what was inserted
#include "gen/meshcheck.h"
#include "gen/meshes.h"
using namespace gen;
using lf::base::RefEl;

static void Compare(pbt::G &g, const HMesh &m, const lf::mesh::Mesh &mesh) {
  const View v = ReadMesh(mesh, true, &g);
  CHECK(v.dim == m.dim, "DimWorld", v.dim);
  CHECK(v.X.cols() == m.X.cols(), "number of nodes", v.X.cols() << " vs " << m.X.cols());
  CHECK(v.cn.size() == m.cells.size(), "number of cells", v.cn.size());
  CHECK(v.en.size() == m.edges.size(), "number of edges", v.en.size() << " vs " << m.edges.size());
  const double tol = 1e-12 * CoordScale(m.X);
  CHECK_MAT(v.X, m.X, tol, "node positions", "");
  for (size_t c = 0; c < m.cells.size(); ++c) {
    CHECK(v.cn[c] == m.cells[c].v, "cell nodes", "cell " << c);
    const Mat P = RandRefPoints(g, HMesh::CellType(m.cells[c]), 2);
    Mat X(m.dim, 2);
    for (int k = 0; k < 2; ++k) X.col(k) = m.CellMap(static_cast<int>(c), P.col(k));
    CHECK_MAT(mesh.EntityByIndex(0, c)->Geometry()->Global(P), X, tol, "cell shape", "cell " << c);
  }
  // edges
  std::vector<char> seen(m.edges.size(), 0);
  for (size_t e = 0; e < v.en.size(); ++e) {
    auto it = m.eid.find({std::min(v.en[e][0], v.en[e][1]), std::max(v.en[e][0], v.en[e][1])});
    CHECK(it != m.eid.end(), "spurious edge", v.en[e][0] << "-" << v.en[e][1]);
    const int id = it->second;
    CHECK(!seen[id], "duplicate edge", id);
    seen[id] = 1;
    if (e < m.expl.size()) {
      CHECK(m.expl[e].edge == id, "index of supplied edge", "edge index " << e << " joins nodes " << v.en[e][0] << "," << v.en[e][1]);
      if (m.expl[e].geo != 0) CHECK(v.en[e][0] == m.expl[e].first, "direction of supplied edge", "edge index " << e);
    } else {
      for (const auto &x : m.expl) CHECK(x.edge != id, "index of supplied edge", "supplied edge got index " << e);
    }
    // adjacency
    std::set<std::pair<int, int>> a(m.edges[id].cells.begin(), m.edges[id].cells.end());
    std::set<std::pair<int, int>> b(v.ec[e].begin(), v.ec[e].end());
    CHECK(a == b, "cells at edge", "edge " << e);
    const double t = g.r(0, 1);
    CHECK_MAT(mesh.EntityByIndex(1, e)->Geometry()->Global(Mat::Constant(1, 1, t)), m.EdgeMap(id, v.en[e][0], t), tol, "edge shape",
              "edge " << e << " t=" << t);
  }
}

PBT_SUB("build", 25000, 500000,
        "random hybrid mesh (1..~30 cells, holes, annular topology, curved cells, 2D/3D world, clockwise/rotated cells, missing cell or edge "
        "shapes, random numbering, any subset of edges supplied in any order and direction); non-trivial: at least 2 cells and either "
        "supplied edges, curved or rotated cells") {
  MeshOpt o;
  o.allow_curved = true;
  o.allow_3d = true;
  o.allow_null_edge_geo = true;
  HMesh m = RandMesh(g, o);
  g.nontrivial(m.cells.size() >= 2);
  if (!m.expl.empty()) g.label("supplied edges");
  for (const auto &x : m.expl)
    if (x.geo == 0) {
      g.label("supplied edge without shape");
      break;
    }
  Compare(g, m, *m.mesh);
}

PBT_SUB("factory_reuse", 4000, 60000,
        "one MeshFactory builds several meshes in a row, points added by coordinates or geometry; non-trivial: 2+ meshes") {
  lf::mesh::hybrid2d::MeshFactory f(2);
  const int rounds = g.i(1, 3);
  g.nontrivial(rounds >= 2);
  CHECK(f.DimWorld() == 2 && f.DimMesh() == 2, "factory dimensions", "");
  std::vector<HMesh> ms;
  for (int r = 0; r < rounds; ++r) {
    MeshOpt o;
    o.max_n = 2;
    HMesh m = RandMesh(g, o);
    for (int k = 0; k < m.X.cols(); ++k) {
      unsigned idx = 0;
      if (g.b()) idx = f.AddPoint(Vec(m.X.col(k)));
      else idx = f.AddPoint(std::make_unique<lf::geometry::Point>(m.X.col(k)));
      CHECK(idx == static_cast<unsigned>(k), "AddPoint index", k);
    }
    unsigned i = 0;
    for (const auto &x : m.expl) {
      const auto &E = m.edges[x.edge];
      const std::array<lf::base::size_type, 2> nn = {static_cast<unsigned>(x.first), static_cast<unsigned>(x.first == E.a ? E.b : E.a)};
      CHECK(f.AddEntity(RefEl::kSegment(), nn, m.EdgeGeo(x)) == i++, "AddEntity index", "edge");
    }
    for (size_t c = 0; c < m.cells.size(); ++c) {
      const std::vector<lf::base::size_type> nn(m.cells[c].v.begin(), m.cells[c].v.end());
      CHECK(f.AddEntity(HMesh::CellType(m.cells[c]), nn, m.CellGeo(static_cast<int>(c))) == c, "AddEntity index", "cell");
    }
    m.mesh = f.Build();
    ms.push_back(std::move(m));
  }
  for (auto &m : ms) Compare(g, m, *m.mesh);
  if (ms.size() > 1) {
    for (unsigned c = 0; c <= 2; ++c)
      CHECK(!ms[0].mesh->Contains(*ms[1].mesh->EntityByIndex(c, 0)), "Contains foreign entity", "codim " << c);
  }
}

PBT_SUB("invalid", 3000, 30000,
        "meshes with a stray node or stray edge (check_completeness on/off), invalid node numbers, duplicate supplied edges, wrong node "
        "counts: must be rejected (or accepted when the check is off); non-trivial: every case") {
  MeshOpt o;
  o.max_n = 2;
  HMesh m = RandMesh(g, o);
  g.nontrivial();
  const int what = static_cast<int>(g.raw(6));
  const bool chk = g.b();
  lf::mesh::hybrid2d::MeshFactory f(2, chk);
  const int nn = static_cast<int>(m.X.cols());
  for (int k = 0; k < nn; ++k) (void)f.AddPoint(Vec(m.X.col(k)));
  auto add_cells = [&] {
    for (size_t c = 0; c < m.cells.size(); ++c) {
      const std::vector<lf::base::size_type> q(m.cells[c].v.begin(), m.cells[c].v.end());
      (void)f.AddEntity(HMesh::CellType(m.cells[c]), q, m.CellGeo(static_cast<int>(c)));
    }
  };
  auto seg = [&](int a, int b) {
    Mat c(2, 2);
    c << m.X.col(a), m.X.col(b);
    const std::array<lf::base::size_type, 2> q = {static_cast<unsigned>(a), static_cast<unsigned>(b)};
    (void)f.AddEntity(RefEl::kSegment(), q, std::make_unique<lf::geometry::SegmentO1>(c));
  };
  g.desc() << "what=" << what << " check=" << chk;
  g.label("kind " + std::to_string(what));
  switch (what) {
    case 0: {  // stray node
      (void)f.AddPoint((Vec(2) << 1e3, 1e3).finished());
      add_cells();
      if (chk) {
        CHECK(pbt::Rejects([&] { (void)f.Build(); }), "stray node accepted", "");
      } else {
        auto mesh = f.Build();
        CHECK(mesh->NumEntities(2) == static_cast<unsigned>(nn) + 1, "stray node kept", "");
        CHECK_NEAR(NodePos(*mesh->EntityByIndex(2, nn))(0), 1e3, 1e-9, "stray node kept", "");
      }
      break;
    }
    case 1: {  // stray edge
      int a = -1;
      int b = -1;
      for (int i = 0; i < nn && a < 0; ++i)
        for (int j = i + 1; j < nn; ++j)
          if (!m.eid.count({i, j})) {
            a = i;
            b = j;
            break;
          }
      if (a < 0) throw pbt::Discard{};
      seg(a, b);
      add_cells();
      if (chk) {
        CHECK(pbt::Rejects([&] { (void)f.Build(); }), "stray edge accepted", "");
      } else {
        auto mesh = f.Build();
        CHECK(mesh->NumEntities(1) == m.edges.size() + 1, "stray edge kept", "");
        const auto *e = mesh->EntityByIndex(1, 0);
        CHECK(mesh->Index(*e->SubEntities(1)[0]) == static_cast<unsigned>(a) && mesh->Index(*e->SubEntities(1)[1]) == static_cast<unsigned>(b),
              "stray edge kept", "");
      }
      break;
    }
    case 2: {  // node index out of range
      const std::vector<lf::base::size_type> q = {0, 1, static_cast<unsigned>(nn + g.i(0, 3))};
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kTria(), q, nullptr); }), "invalid node accepted", "");
      break;
    }
    case 3: {  // duplicate supplied edge
      const auto &E = m.edges[g.raw(m.edges.size())];
      seg(E.a, E.b);
      if (g.b()) seg(E.a, E.b);
      else seg(E.b, E.a);
      add_cells();
      CHECK(pbt::Rejects([&] { (void)f.Build(); }), "duplicate edge accepted", "");
      break;
    }
    case 4: {  // wrong number of nodes
      const std::vector<lf::base::size_type> q = {0, 1, 2};
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kQuad(), q, nullptr); }), "wrong node count accepted", "quad with 3");
      const std::vector<lf::base::size_type> q4 = {0, 1, 2, 0};
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kTria(), q4, nullptr); }), "wrong node count accepted", "tria with 4");
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kSegment(), q, nullptr); }), "wrong node count accepted", "segment with 3");
      break;
    }
    default: {  // shape of the wrong type or dimension
      const std::vector<lf::base::size_type> q = {0, 1, 2};
      Mat c(2, 2);
      c << m.X.col(0), m.X.col(1);
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kTria(), q, std::make_unique<lf::geometry::SegmentO1>(c)); }), "wrong shape accepted", "");
      Mat c3 = Mat::Zero(3, 2);
      c3(0, 1) = 1;
      const std::vector<lf::base::size_type> q2 = {0, 1};
      CHECK(pbt::Rejects([&] { (void)f.AddEntity(RefEl::kSegment(), q2, std::make_unique<lf::geometry::SegmentO1>(c3)); }),
            "wrong dimension accepted", "");
      CHECK(pbt::Rejects([&] { (void)f.AddPoint((Vec(3) << 1, 2, 3).finished()); }), "wrong dimension accepted", "");
    }
  }
}
