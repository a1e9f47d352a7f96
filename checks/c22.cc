// C22: Gmsh files are read into the mesh they describe, in every encoding.
#include <lf/io/io.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>

#include "gen/gmsh.h"
#include "gen/meshcheck.h"
using namespace gen;
using namespace gmsh;
namespace io = lf::io;

namespace {
double Tol(const Enc &e, double v) { return e.bin ? 0.0 : 4e-15 * std::abs(v) + 1e-300; }

void CheckMesh(pbt::G &g, const HMesh &hm, const File &f, const Enc &enc, const lf::mesh::Mesh &mesh, View &v) {
  const std::string en = enc.Name();
  v = ReadMesh(mesh, true, &g);
  CHECK(v.dim == hm.dim, "world dimension", en);
  // expected numbering: nodes of cells, cells and listed edges in the order of the file
  std::vector<int> nidx(hm.X.cols(), -1), norder;
  std::map<int, const gmsh::Node *> fn;
  for (auto &b : f.nodes)
    for (auto &n : b.nodes)
      if (n.id >= 0) {
        nidx[n.id] = static_cast<int>(norder.size());
        norder.push_back(n.id);
        fn[n.id] = &n;
      }
  std::vector<const Elem *> cells, edges;
  for (auto &b : f.elems)
    for (auto &e : b.elems) {
      if (b.dim == 2) cells.push_back(&e);
      if (b.dim == 1) edges.push_back(&e);
    }
  CHECK(mesh.NumEntities(2) == norder.size(), "number of nodes", en << ": " << mesh.NumEntities(2) << " expected " << norder.size());
  CHECK(mesh.NumEntities(0) == cells.size(), "number of cells", en << ": " << mesh.NumEntities(0) << " expected " << cells.size());
  CHECK(mesh.NumEntities(1) == hm.edges.size(), "number of edges", en << ": " << mesh.NumEntities(1) << " expected " << hm.edges.size());
  for (size_t k = 0; k < norder.size(); ++k)
    for (int d = 0; d < hm.dim; ++d)
      CHECK_NEAR(v.X(d, k), hm.X(d, norder[k]), Tol(enc, hm.X(d, norder[k])), "node position", en << ": node " << k << " component " << d);
  const double ctol = (enc.bin ? 1e-13 : 1e-12) * CoordScale(hm.X);
  for (size_t c = 0; c < cells.size(); ++c) {
    const auto &C = hm.cells[cells[c]->id];
    const auto *e = mesh.EntityByIndex(0, c);
    CHECK(e->RefEl() == HMesh::CellType(C), "cell type", en << ": cell " << c);
    for (size_t k = 0; k < C.v.size(); ++k)
      CHECK(v.cn[c][k] == nidx[C.v[k]], "corners of a cell", en << ": cell " << c << " corner " << k << " is node " << v.cn[c][k] << ", expected " << nidx[C.v[k]]);
    const Mat p = RandRefPoints(g, e->RefEl(), 3);
    const Mat x = e->Geometry()->Global(p);
    for (int j = 0; j < p.cols(); ++j) CHECK_MAT(x.col(j), hm.CellMap(cells[c]->id, p.col(j)), ctol, "shape of a cell", en << ": cell " << c);
  }
  std::set<int> seen;
  for (size_t k = 0; k < edges.size(); ++k) {
    const int id = edges[k]->id;
    const auto *e = mesh.EntityByIndex(1, k);
    const auto &E = hm.edges[id];
    int first = -1;
    for (auto &x : hm.expl)
      if (x.edge == id) first = x.first;
    CHECK(v.en[k][0] == nidx[first] && v.en[k][1] == nidx[first == E.a ? E.b : E.a], "end points of a listed edge", en << ": edge " << k);
    for (double t : {0.0, 0.3, 0.5, 1.0}) CHECK_MAT(e->Geometry()->Global(Mat::Constant(1, 1, t)), hm.EdgeMap(id, first, t), ctol, "shape of a listed edge", en << ": edge " << k << " t=" << t);
    seen.insert(id);
  }
  for (int k = static_cast<int>(edges.size()); k < static_cast<int>(hm.edges.size()); ++k) {
    const int a = norder[v.en[k][0]], b = norder[v.en[k][1]];
    auto it = hm.eid.find({std::min(a, b), std::max(a, b)});
    CHECK(it != hm.eid.end(), "edge that no cell has", en << ": " << k);
    CHECK(seen.insert(it->second).second, "edge appears twice", en << ": " << k);
    const auto *e = mesh.EntityByIndex(1, k);
    for (double t : {0.2, 0.5}) CHECK_MAT(e->Geometry()->Global(Mat::Constant(1, 1, t)), hm.EdgeMap(it->second, a, t), ctol, "shape of an edge", en << ": edge " << k);
  }
}

void V3(const Enc &enc, const Eigen::Vector3d &a, const double *b, const char *key) {
  for (int d = 0; d < 3; ++d) CHECK_NEAR(a(d), b[d], Tol(enc, b[d]), key, enc.Name());
}

void CheckContents(const File &f, const Enc &enc, const io::GMshFileV2 &r) {
  const std::string en = enc.Name();
  CHECK(r.IsBinary == enc.bin && r.VersionNumber == "2.2", "header", en);
  CHECK(r.PhysicalEntities.size() == f.names.size() * (f.has_names ? 1 : 0), "number of group names", en);
  for (size_t k = 0; k < r.PhysicalEntities.size(); ++k) {
    const auto &a = r.PhysicalEntities[k];
    CHECK(a.Dimension == f.names[k].dim && a.Number == f.names[k].nr && a.Name == f.names[k].name, "group name", en << ": " << k);
  }
  CHECK(r.Nodes.size() == f.NumNodes(), "number of nodes in the file", en);
  size_t k = 0;
  for (auto &b : f.nodes)
    for (auto &n : b.nodes) {
      CHECK(r.Nodes[k].first == n.tag, "node number", en << ": " << k);
      V3(enc, r.Nodes[k].second, n.x, "node coordinates");
      ++k;
    }
  k = 0;
  for (auto &b : f.elems)
    for (auto &e : b.elems) {
      const auto &E = f.ent[b.dim][b.ent];
      for (size_t q = 0; q < std::max<size_t>(1, E.phys.size()); ++q, ++k) {
        CHECK(k < r.Elements.size(), "number of elements in the file", en << ": only " << r.Elements.size());
        const auto &x = r.Elements[k];
        CHECK(static_cast<int>(x.Type) == b.type, "element type", en << ": " << k);
        CHECK(x.PhysicalEntityNr == (E.phys.empty() ? 0 : E.phys[q]), "element group", en << ": " << k);
        CHECK(x.ElementaryEntityNr == E.tag, "element entity", en << ": " << k);
        CHECK(x.MeshPartitions == E.parts, "element partitions", en << ": " << k);
        CHECK(x.NodeNumbers.size() == e.nodes.size() && std::equal(e.nodes.begin(), e.nodes.end(), x.NodeNumbers.begin()), "element nodes", en << ": " << k);
      }
    }
  CHECK(r.Elements.size() == k, "number of elements in the file", en);
  CHECK(r.Periodic.size() == f.periodic.size(), "number of periodic links", en);
  for (size_t j = 0; j < f.periodic.size(); ++j) {
    const auto &a = r.Periodic[j];
    const auto &b = f.periodic[j];
    CHECK(a.Dimension == b.dim && a.ElementarySlaveNr == b.slave && a.ElementaryMasterNr == b.master && a.NodeMapping.size() == b.pairs.size(), "periodic link", en << ": " << j);
    for (size_t q = 0; q < b.pairs.size(); ++q)
      CHECK(a.NodeMapping[q].first == b.pairs[q].first && a.NodeMapping[q].second == b.pairs[q].second, "periodic node", en << ": " << j);
  }
}

template <class A>
void CheckEnt(const Enc &enc, const A &a, const Entity &b, int d, const char *key) {
  CHECK(a.tag == b.tag && a.physical_tags == b.phys, key, enc.Name() << " dimension " << d << " tag " << b.tag);
  if constexpr (requires { a.coord; }) {
    V3(enc, a.coord, b.bb, key);
  } else {
    V3(enc, a.min_coord, b.bb, key);
    V3(enc, a.max_coord, b.bb + 3, key);
    CHECK(a.bounding_entities == b.bounding, key, enc.Name() << " bounding entities, dimension " << d << " tag " << b.tag);
  }
}
template <class T>
void CheckEnts(const Enc &enc, const T &t, const std::vector<Entity> *e, const File &f, bool part) {
  auto one = [&](const auto &list, int d) {
    CHECK(list.size() == e[d].size(), "number of entities", enc.Name() << " dimension " << d);
    for (size_t k = 0; k < list.size(); ++k) {
      CheckEnt(enc, list[k], e[d][k], d, part ? "partitioned entity" : "entity");
      if constexpr (requires { list[k].parent_dim; }) {
        CHECK(list[k].parent_dim == d && list[k].partitions == e[d][k].parts &&
                  list[k].parent_tag == (f.parent[d].empty() ? 1 : f.parent[d][e[d][k].parent].tag),
              "partitioned entity", enc.Name() << " dimension " << d << " " << k);
      }
    }
  };
  one(std::get<0>(t), 0);
  one(std::get<1>(t), 1);
  one(std::get<2>(t), 2);
  one(std::get<3>(t), 3);
}

void CheckContents(const File &f, const Enc &enc, const io::GMshFileV4 &r) {
  const std::string en = enc.Name();
  CHECK(r.is_binary == enc.bin && r.version_number == "4.1", "header", en);
  CHECK(r.physical_names.size() == f.names.size() * (f.has_names ? 1 : 0), "number of group names", en);
  for (size_t k = 0; k < r.physical_names.size(); ++k) {
    const auto &a = r.physical_names[k];
    CHECK(a.dimension == f.names[k].dim && a.physical_tag == f.names[k].nr && a.name == f.names[k].name, "group name", en << ": " << k);
  }
  CheckEnts(enc, r.entities, f.nparts > 0 ? f.parent : f.ent, f, false);
  CHECK(static_cast<int>(r.partitioned_entities.num_partitions) == f.nparts, "number of partitions", en);
  if (f.nparts > 0) {
    CheckEnts(enc, r.partitioned_entities.partitioned_entities, f.ent, f, true);
    const auto &gh = r.partitioned_entities.ghost_entities;
    CHECK(gh.size() == f.ghost_ents.size(), "ghost entities", en);
    for (size_t k = 0; k < gh.size(); ++k) CHECK(gh[k].tag == f.ghost_ents[k].first && gh[k].partition == f.ghost_ents[k].second, "ghost entities", en);
  }
  CHECK(r.nodes.node_blocks.size() == f.nodes.size(), "node blocks", en);
  CHECK(r.nodes.num_nodes == f.NumNodes(), "number of nodes in the file", en);
  for (size_t b = 0; b < f.nodes.size(); ++b) {
    const auto &x = r.nodes.node_blocks[b];
    const auto &y = f.nodes[b];
    CHECK(x.entity_dim == y.dim && x.entity_tag == y.ent && x.nodes.size() == y.nodes.size(), "node blocks", en << ": " << b);
    for (size_t k = 0; k < y.nodes.size(); ++k) {
      CHECK(x.nodes[k].first == y.nodes[k].tag, "node number", en << ": " << k);
      V3(enc, x.nodes[k].second, y.nodes[k].x, "node coordinates");
    }
  }
  CHECK(r.elements.element_blocks.size() == f.elems.size(), "element blocks", en);
  for (size_t b = 0; b < f.elems.size(); ++b) {
    const auto &x = r.elements.element_blocks[b];
    const auto &y = f.elems[b];
    CHECK(x.dimension == y.dim && x.entity_tag == f.ent[y.dim][y.ent].tag && static_cast<int>(x.element_type) == y.type && x.elements.size() == y.elems.size(), "element blocks", en << ": " << b);
    for (size_t k = 0; k < y.elems.size(); ++k) {
      CHECK(x.elements[k].first == y.elems[k].tag, "element tag", en << ": " << k);
      CHECK(x.elements[k].second.size() == y.elems[k].nodes.size() && std::equal(y.elems[k].nodes.begin(), y.elems[k].nodes.end(), x.elements[k].second.begin()), "element nodes", en << ": " << k);
    }
  }
  CHECK(r.periodic_links.size() == f.periodic.size(), "number of periodic links", en);
  for (size_t j = 0; j < f.periodic.size(); ++j) {
    const auto &a = r.periodic_links[j];
    const auto &b = f.periodic[j];
    CHECK(a.dimension == b.dim && a.entity_tag_slave == b.slave && a.entity_tag_master == b.master && a.node_mapping.size() == b.pairs.size(), "periodic link", en << ": " << j);
    CHECK(a.affine_transform.has_value() == b.affine, "affine map of a periodic link", en << ": " << j);
    if (b.affine)
      for (int r1 = 0; r1 < 4; ++r1)
        for (int c1 = 0; c1 < 4; ++c1) CHECK_NEAR((*a.affine_transform)(r1, c1), b.m[4 * r1 + c1], Tol(enc, b.m[4 * r1 + c1]), "affine map of a periodic link", en << ": " << j);
    for (size_t q = 0; q < b.pairs.size(); ++q)
      CHECK(a.node_mapping[q].first == b.pairs[q].first && a.node_mapping[q].second == b.pairs[q].second, "periodic node", en << ": " << j);
  }
  CHECK(r.ghost_elements.size() == f.ghosts.size(), "ghost elements", en);
  for (size_t j = 0; j < f.ghosts.size(); ++j)
    CHECK(r.ghost_elements[j].element_tag == f.ghosts[j].elem && r.ghost_elements[j].partition_tag == f.ghosts[j].part && r.ghost_elements[j].ghost_partition_tags == f.ghosts[j].ghost, "ghost elements", en << ": " << j);
}

HMesh GenMesh(pbt::G &g) {
  MeshOpt o;
  o.max_n = g.b(0.03) ? 12 : 3;
  o.allow_curved = true;
  o.force_curved = g.b(0.3);
  o.allow_3d = true;
  o.allow_null_geo = false;
  o.allow_null_edge_geo = false;
  o.unit_scale = g.b(0.6);
  return RandMesh(g, o);
}
void RandNames(pbt::G &g, File &f) {
  const int m = g.i(0, 4);
  for (int k = 0; k < m; ++k)
    f.names.push_back({g.i(0, 3), g.i(1, 99), g.pick(std::vector<std::string>{"air", "a b", "Gamma_1", "$x", "1 2", "boundary"})});
  if (!f.has_names) f.names.clear();
}
void Classify(pbt::G &g, const HMesh &hm, const File &f) {
  if (hm.curved) g.label("curved");
  if (f.nparts > 0) g.label("partitioned");
  if (f.has_periodic) g.label("periodic");
  bool com = false;
  for (auto &c : f.com) com = com || !c.empty();
  if (com) g.label("unknown sections");
  if (!hm.expl.empty()) g.label("listed edges");
  g.nontrivial(hm.cells.size() > 1);
  g.desc() << hm.Describe() << "\n";
}
}  // namespace

PBT_SUB("mesh of a file", 120, 500,
        "file with the contents of a random hybrid mesh (straight, second order, 2D/3D; arbitrary node numbers, blocks, entities, groups, further sections) in one encoding; "
        "mesh and parsed contents compared with the description. Non-trivial: more than one cell") {
  const HMesh hm = GenMesh(g);
  File f = RandFile(g, hm, {});
  RandNames(g, f);
  Classify(g, hm, f);
  const Enc enc = g.pick(AllEnc());
  g.label(enc.Name());
  const std::string s = Encode(g, f, enc);
  if (!enc.bin) g.desc() << s;
  TmpFile tmp(s);
  auto r = io::ReadGmshFile(tmp.path());
  CHECK(r.index() == (enc.v4 ? 1u : 0u), "file version", enc.Name());
  if (enc.v4)
    CheckContents(f, enc, std::get<io::GMshFileV4>(r));
  else
    CheckContents(f, enc, std::get<io::GMshFileV2>(r));
  View v;
  if (g.b(0.7)) {
    io::GmshReader reader(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(hm.dim), tmp.path());
    CheckMesh(g, hm, f, enc, *reader.mesh(), v);
  } else {
    io::GmshReader reader(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(hm.dim), r);
    CheckMesh(g, hm, f, enc, *std::as_const(reader).mesh(), v);
  }
}

PBT_SUB("large tags", 40, 200,
        "version 4.1 files whose node and element tags exceed 32 bits (they are of type size_t there); parsed contents and mesh compared with the description. Non-trivial: more than one cell") {
  const HMesh hm = GenMesh(g);
  File f = RandFile(g, hm, {});
  RandNames(g, f);
  Classify(g, hm, f);
  const uint64_t no = g.pick(std::vector<uint64_t>{2147483640, 4294967290, 4294967296, 1ull << 40, 9007199254740993ull, 0}) + g.i(0, 9);
  const uint64_t eo = g.pick(std::vector<uint64_t>{2147483640, 4294967290, 4294967296, 1ull << 40, 0}) + g.i(0, 9);
  for (auto &b : f.nodes)
    for (auto &n : b.nodes) n.tag += no;
  for (auto &b : f.elems)
    for (auto &e : b.elems) {
      e.tag += eo;
      for (auto &n : e.nodes) n += no;
    }
  for (auto &q : f.periodic)
    for (auto &x : q.pairs) x.first += no, x.second += no;
  for (auto &q : f.ghosts) q.elem += eo;
  std::vector<Enc> v4;
  for (auto &e : AllEnc())
    if (e.v4) v4.push_back(e);
  const Enc enc = g.pick(v4);
  g.label(enc.Name());
  const std::string s = Encode(g, f, enc);
  if (!enc.bin) g.desc() << s;
  TmpFile tmp(s);
  auto r = io::ReadGmshFile(tmp.path());
  CHECK(r.index() == 1u, "file version", enc.Name());
  CheckContents(f, enc, std::get<io::GMshFileV4>(r));
  io::GmshReader reader(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(hm.dim), r);
  View v;
  CheckMesh(g, hm, f, enc, *reader.mesh(), v);
}

PBT_SUB("encodings agree", 60, 300,
        "the same contents in all six encodings: all meshes agree (binary exactly, text up to the precision of the numbers). Non-trivial: more than one cell") {
  const HMesh hm = GenMesh(g);
  File f = RandFile(g, hm, {});
  RandNames(g, f);
  Classify(g, hm, f);
  View ref;
  bool first = true;
  for (const Enc &enc : {AllEnc()[1], AllEnc()[2], AllEnc()[4], AllEnc()[5], AllEnc()[0], AllEnc()[3]}) {
    TmpFile tmp(Encode(g, f, enc));
    io::GmshReader reader(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(hm.dim), tmp.path());
    View v = ReadMesh(*reader.mesh(), false);
    if (first) {
      CheckMesh(g, hm, f, enc, *reader.mesh(), v);
      ref = v;
      first = false;
      continue;
    }
    CHECK(v.en == ref.en && v.cn == ref.cn && v.ce == ref.ce, "encodings give the same mesh", enc.Name() << ": topology");
    CHECK_MAT(v.X, ref.X, enc.bin ? 0.0 : 1e-14 * CoordScale(hm.X), "encodings give the same mesh", enc.Name() << ": node positions");
  }
}

PBT_SUB("points outside the plane", 20, 60, "a file whose nodes have a third coordinate must not be read silently into a planar mesh; unsupported versions and missing files are rejected. Non-trivial: always") {
  HMesh hm = [&] {
    MeshOpt o;
    o.max_n = 2;
    o.allow_null_geo = false;
    o.unit_scale = true;
    return RandMesh(g, o);
  }();
  Opt fo;
  File f = RandFile(g, hm, fo);
  const Enc enc = g.pick(AllEnc());
  g.nontrivial();
  switch (g.i(0, 2)) {
    case 0: {
      const int k = g.i(0, static_cast<int>(hm.X.cols()) - 1);
      for (auto &b : f.nodes)
        for (auto &n : b.nodes)
          if (n.id == k) n.x[2] = g.b() ? 1.0 : -1e-3;
      TmpFile tmp(Encode(g, f, enc));
      CHECK(pbt::Rejects([&] { io::GmshReader r(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2), tmp.path()); }), "third coordinate dropped", enc.Name());
      io::GmshReader r(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(3), tmp.path());
      const View v = ReadMesh(*r.mesh(), false);
      CHECK(v.X.cwiseAbs().row(2).maxCoeff() > 0, "third coordinate", enc.Name());
      break;
    }
    case 1: {
      std::string s = Encode(g, f, enc);
      const size_t p = s.find(enc.v4 ? "4.1" : "2.2");
      s.replace(p, 3, g.pick(std::vector<std::string>{"4.0", "2.1", "3.0", "1.0", "2", "4"}));
      TmpFile tmp(s);
      CHECK(pbt::Rejects([&] { (void)io::ReadGmshFile(tmp.path()); }), "unsupported version accepted", enc.Name());
      break;
    }
    default: {
      std::string p;
      {
        TmpFile tmp("x");
        p = tmp.path();
      }
      bool thrown = false;
      try {
        (void)io::ReadGmshFile(p);
      } catch (const std::exception &) {
        thrown = true;
      }
      CHECK(thrown, "missing file", "no exception");
    }
  }
}
