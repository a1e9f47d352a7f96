// C05: mesh data sets, boundary flags, super-entity counts, centre selectors
#include <lf/mesh/utils/utils.h>
#include <lf/refinement/refinement.h>

#include "gen/meshcheck.h"
#include "gen/meshes.h"
using namespace gen;
namespace lmu = lf::mesh::utils;
using lf::mesh::Entity;

// every entity of a mesh with its (codim, index)
static std::vector<std::pair<unsigned, const Entity *>> All(const lf::mesh::Mesh &m) {
  std::vector<std::pair<unsigned, const Entity *>> r;
  for (unsigned c = 0; c <= 2; ++c)
    for (const Entity *e : m.Entities(c)) r.push_back({c, e});
  return r;
}
template <class T>
struct Val;
template <>
struct Val<double> {
  static double make(pbt::G &g) { return g.num(5); }
};
template <>
struct Val<bool> {
  static bool make(pbt::G &g) { return g.b(); }
};
template <>
struct Val<int> {
  static int make(pbt::G &g) { return g.i(-100, 100); }
};
template <>
struct Val<char> {
  static char make(pbt::G &g) { return static_cast<char>(g.i(0, 127)); }
};
template <>
struct Val<std::string> {
  static std::string make(pbt::G &g) { return std::string(g.i(0, 20), static_cast<char>('a' + g.i(0, 25))); }
};
template <>
struct Val<Eigen::VectorXd> {
  static Eigen::VectorXd make(pbt::G &g) {
    Eigen::VectorXd v(g.i(1, 4));
    for (int k = 0; k < v.size(); ++k) v(k) = g.num();
    return v;
  }
};
template <>
struct Val<Eigen::Matrix2d> {
  static Eigen::Matrix2d make(pbt::G &g) {
    Eigen::Matrix2d v;
    for (int k = 0; k < 4; ++k) v(k) = g.num();
    return v;
  }
};
template <class A, class B>
static bool Eq(const A &a, const B &b) {
  if constexpr (requires { a.rows(); }) return a.rows() == b.rows() && a.cols() == b.cols() && a == b;
  else return a == b;
}

// model-based: any history of reads/writes behaves like std::map<entity,T>
template <class T>
static void DataSetHistory(pbt::G &g, const std::shared_ptr<lf::mesh::Mesh> &mesh, const lf::mesh::Mesh &other) {
  const bool allc = g.b();
  const unsigned codim = g.i(0, 2);
  const bool init = g.b(0.6);
  const bool viamake = g.b();
  const auto ents = All(*mesh);
  std::shared_ptr<lmu::MeshDataSet<T>> ds;
  std::function<T &(const Entity &)> wr;
  const T v0 = Val<T>::make(g);
  if (allc) {
    std::shared_ptr<lmu::AllCodimMeshDataSet<T>> d;
    if (init) d = viamake ? lmu::make_AllCodimMeshDataSet<T>(mesh, v0) : std::make_shared<lmu::AllCodimMeshDataSet<T>>(mesh, v0);
    else d = viamake ? lmu::make_AllCodimMeshDataSet<T>(mesh) : std::make_shared<lmu::AllCodimMeshDataSet<T>>(mesh);
    if (g.b(0.3)) d = std::make_shared<lmu::AllCodimMeshDataSet<T>>(std::move(*d));
    wr = [d](const Entity &e) -> T & { return (*d)(e); };
    ds = d;
  } else {
    std::shared_ptr<lmu::CodimMeshDataSet<T>> d;
    if (init) d = viamake ? lmu::make_CodimMeshDataSet<T>(mesh, codim, v0) : std::make_shared<lmu::CodimMeshDataSet<T>>(mesh, codim, v0);
    else d = viamake ? lmu::make_CodimMeshDataSet<T>(mesh, codim) : std::make_shared<lmu::CodimMeshDataSet<T>>(mesh, codim);
    wr = [d](const Entity &e) -> T & { return (*d)(e); };
    ds = d;
  }
  const lmu::MeshDataSet<T> &cds = *ds;
  std::vector<std::pair<unsigned, const Entity *>> dom;
  for (const auto &x : ents) {
    const bool want = allc || x.first == codim;
    CHECK(cds.DefinedOn(*x.second) == want, "DefinedOn", "codim " << x.first << " index " << mesh->Index(*x.second));
    if (want) dom.push_back(x);
  }
  for (const auto &x : All(other)) CHECK(!cds.DefinedOn(*x.second), "DefinedOn entity of another mesh", "codim " << x.first);
  std::map<const Entity *, T> model;
  if (init)
    for (const auto &x : dom) model[x.second] = v0;
  const int n = g.i(1, 25);
  for (int k = 0; k < n; ++k) {
    const auto &x = g.pick(dom);
    if (g.b(0.6)) {
      const T v = Val<T>::make(g);
      wr(*x.second) = v;
      model[x.second] = v;
    } else if (model.count(x.second)) {
      CHECK(Eq(cds(*x.second), model[x.second]), "stored value", "step " << k << " codim " << x.first << " index " << mesh->Index(*x.second));
    }
  }
  for (const auto &x : dom)
    if (model.count(x.second))
      CHECK(Eq(cds(*x.second), model[x.second]) && Eq(wr(*x.second), model[x.second]), "stored value",
            "codim " << x.first << " index " << mesh->Index(*x.second));
  g.nontrivial(n > 3 && ents.size() > 4);
}

PBT_SUB("data set history", 20000, 300000,
        "random mesh, data set type (one or all codimensions), construction variant, value type (double, bool, int, char, string, dynamic vector, "
        "2x2 matrix) and 1..25 reads/writes, model: a map from entity to value; non-trivial: more than 3 operations") {
  MeshOpt o;
  o.max_n = 3;
  HMesh m = RandMesh(g, o);
  o.max_n = 1;
  HMesh m2 = RandMesh(g, o);
  const int t = g.i(0, 6);
  g.label("type " + std::to_string(t));
  switch (t) {
    case 0: DataSetHistory<double>(g, m.mesh, *m2.mesh); break;
    case 1: DataSetHistory<bool>(g, m.mesh, *m2.mesh); break;
    case 2: DataSetHistory<int>(g, m.mesh, *m2.mesh); break;
    case 3: DataSetHistory<char>(g, m.mesh, *m2.mesh); break;
    case 4: DataSetHistory<std::string>(g, m.mesh, *m2.mesh); break;
    case 5: DataSetHistory<Eigen::VectorXd>(g, m.mesh, *m2.mesh); break;
    default: DataSetHistory<Eigen::Matrix2d>(g, m.mesh, *m2.mesh);
  }
}

PBT_SUB("boundary and counts", 30000, 400000,
        "random mesh incl. holes, pinched vertices and annular topology (also refined once by the hierarchy); boundary flags of both codimensions "
        "and all super-entity counts against enumeration of the cells' vertex lists; non-trivial: interior and boundary edges exist") {
  MeshOpt o;
  o.allow_curved = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  std::shared_ptr<const lf::mesh::Mesh> mesh = m.mesh;
  if (m.dim == 2 && g.b(0.15)) {
    lf::refinement::MeshHierarchy h(m.mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
    h.RefineRegular(g.b() ? lf::refinement::RefPat::rp_regular : lf::refinement::RefPat::rp_barycentric);
    mesh = h.getMesh(1);
    g.label("refined mesh");
  }
  // enumeration from vertex lists only
  std::map<std::pair<int, int>, int> sides;
  std::vector<std::vector<int>> cells;
  for (const auto *c : mesh->Entities(0)) {
    std::vector<int> n;
    for (const auto *p : c->SubEntities(2)) n.push_back(static_cast<int>(mesh->Index(*p)));
    for (size_t k = 0; k < n.size(); ++k) {
      const int a = n[k];
      const int b = n[(k + 1) % n.size()];
      sides[{std::min(a, b), std::max(a, b)}]++;
    }
    cells.push_back(n);
  }
  const int np = mesh->NumEntities(2);
  std::vector<int> pc(np, 0);
  std::vector<int> pe(np, 0);
  std::vector<char> pb(np, 0);
  for (const auto &c : cells)
    for (int n : c) ++pc[n];
  int nb = 0;
  for (const auto &s : sides) {
    ++pe[s.first.first];
    ++pe[s.first.second];
    if (s.second == 1) {
      ++nb;
      pb[s.first.first] = pb[s.first.second] = 1;
    }
  }
  g.nontrivial(nb < static_cast<int>(sides.size()) && nb > 0);
  const auto bd1 = lmu::flagEntitiesOnBoundary(mesh, 1);
  const auto bd2 = lmu::flagEntitiesOnBoundary(mesh, 2);
  const auto bda = lmu::flagEntitiesOnBoundary(mesh);
  const auto n11 = lmu::CountNumSuperEntities(mesh, 1, 1);
  const auto n21 = lmu::CountNumSuperEntities(mesh, 2, 1);
  const auto n22 = lmu::CountNumSuperEntities(mesh, 2, 2);
  for (const auto *e : mesh->Entities(1)) {
    const int a = static_cast<int>(mesh->Index(*e->SubEntities(1)[0]));
    const int b = static_cast<int>(mesh->Index(*e->SubEntities(1)[1]));
    const int n = sides[{std::min(a, b), std::max(a, b)}];
    CHECK(bd1(*e) == (n == 1), "boundary edge flag", "edge " << a << "-" << b << " has " << n << " cells");
    CHECK(bda(*e) == (n == 1), "boundary edge flag (all codimensions)", "edge " << a << "-" << b << " has " << n << " cells");
    CHECK(n11(*e) == static_cast<unsigned>(n), "CountNumSuperEntities(1,1)", "edge " << a << "-" << b);
  }
  for (const auto *p : mesh->Entities(2)) {
    const int k = static_cast<int>(mesh->Index(*p));
    CHECK(bd2(*p) == static_cast<bool>(pb[k]), "boundary node flag", "node " << k);
    CHECK(bda(*p) == static_cast<bool>(pb[k]), "boundary node flag (all codimensions)", "node " << k);
    CHECK(n21(*p) == static_cast<unsigned>(pe[k]), "CountNumSuperEntities(2,1)", "node " << k);
    CHECK(n22(*p) == static_cast<unsigned>(pc[k]), "CountNumSuperEntities(2,2)", "node " << k);
  }
  for (const auto *c : mesh->Entities(0)) CHECK(!bda(*c), "cells are not on the boundary", mesh->Index(*c));
  for (unsigned c = 0; c <= 2; ++c) {
    const auto one = lmu::CountNumSuperEntities(mesh, c, 0);
    for (const auto *e : mesh->Entities(c)) CHECK(one(*e) == 1u, "CountNumSuperEntities(c,0)", "codim " << c);
    CHECK(bd1.DefinedOn(*mesh->EntityByIndex(c, 0)) == (c == 1), "flags defined on codim", c);
    CHECK(bd2.DefinedOn(*mesh->EntityByIndex(c, 0)) == (c == 2), "flags defined on codim", c);
  }
}

PBT_SUB("centre selector", 20000, 200000,
        "random mesh and predicate on positions; the selector must hand the predicate the centre of the entity's shape and return its value; "
        "non-trivial: at least 2 cells") {
  MeshOpt o;
  o.allow_curved = true;
  o.allow_3d = true;
  HMesh m = RandMesh(g, o);
  const double a = g.r(-1, 1);
  const double b = g.r(-1, 1);
  const double c = g.r(-1, 1) * m.scale;
  std::vector<Vec> seen;
  std::vector<bool> ret;
  auto pred = [&](const Eigen::MatrixXd &x) -> bool {
    CHECK(x.rows() == m.dim && x.cols() == 1, "position passed to the predicate", x.rows() << "x" << x.cols());
    seen.push_back(x.col(0));
    ret.push_back(a * x(0) + b * x(1) > c);
    return ret.back();
  };
  const lf::refinement::EntityCenterPositionSelector sel(pred);
  g.nontrivial(m.cells.size() > 1);
  for (const auto &x : All(*m.mesh)) {
    seen.clear();
    ret.clear();
    const bool r = sel(*x.second);
    CHECK(!seen.empty(), "predicate consulted", "codim " << x.first);
    CHECK(r == ret.back(), "value of the predicate returned", "codim " << x.first);
    // centre: image of the barycentre; triangles are documented through a rounded barycentre
    const lf::base::RefEl re = x.second->RefEl();
    const Mat corners = x.second->Geometry()->Global(re.NodeCoords());
    const Mat rc = re.NodeCoords();
    Mat bc(rc.rows(), 1);
    if (rc.rows() > 0) bc = rc.rowwise().mean();
    const Vec mid = x.second->Geometry()->Global(bc).col(0);
    double h = 0;
    for (int k = 0; k < corners.cols(); ++k) h = std::max(h, (corners.col(k) - corners.col(0)).norm());
    CHECK((seen.back() - mid).norm() <= 0.02 * h + 1e-12 * CoordScale(m.X), "position of the centre",
          "codim " << x.first << " index " << m.mesh->Index(*x.second) << " got " << seen.back().transpose() << " expected " << mid.transpose());
  }
}
