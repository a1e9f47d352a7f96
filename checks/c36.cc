// C36: objects keep their meaning when they are copied, moved or built from temporaries
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/io/io.h>
#include <lf/quad/quad.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>

#include "engine/pbt.h"
#include "gen/fespace.h"
#include "gen/history.h"
#include "gen/meshes.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::utils::operator+;
using lf::mesh::utils::operator-;
using lf::mesh::utils::operator*;

namespace {
using Print = std::vector<double>;
void Add(Print &p, const Mat &m) {
  p.push_back(m.rows()), p.push_back(m.cols());
  p.insert(p.end(), m.data(), m.data() + m.size());
}
std::string Diff(const Print &a, const Print &b) {
  if (a.size() != b.size()) return "lengths " + std::to_string(a.size()) + " " + std::to_string(b.size());
  for (size_t k = 0; k < a.size(); ++k)
    if (a[k] != b[k]) return "entry " + std::to_string(k) + ": " + std::to_string(a[k]) + " became " + std::to_string(b[k]);
  return "";
}
Mat Pts(RefEl t) {
  if (t == RefEl::kPoint()) return Mat(0, 1);
  if (t == RefEl::kSegment()) return (Mat(1, 3) << 0.0, 0.3, 1.0).finished();
  return (Mat(2, 4) << 0.0, 0.25, 0.5, 0.125, 0.0, 0.5, 0.25, 0.625).finished();
}
#define SAME(a, b, key, what)                         \
  do {                                                \
    const std::string d_ = Diff((a), (b));            \
    CHECK(d_.empty(), key, what << ": " << d_);       \
  } while (0)

Print GeoPrint(const lf::geometry::Geometry &geo) {
  Print p;
  const Mat x = Pts(geo.RefEl());
  p.push_back(static_cast<double>(geo.RefEl().Id()));
  p.push_back(geo.DimLocal()), p.push_back(geo.DimGlobal());
  p.push_back(geo.isAffine());
  Add(p, geo.Global(x));
  if (geo.DimLocal() > 0) {
    Add(p, geo.Jacobian(x));
    Add(p, geo.JacobianInverseGramian(x));
    Add(p, geo.IntegrationElement(x));
    Add(p, geo.SubGeometry(1, 0)->Global(Mat::Constant(geo.DimLocal() - 1, 1, 0.5)));
    for (const auto &c : geo.ChildGeometry(lf::refinement::Hybrid2DRefinementPattern(geo.RefEl(), geo.DimLocal() == 1 ? lf::refinement::RefPat::rp_split : lf::refinement::RefPat::rp_regular), 0)) Add(p, c->Global(Pts(c->RefEl())));
  } else {
    Add(p, geo.IntegrationElement(x));
  }
  return p;
}
template <class T>
bool CopyGeo(pbt::G &g, const lf::geometry::Geometry *a, const lf::geometry::Geometry *b, std::unique_ptr<lf::geometry::Geometry> &sa, std::unique_ptr<lf::geometry::Geometry> &sb) {
  const T *x = dynamic_cast<const T *>(a);
  if (!x) return false;
  const Print px = GeoPrint(*x);
  const T *y = dynamic_cast<const T *>(b);
  const Print py = y ? GeoPrint(*y) : px;
  T copy(*x);
  SAME(px, GeoPrint(copy), "copied geometry", "copy of a geometry");
  T moved(std::move(copy));
  SAME(px, GeoPrint(moved), "moved geometry", "geometry moved");
  if (y) {
    T other(*y);
    SAME(py, GeoPrint(other), "copied geometry", "copy of the other geometry");
    other = moved;
    SAME(px, GeoPrint(other), "assigned geometry", "assigned over a geometry");
    T third(*y);
    other = std::move(third);
    SAME(py, GeoPrint(other), "assigned geometry", "move-assigned over a geometry");
    SAME(px, GeoPrint(moved), "copy independent", "source after the target of the assignment was overwritten");
    g.label("assignment");
    T &alias = other;
    other = alias;
    SAME(py, GeoPrint(other), "self-assigned geometry", "self-assignment");
  }
  sa.reset();  // the originals go away
  sb.reset();
  SAME(px, GeoPrint(moved), "copy independent", "copy after its source was destroyed");
  return true;
}

Print RulePrint(const lf::quad::QuadRule &q) {
  Print p{static_cast<double>(q.RefEl().Id()), static_cast<double>(q.Degree()), static_cast<double>(q.NumPoints())};
  Add(p, q.Points());
  Add(p, q.Weights());
  return p;
}
template <class S>
Print FePrint(const lf::fe::ScalarReferenceFiniteElement<S> &fe) {
  Print p{static_cast<double>(fe.RefEl().Id()), static_cast<double>(fe.Degree()), static_cast<double>(fe.NumRefShapeFunctions())};
  const Mat x = Pts(fe.RefEl());
  for (unsigned c = 0; c <= fe.Dimension(); ++c) {
    for (unsigned k = 0; k < fe.RefEl().NumSubEntities(c); ++k) p.push_back(fe.NumRefShapeFunctions(c, k));
  }
  Add(p, fe.EvalReferenceShapeFunctions(x));
  if (fe.Dimension() > 0) Add(p, fe.GradientsReferenceShapeFunctions(x));
  Add(p, fe.EvaluationNodes());
  Eigen::Matrix<S, 1, Eigen::Dynamic> v(fe.NumEvaluationNodes());
  for (int k = 0; k < v.size(); ++k) v(k) = 1.0 / (k + 1.0);
  Add(p, fe.NodalValuesToDofs(v));
  return p;
}
Print DofPrint(const lf::assemble::DofHandler &d) {
  Print p{static_cast<double>(d.NumDofs())};
  const auto mesh = d.Mesh();
  for (unsigned c = 0; c <= 2; ++c)
    for (const auto *e : mesh->Entities(c)) {
      p.push_back(d.NumLocalDofs(*e)), p.push_back(d.NumInteriorDofs(*e));
      for (auto k : d.GlobalDofIndices(*e)) p.push_back(k);
      for (auto k : d.InteriorGlobalDofIndices(*e)) p.push_back(k);
    }
  for (unsigned k = 0; k < d.NumDofs(); ++k) p.push_back(mesh->Index(d.Entity(k))), p.push_back(d.Entity(k).Codim());
  return p;
}
template <class S>
Print SpacePrint(const lf::fe::ScalarFESpace<S> &s) {
  Print p = DofPrint(s.LocGlobMap());
  const auto mesh = s.Mesh();
  for (unsigned c = 0; c <= 2; ++c)
    for (const auto *e : mesh->Entities(c)) {
      const auto *fe = s.ShapeFunctionLayout(*e);
      if (!fe) {
        p.push_back(-1);
        continue;
      }
      const Print q = FePrint(*fe);
      p.insert(p.end(), q.begin(), q.end());
      p.push_back(s.NumRefShapeFunctions(*e));
    }
  return p;
}
/// values of a mesh function in all entities of a codimension
template <class MF>
Print Values(const MF &f, const lf::mesh::Mesh &mesh, unsigned codim) {
  Print p;
  for (const auto *e : mesh.Entities(codim))
    for (const auto &v : f(*e, Pts(e->RefEl()))) {
      if constexpr (std::is_convertible_v<decltype(v), double>) p.push_back(v);
      else Add(p, Mat(v));
    }
  return p;
}
std::shared_ptr<lf::mesh::Mesh> Mesh2(pbt::G &g, int n = 2) {
  MeshOpt o;
  o.max_n = n;
  o.unit_scale = true;
  return RandMesh(g, o).mesh;
}
/// overwrites freed memory
void Churn(pbt::G &g) {
  std::vector<std::unique_ptr<std::vector<double>>> v;
  for (int k = 0; k < 8; ++k) v.push_back(std::make_unique<std::vector<double>>(8 << k, -7.0));
}
template <class T>
void MoveSpace(pbt::G &g, std::unique_ptr<T> a, std::unique_ptr<T> b) {
  const Print pa = SpacePrint<double>(*a), pb = SpacePrint<double>(*b);
  const auto ma = a->Mesh(), mb = b->Mesh();
  if (g.b()) {
    T c(std::move(*a));
    a.reset();
    Churn(g);
    SAME(pa, SpacePrint<double>(c), "moved space", "space moved into a new one");
    CHECK(c.Mesh() == ma, "moved space", "the mesh of a moved space changed");
    *b = std::move(c);
  } else {
    *b = std::move(*a);
    a.reset();
  }
  Churn(g);
  SAME(pa, SpacePrint<double>(*b), "moved space", "space moved over another one");
  CHECK(b->Mesh() == ma, "moved space", "the mesh of a moved space changed");
  CHECK(b->LocGlobMap().Mesh() == ma, "moved space", "the mesh of the dof handler of a moved space changed");
  if (pa != pb) g.nontrivial();
}
}  // namespace

PBT_SUB("geometry", 1500, 20000, "two distinct geometries of the same type") {
  const int kind = g.i(0, 8);
  Shape a = RandShape(g, kind), b = RandShape(g, kind);
  std::unique_ptr<lf::geometry::Geometry> ga = std::move(a.geo), gb = std::move(b.geo);
  const auto *pa = ga.get();
  const auto *pb = gb.get();
  if (a.dimG() == b.dimG() || g.b()) g.nontrivial();
  g.label(a.kind);
  const bool ok = CopyGeo<lf::geometry::Point>(g, pa, pb, ga, gb) || CopyGeo<lf::geometry::SegmentO1>(g, pa, pb, ga, gb) || CopyGeo<lf::geometry::SegmentO2>(g, pa, pb, ga, gb) ||
                  CopyGeo<lf::geometry::TriaO1>(g, pa, pb, ga, gb) || CopyGeo<lf::geometry::TriaO2>(g, pa, pb, ga, gb) || CopyGeo<lf::geometry::QuadO1>(g, pa, pb, ga, gb) ||
                  CopyGeo<lf::geometry::QuadO2>(g, pa, pb, ga, gb) || CopyGeo<lf::geometry::Parallelogram>(g, pa, pb, ga, gb);
  CHECK(ok, "geometry type", "unknown geometry " << a.kind);
}

PBT_SUB("quadrature", 600, 8000, "several rules in the cache") {
  // rules are values
  const RefEl ts[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  auto a = std::make_unique<lf::quad::QuadRule>(lf::quad::make_QuadRule(ts[g.i(0, 2)], g.i(1, 9)));
  lf::quad::QuadRule b = lf::quad::make_QuadRule(ts[g.i(0, 2)], g.i(1, 9));
  const Print pa = RulePrint(*a), pb = RulePrint(b);
  lf::quad::QuadRule c(*a), d(b);
  d = *a;
  a.reset();
  SAME(pa, RulePrint(c), "copied rule", "copy of a rule");
  SAME(pa, RulePrint(d), "assigned rule", "assigned rule");
  c = std::move(b);
  SAME(pb, RulePrint(c), "assigned rule", "move-assigned rule");
  SAME(pa, RulePrint(d), "rule independent", "copy after another copy was overwritten");
  // a cache hands out references that stay valid, even when the cache is moved
  auto cache = std::make_unique<lf::quad::QuadRuleCache>();
  std::vector<std::pair<const lf::quad::QuadRule *, Print>> got;
  std::vector<std::pair<RefEl, unsigned>> req;
  const int n = g.i(2, 12);
  for (int k = 0; k < n; ++k) {
    const RefEl t = ts[g.i(0, 2)];
    const unsigned deg = g.i(0, 20);
    const auto &r = cache->Get(t, deg);
    got.emplace_back(&r, RulePrint(lf::quad::make_QuadRule(t, deg)));
    req.emplace_back(t, deg);
    g.desc() << t.ToString() << ":" << deg << " ";
  }
  auto check = [&](const char *what) {
    for (auto &[r, p] : got) SAME(p, RulePrint(*r), "cached rule", what);
  };
  check("cached rule after further requests");
  lf::quad::QuadRuleCache other;
  if (g.b()) other.Get(ts[g.i(0, 2)], g.i(0, 20));
  if (g.b()) {
    lf::quad::QuadRuleCache mid(std::move(*cache));
    other = std::move(mid);
  } else {
    other = std::move(*cache);
  }
  cache.reset();
  Churn(g);
  check("cached rule after the cache was moved");
  for (int k = 0; k < n; ++k) CHECK(&other.Get(req[k].first, req[k].second) == got[k].first, "cached rule", "a moved cache hands out another object for " << req[k].second);
  for (int k = g.i(0, 5); k > 0; --k) other.Get(ts[g.i(0, 2)], g.i(0, 30));
  check("cached rule after the moved cache grew");
  g.nontrivial();
}

PBT_SUB("matrix and data sets", 1200, 15000, "copies changed after copying") {
  const int r = g.i(1, 6), c = g.i(1, 6);
  auto entries = [&](lf::assemble::COOMatrix<double> &A, Mat &M) {
    for (int k = g.i(0, 12); k > 0; --k) {
      const int i = g.i(0, M.rows() - 1), j = g.i(0, M.cols() - 1);
      const double v = g.i(-8, 8);
      A.AddToEntry(i, j, v);
      M(i, j) += v;
    }
  };
  auto A = std::make_unique<lf::assemble::COOMatrix<double>>(r, c);
  Mat MA = Mat::Zero(r, c);
  entries(*A, MA);
  const int r2 = g.i(1, 6), c2 = g.i(1, 6);
  lf::assemble::COOMatrix<double> B(r2, c2);
  Mat MB = Mat::Zero(r2, c2);
  entries(B, MB);
  auto C = *A;
  Mat MC = MA;
  entries(C, MC);
  auto is = [&](const lf::assemble::COOMatrix<double> &X, const Mat &M, const char *what) {
    CHECK(static_cast<int>(X.rows()) == M.rows() && static_cast<int>(X.cols()) == M.cols(), "matrix size", what);
    CHECK((X.makeDense() - M).cwiseAbs().maxCoeff() == 0, "matrix entries", what);
    CHECK((Mat(X.makeSparse()) - M).cwiseAbs().maxCoeff() == 0, "matrix entries", what);
    const Vec x = Vec::Ones(M.cols());
    CHECK((X.MatVecMult(1.0, x) - M * x).cwiseAbs().maxCoeff() == 0, "matrix product", what);
  };
  is(*A, MA, "source of a copy that was changed");
  is(C, MC, "changed copy");
  B = *A;
  is(B, MA, "matrix assigned over another one");
  MB = MA;
  entries(*A, MA);
  is(B, MB, "copy after its source changed");
  lf::assemble::COOMatrix<double> D(std::move(*A));
  A.reset();
  is(D, MA, "moved matrix");
  entries(D, MA);
  is(D, MA, "moved matrix with further entries");
  C = std::move(D);
  is(C, MA, "move-assigned matrix");
  entries(C, MA);
  is(C, MA, "move-assigned matrix with further entries");
  // data sets
  auto m1 = Mesh2(g), m2 = Mesh2(g);
  const unsigned cd = g.i(0, 2);
  auto fill = [&](auto &ds, const lf::mesh::Mesh &m, unsigned k, double s) {
    for (const auto *e : m.Entities(k)) ds(*e) = s + m.Index(*e);
  };
  auto holds = [&](const auto &ds, const lf::mesh::Mesh &m, const lf::mesh::Mesh *no, unsigned k, double s, const char *what) {
    for (const auto *e : m.Entities(k)) {
      CHECK(ds.DefinedOn(*e), "data set", what << ": not defined");
      CHECK(ds(*e) == s + m.Index(*e), "data set", what << ": wrong value");
    }
    if (no)
      for (const auto *e : no->Entities(k)) CHECK(!ds.DefinedOn(*e), "data set", what << ": defined on another mesh");
  };
  {
    using DS = lf::mesh::utils::CodimMeshDataSet<double>;
    auto a = std::make_unique<DS>(m1, cd, 0.0);
    DS b(m2, cd, 0.0);
    fill(*a, *m1, cd, 0.5), fill(b, *m2, cd, 7.5);
    DS d(*a);
    fill(d, *m1, cd, 3.25);
    holds(*a, *m1, m2.get(), cd, 0.5, "source of a copied set");
    DS f(b);
    f = *a;
    a.reset();
    holds(f, *m1, m2.get(), cd, 0.5, "assigned set");
    holds(b, *m2, m1.get(), cd, 7.5, "source of an overwritten copy");
    f = std::move(b);
    holds(f, *m2, m1.get(), cd, 7.5, "move-assigned set");
    DS h(std::move(d));
    holds(h, *m1, m2.get(), cd, 3.25, "moved set");
    const auto bare = lf::mesh::utils::make_CodimMeshDataSet<double>(m1, cd, 4.0);
    for (const auto *e : m1->Entities(cd)) CHECK((*bare)(*e) == 4.0, "data set", "initial value");
  }
  {
    using DS = lf::mesh::utils::AllCodimMeshDataSet<double>;
    auto a = std::make_unique<DS>(m1, 0.0);
    DS b(m2, 0.0);
    for (unsigned k = 0; k < 3; ++k) fill(*a, *m1, k, 0.5 + k), fill(b, *m2, k, 7.5 + k);
    DS d(std::move(*a));
    a.reset();
    for (unsigned k = 0; k < 3; ++k) holds(d, *m1, m2.get(), k, 0.5 + k, "moved set of all codimensions");
    b = std::move(d);
    for (unsigned k = 0; k < 3; ++k) holds(b, *m1, m2.get(), k, 0.5 + k, "move-assigned set of all codimensions");
  }
  // a data set keeps its mesh alive
  {
    std::weak_ptr<lf::mesh::Mesh> w = m1;
    const lf::mesh::Entity *e = m1->EntityByIndex(cd, 0);
    lf::mesh::utils::CodimMeshDataSet<double> ds(m1, cd, 2.0);
    const auto copy = ds;
    m1.reset();
    CHECK(!w.expired() && copy(*e) == 2.0, "mesh alive", "a data set must keep its mesh");
  }
  g.nontrivial();
}

PBT_SUB("dof handler", 800, 10000, "two different dof handlers") {
  auto m1 = Mesh2(g), m2 = g.b() ? m1 : Mesh2(g);
  if (g.b()) {
    g.label("uniform");
    auto make = [&](const std::shared_ptr<const lf::mesh::Mesh> &m) {
      lf::assemble::UniformFEDofHandler::dof_map_t map{{RefEl::kPoint(), static_cast<unsigned>(g.i(0, 2))}, {RefEl::kSegment(), static_cast<unsigned>(g.i(0, 3))}, {RefEl::kTria(), static_cast<unsigned>(g.i(0, 3))}, {RefEl::kQuad(), static_cast<unsigned>(g.i(0, 3))}};
      return std::make_unique<lf::assemble::UniformFEDofHandler>(m, map);
    };
    auto a = make(m1), b = make(m2);
    const Print pa = DofPrint(*a);
    if (pa != DofPrint(*b)) g.nontrivial();
    if (g.b()) {
      lf::assemble::UniformFEDofHandler c(std::move(*a));
      a.reset();
      SAME(pa, DofPrint(c), "moved dof handler", "uniform dof handler moved");
      *b = std::move(c);
    } else {
      *b = std::move(*a);
      a.reset();
    }
    Churn(g);
    SAME(pa, DofPrint(*b), "moved dof handler", "uniform dof handler moved over another one");
  } else {
    g.label("dynamic");
    auto make = [&](const std::shared_ptr<const lf::mesh::Mesh> &m) {
      return std::make_unique<lf::assemble::DynamicFEDofHandler>(m, [&](const lf::mesh::Entity &) -> lf::base::size_type { return g.i(0, 3); });
    };
    auto a = make(m1), b = make(m2);
    const Print pa = DofPrint(*a);
    if (pa != DofPrint(*b)) g.nontrivial();
    if (g.b()) {
      lf::assemble::DynamicFEDofHandler c(std::move(*a));
      a.reset();
      SAME(pa, DofPrint(c), "moved dof handler", "dynamic dof handler moved");
      *b = std::move(c);
    } else {
      *b = std::move(*a);
      a.reset();
    }
    Churn(g);
    SAME(pa, DofPrint(*b), "moved dof handler", "dynamic dof handler moved over another one");
  }
}

PBT_SUB("spaces", 700, 9000, "moved over a different space") {
  std::shared_ptr<lf::mesh::Mesh> m1 = Mesh2(g), m2 = g.b(0.3) ? m1 : Mesh2(g);
  const int kind = g.i(0, 5);
  std::weak_ptr<lf::mesh::Mesh> w = m1;
  if (kind == 0) {
    g.label("O1");
    MoveSpace(g, std::make_unique<lf::uscalfe::FeSpaceLagrangeO1<double>>(m1), std::make_unique<lf::uscalfe::FeSpaceLagrangeO1<double>>(m2));
  } else if (kind == 1) {
    g.label("O2");
    MoveSpace(g, std::make_unique<lf::uscalfe::FeSpaceLagrangeO2<double>>(m1), std::make_unique<lf::uscalfe::FeSpaceLagrangeO2<double>>(m2));
  } else if (kind == 2) {
    g.label("O3");
    MoveSpace(g, std::make_unique<lf::uscalfe::FeSpaceLagrangeO3<double>>(m1), std::make_unique<lf::uscalfe::FeSpaceLagrangeO3<double>>(m2));
  } else if (kind == 3) {
    g.label("mixture of elements");
    using U = lf::uscalfe::UniformScalarFESpace<double>;
    auto make = [&](const std::shared_ptr<lf::mesh::Mesh> &m) {
      if (g.b()) return std::make_unique<U>(m, std::make_shared<lf::uscalfe::FeLagrangeO1Tria<double>>(), std::make_shared<lf::uscalfe::FeLagrangeO1Quad<double>>(), std::make_shared<lf::uscalfe::FeLagrangeO1Segment<double>>());
      return std::make_unique<U>(m, std::make_shared<lf::uscalfe::FeLagrangeO2Tria<double>>(), std::make_shared<lf::uscalfe::FeLagrangeO2Quad<double>>(), std::make_shared<lf::uscalfe::FeLagrangeO2Segment<double>>(), std::make_shared<lf::fe::FePoint<double>>(2));
    };
    MoveSpace(g, make(m1), make(m2));
  } else {
    g.label("hierarchic");
    using H = lf::fe::HierarchicScalarFESpace<double>;
    const bool mixed = kind == 5;
    auto make = [&](const std::shared_ptr<lf::mesh::Mesh> &m) {
      if (!mixed) return std::make_unique<H>(m, static_cast<unsigned>(g.i(1, 5)));
      lf::mesh::utils::AllCodimMeshDataSet<unsigned> deg(m, 1);
      for (int c = 0; c < 2; ++c)
        for (const auto *e : m->Entities(c)) deg(*e) = g.i(1, 5);
      return std::make_unique<H>(m, [&](const lf::mesh::Entity &e) -> unsigned { return deg(e); });
    };
    MoveSpace(g, make(m1), make(m2));
  }
  // copies of the element descriptions
  {
    auto cache = std::make_unique<lf::quad::QuadRuleCache>();
    const unsigned d1 = g.i(1, 6), d2 = g.i(1, 6);
    lf::fe::FeHierarchicSegment<double> s(d1, *cache), s2(d2, *cache);
    std::vector<lf::mesh::Orientation> ori;
    for (int k = 0; k < 4; ++k) ori.push_back(g.b() ? lf::mesh::Orientation::positive : lf::mesh::Orientation::negative);
    const std::array<unsigned, 3> e3{static_cast<unsigned>(g.i(1, 6)), static_cast<unsigned>(g.i(1, 6)), static_cast<unsigned>(g.i(1, 6))};
    const std::array<unsigned, 4> e4{static_cast<unsigned>(g.i(1, 6)), static_cast<unsigned>(g.i(1, 6)), static_cast<unsigned>(g.i(1, 6)), static_cast<unsigned>(g.i(1, 6))};
    auto t = std::make_unique<lf::fe::FeHierarchicTria<double>>(d1, e3, *cache, std::span<const lf::mesh::Orientation>(ori.data(), 3));
    auto q = std::make_unique<lf::fe::FeHierarchicQuad<double>>(d1, e4, *cache, std::span<const lf::mesh::Orientation>(ori.data(), 4));
    const Print ps = FePrint(s), pt = FePrint(*t), pq = FePrint(*q);
    s2 = s;
    SAME(ps, FePrint(s2), "copied element", "segment element assigned");
    lf::fe::FeHierarchicTria<double> t2(*t), t3(std::move(*t));
    t.reset();
    SAME(pt, FePrint(t2), "copied element", "triangle element copied");
    SAME(pt, FePrint(t3), "copied element", "triangle element moved");
    lf::fe::FeHierarchicQuad<double> q2(*q), q3(std::move(*q));
    q.reset();
    SAME(pq, FePrint(q2), "copied element", "quadrilateral element copied");
    SAME(pq, FePrint(q3), "copied element", "quadrilateral element moved");
  }
  {
    const auto fe = std::make_shared<const lf::uscalfe::FeLagrangeO2Quad<double>>();
    auto a = std::make_unique<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<double>>(fe.get(), lf::quad::make_QuadRule(RefEl::kQuad(), g.i(1, 8)));
    const Mat sv = a->PrecompReferenceShapeFunctions(), gr = a->PrecompGradientsReferenceShapeFunctions();
    const Print pe = FePrint<double>(*a), pr = RulePrint(a->Qr());
    lf::uscalfe::PrecomputedScalarReferenceFiniteElement<double> b(std::move(*a)), c;
    a.reset();
    CHECK(!c.isInitialized(), "precomputed element", "a default constructed one is not initialised");
    c = std::move(b);
    CHECK(c.isInitialized() && c.PrecompReferenceShapeFunctions() == sv && c.PrecompGradientsReferenceShapeFunctions() == gr, "precomputed element", "moved precomputed element differs");
    SAME(pe, FePrint<double>(c), "precomputed element", "element");
    SAME(pr, RulePrint(c.Qr()), "precomputed element", "rule");
  }
  CHECK(!w.expired() && w.use_count() >= 1, "mesh alive", "mesh gone");
  m2.reset();
  m1.reset();
  CHECK(w.expired(), "mesh released", "the mesh must be freed with the last space that uses it");
}

PBT_SUB("mesh functions", 900, 12000, "expression of at least two operands") {
  std::shared_ptr<lf::mesh::Mesh> mesh = Mesh2(g);
  auto S = RandSpace<double>(g, mesh, 1, 4);
  std::shared_ptr<const lf::fe::ScalarFESpace<double>> sp = S.s;
  S.s.reset();
  Vec u(sp->LocGlobMap().NumDofs()), v(u.size());
  for (int k = 0; k < u.size(); ++k) u(k) = g.num(), v(k) = g.num();
  const double cst = g.num();
  const double a0 = g.num();
  // references, evaluated while all operands are alive
  lf::fe::MeshFunctionFE<double, double> fu(sp, u), fv(sp, v);
  lf::fe::MeshFunctionGradFE<double, double> gu(sp, u), gv(sp, v);
  const Print ru = Values(fu, *mesh, 0), rv = Values(fv, *mesh, 0);
  const Print rgu = Values(gu, *mesh, 0);
  auto glob = [&](const Vec &x) { return a0 + x(0) - 2 * x(1); };
  const Print rg = Values(lf::mesh::utils::MeshFunctionGlobal(glob), *mesh, 0);
  Print sum(ru.size()), prod(ru.size()), mix(ru.size()), neg(ru.size());
  for (size_t k = 0; k < ru.size(); ++k) sum[k] = ru[k] + rv[k], prod[k] = ru[k] * rv[k], mix[k] = (ru[k] + rg[k]) * cst - rv[k], neg[k] = -(ru[k] - rv[k]);
  // built from temporaries only, all operands gone when evaluated
  auto factory = [&]() {
    const Vec u2 = u, v2 = v;
    const double shift = a0;
    return std::make_tuple(lf::fe::MeshFunctionFE<double, double>(sp, u2) + lf::fe::MeshFunctionFE<double, double>(sp, v2), lf::fe::MeshFunctionFE<double, double>(sp, u2) * lf::fe::MeshFunctionFE<double, double>(sp, v2),
                           (lf::fe::MeshFunctionFE<double, double>(sp, u2) + lf::mesh::utils::MeshFunctionGlobal([shift](const Vec &x) { return shift + x(0) - 2 * x(1); })) * lf::mesh::utils::MeshFunctionConstant<double>(cst) - lf::fe::MeshFunctionFE<double, double>(sp, v2),
                           lf::fe::MeshFunctionGradFE<double, double>(sp, u2));
  };
  auto t = std::make_unique<decltype(factory())>(factory());
  auto cp = *t;
  Churn(g);
  SAME(sum, Values(std::get<0>(*t), *mesh, 0), "expression", "sum of temporaries");
  SAME(prod, Values(std::get<1>(*t), *mesh, 0), "expression", "product of temporaries");
  SAME(mix, Values(std::get<2>(*t), *mesh, 0), "expression", "nested expression of temporaries");
  SAME(rgu, Values(std::get<3>(*t), *mesh, 0), "expression", "gradient from temporaries");
  t.reset();
  SAME(sum, Values(std::get<0>(cp), *mesh, 0), "copied expression", "copy of a sum");
  SAME(mix, Values(std::get<2>(cp), *mesh, 0), "copied expression", "copy of a nested expression");
  // assignments
  lf::fe::MeshFunctionFE<double, double> f2(fv);
  f2 = fu;
  fu = fv;
  SAME(ru, Values(f2, *mesh, 0), "assigned mesh function", "assigned mesh function after its source changed");
  SAME(rv, Values(fu, *mesh, 0), "assigned mesh function", "assigned mesh function");
  fu = std::move(f2);
  SAME(ru, Values(fu, *mesh, 0), "assigned mesh function", "move-assigned mesh function");
  gv = gu;
  SAME(rgu, Values(gv, *mesh, 0), "assigned mesh function", "assigned gradient");
  lf::mesh::utils::MeshFunctionConstant<double> c1(cst), c2(cst + 1);
  c2 = c1;
  for (double x : Values(c2, *mesh, 0)) CHECK(x == cst, "assigned mesh function", "assigned constant");
  // negation, and functions on edges
  {
    auto mk = [&] { return -(lf::fe::MeshFunctionFE<double, double>(sp, u) - lf::fe::MeshFunctionFE<double, double>(sp, v)); };
    auto n = mk();
    Churn(g);
    SAME(neg, Values(n, *mesh, 0), "expression", "negated difference of temporaries");
    auto e = lf::fe::MeshFunctionFE<double, double>(sp, u) + lf::fe::MeshFunctionFE<double, double>(sp, v);
    const Print a = Values(fu, *mesh, 1), b = Values(fv, *mesh, 1), s = Values(e, *mesh, 1);
    for (size_t k = 0; k < a.size(); ++k) CHECK(s[k] == a[k] + b[k], "expression", "sum on an edge");
  }
  // each function alone keeps its space and the mesh alive
  {
    auto own = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
    std::weak_ptr<lf::uscalfe::FeSpaceLagrangeO2<double>> ws = own;
    const Vec w = Vec::LinSpaced(own->LocGlobMap().NumDofs(), -1, cst);
    const bool grad = g.b();
    const Print want = grad ? Values(lf::fe::MeshFunctionGradFE<double, double>(own, w), *mesh, 0) : Values(lf::fe::MeshFunctionFE<double, double>(own, w), *mesh, 0);
    if (grad) {
      lf::fe::MeshFunctionGradFE<double, double> f(own, w);
      own.reset();
      Churn(g);
      CHECK(!ws.expired(), "space alive", "a gradient keeps its space");
      SAME(want, Values(f, *mesh, 0), "space alive", "gradient after the space was released by everybody else");
      CHECK(f.getMesh() == mesh, "space alive", "mesh");
    } else {
      lf::fe::MeshFunctionFE<double, double> f(own, w);
      own.reset();
      Churn(g);
      CHECK(!ws.expired(), "space alive", "a mesh function keeps its space");
      SAME(want, Values(f, *mesh, 0), "space alive", "mesh function after the space was released by everybody else");
      CHECK(f.getMesh() == mesh, "space alive", "mesh");
    }
    CHECK(ws.expired(), "space released", "space freed with its last user");
  }
  g.nontrivial();
}

PBT_SUB("transfer", 350, 4000, "expression of two functions transferred") {
  MeshOpt o;
  o.max_n = 2;
  o.unit_scale = true;
  const HMesh hm = RandMesh(g, o);
  auto mh = MakeHierarchy(hm);
  HistOpt ho;
  ho.max_cells = 120;
  const int n = g.i(1, 2);
  for (int k = 0; k < n; ++k) {
    RefStep st;
    if (!RandRefine(g, *mh, ho, st)) break;
  }
  if (mh->NumLevels() < 2) throw pbt::Discard{};
  const unsigned fin = mh->NumLevels() - 1;
  const std::shared_ptr<const lf::mesh::Mesh> coarse = mh->getMesh(0), fine = mh->getMesh(fin);
  auto S = RandSpace<double>(g, coarse, 1, 3);
  Vec u(S.s->LocGlobMap().NumDofs()), v(u.size());
  for (int k = 0; k < u.size(); ++k) u(k) = g.num(), v(k) = g.num();
  using F = lf::fe::MeshFunctionFE<double, double>;
  F fu(S.s, u), fv(S.s, v);
  auto fs = fu + fv;
  const lf::refinement::MeshFunctionTransfer ref(*mh, fs, 0, fin);
  const Print want = Values(ref, *fine, 0);
  // from a temporary
  auto make = [&] {
    const Vec u2 = u, v2 = v;
    return lf::refinement::MeshFunctionTransfer(*mh, F(S.s, u2) + F(S.s, v2), 0, fin);
  };
  auto t = std::make_unique<decltype(make())>(make());
  Churn(g);
  SAME(want, Values(*t, *fine, 0), "transfer of a temporary", "transfer built from a temporary sum");
  const auto cp = *t;
  t.reset();
  Churn(g);
  SAME(want, Values(cp, *fine, 0), "copied transfer", "copy of a transfer");
  // sums of transfers
  auto make2 = [&] { return lf::refinement::MeshFunctionTransfer(*mh, F(S.s, u), 0, fin) + lf::refinement::MeshFunctionTransfer(*mh, F(S.s, v), 0, fin); };
  auto s2 = make2();
  Churn(g);
  SAME(want, Values(s2, *fine, 0), "transfer of a temporary", "sum of transfers of temporaries");
  // meshes of the hierarchy may outlive it
  std::vector<std::shared_ptr<const lf::mesh::Mesh>> ms;
  std::vector<Print> pm;
  auto mp = [](const lf::mesh::Mesh &m) {
    Print p;
    for (unsigned c = 0; c <= 2; ++c)
      for (const auto *e : m.Entities(c)) {
        p.push_back(m.Index(*e));
        for (unsigned k = 1; k + c <= 2; ++k)
          for (const auto *s : e->SubEntities(k)) p.push_back(m.Index(*s));
        if (c < 2)
          for (auto r : e->RelativeOrientations()) p.push_back(lf::mesh::to_sign(r));
        Add(p, e->Geometry()->Global(Pts(e->RefEl())));
      }
    return p;
  };
  for (unsigned l = 0; l <= fin; ++l) ms.push_back(mh->getMesh(l)), pm.push_back(mp(*ms.back()));
  mh.reset();
  Churn(g);
  for (unsigned l = 0; l <= fin; ++l) {
    SAME(pm[l], mp(*ms[l]), "mesh outlives hierarchy", "mesh of level " + std::to_string(l) + " after the hierarchy was destroyed");
    lf::uscalfe::FeSpaceLagrangeO1<double> sp(ms[l]);
    CHECK(sp.LocGlobMap().NumDofs() == ms[l]->NumEntities(2), "mesh outlives hierarchy", "number of nodes");
  }
  g.nontrivial();
}

PBT_SUB("providers", 500, 6000, "matrices of all cells compared") {
  std::shared_ptr<lf::mesh::Mesh> mesh = Mesh2(g);
  auto S = RandSpace<double>(g, mesh, 1, 3);
  const double c0 = g.num(), c1 = g.num();
  auto alpha = [c0](const Vec &x) { return c0 + x(0); };
  auto gamma = [c1](const Vec &x) { return c1 - x(1); };
  auto mats = [&](auto &p, unsigned codim) {
    Print out;
    for (const auto *e : mesh->Entities(codim)) Add(out, Mat(p.Eval(*e)));
    return out;
  };
  auto probe = [&](auto make, unsigned codim, const char *what) {
    auto a = std::make_unique<decltype(make())>(make());
    const Print p = mats(*a, codim);
    std::decay_t<decltype(*a)> b(std::move(*a));
    a.reset();
    Churn(g);
    SAME(p, mats(b, codim), "moved provider", what);
    // a second one works alike, and evaluating one does not disturb the other
    auto c = make();
    SAME(p, mats(c, codim), "second provider", what);
    SAME(p, mats(b, codim), "moved provider", what);
  };
  // coefficients are handed over as temporaries
  probe([&] { return lf::fe::DiffusionElementMatrixProvider(S.s, lf::mesh::utils::MeshFunctionGlobal(alpha)); }, 0, "diffusion");
  probe([&] { return lf::fe::MassElementMatrixProvider(S.s, lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 0, "mass");
  probe([&] { return lf::fe::ScalarLoadElementVectorProvider(S.s, lf::mesh::utils::MeshFunctionGlobal(gamma) * lf::mesh::utils::MeshFunctionGlobal(alpha)); }, 0, "load");
  probe([&] { return lf::fe::MassEdgeMatrixProvider(S.s, lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 1, "edge mass");
  probe([&] { return lf::fe::ScalarLoadEdgeVectorProvider(S.s, lf::mesh::utils::MeshFunctionGlobal(alpha)); }, 1, "edge load");
  if (auto us = std::dynamic_pointer_cast<lf::uscalfe::UniformScalarFESpace<double>>(S.s)) {
    g.label("uniform providers");
    std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<double>> cs = us;
    probe([&] { return lf::uscalfe::ReactionDiffusionElementMatrixProvider(cs, lf::mesh::utils::MeshFunctionGlobal(alpha), lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 0, "reaction-diffusion");
    probe([&] { return lf::uscalfe::MassEdgeMatrixProvider(cs, lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 1, "uniform edge mass");
    probe([&] { return lf::uscalfe::ScalarLoadElementVectorProvider(cs, lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 0, "uniform load");
    probe([&] { return lf::uscalfe::ScalarLoadEdgeVectorProvider(cs, lf::mesh::utils::MeshFunctionGlobal(gamma)); }, 1, "uniform edge load");
  }
  // a provider outlives the shared pointers of its user
  {
    lf::fe::MassElementMatrixProvider p(S.s, lf::mesh::utils::MeshFunctionGlobal(gamma));
    const Print a = mats(p, 0);
    std::weak_ptr<lf::fe::ScalarFESpace<double>> w = S.s;
    S.s.reset();
    CHECK(!w.expired(), "space alive", "a provider keeps its space");
    Churn(g);
    SAME(a, mats(p, 0), "space alive", "provider after the space was released by everybody else");
  }
  g.nontrivial();
}
