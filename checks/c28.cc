// C28: product spaces, element matrices and tools of the DPG module.
#include <lf/assemble/assemble.h>
#include <dpg.h>
#include <dpg_element_matrix_provider.h>
#include <dpg_element_vector_provider.h>
#include <dpg_tools.h>
#include <product_element_matrix_provider_builder.h>
#include <product_element_vector_provider_builder.h>
#include <product_fe_space.h>
#include <product_fe_space_factory.h>

#include "gen/bvp.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;
namespace dpg = projects::dpg;

namespace gen {
template <>
struct Coef<Eigen::Vector2d> {
  static Eigen::Vector2d rand(pbt::G &g, int) { return {g.num(2), g.num(2)}; }
  static double abs(const Eigen::Vector2d &v) { return v.norm(); }
};
template <>
struct Coef<Eigen::Matrix2d> {
  static Eigen::Matrix2d rand(pbt::G &g, int) { return Eigen::Matrix2d::NullaryExpr([&](auto, auto) { return g.num(2); }); }
  static double abs(const Eigen::Matrix2d &v) { return v.norm(); }
};
}  // namespace gen
namespace {
enum Type { H1, L2, FLUX, TRACE };
struct Comp {
  Type t;
  int deg;
};
const char *Name(Type t) { return t == H1 ? "H1" : t == L2 ? "L2" : t == FLUX ? "flux" : "trace"; }
std::vector<Comp> RandComps(pbt::G &g, int nmin, int nmax, bool cells_only = false) {
  std::vector<Comp> r;
  const int n = g.i(nmin, nmax);
  for (int k = 0; k < n; ++k) {
    const Type t = cells_only ? (g.b() ? H1 : L2) : Type(g.i(0, 3));
    r.push_back({t, g.i(t == H1 || t == TRACE ? 1 : 0, 3)});
  }
  return r;
}
std::string Str(const std::vector<Comp> &c) {
  std::string s;
  for (auto &x : c) s += std::string(s.empty() ? "" : ",") + Name(x.t) + std::to_string(x.deg);
  return s;
}
int Num(const Comp &c, RefEl re) {
  const int p = c.deg;
  const bool all = c.t == L2 && re.Dimension() == 2;
  const int tri = p == 0 ? 1 : (p + 1) * (p + 2) / 2;
  const int quad = (p + 1) * (p + 1);
  if (c.t == L2) return re == RefEl::kTria() ? tri : re == RefEl::kQuad() ? quad : 0;
  if (c.t == FLUX) return re == RefEl::kSegment() ? p + 1 : 0;
  (void)all;
  if (re == RefEl::kPoint()) return 1;
  if (re == RefEl::kSegment()) return p - 1;
  if (c.t == TRACE) return 0;
  return re == RefEl::kTria() ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1);
}
void Add(dpg::ProductUniformFESpaceFactory<double> &f, const std::vector<Comp> &cs) {
  for (unsigned k = 0; k < cs.size(); ++k) {
    unsigned r = 0;
    switch (cs[k].t) {
      case H1: r = f.AddH1Component(cs[k].deg); break;
      case L2: r = f.AddL2Component(cs[k].deg); break;
      case FLUX: r = f.AddFluxComponent(cs[k].deg); break;
      case TRACE: r = f.AddTraceComponent(cs[k].deg); break;
    }
    CHECK(r == k, "factory/index", "component " << k << " added as " << r << " to " << Str(cs));
    CHECK(f.NumComponents() == k + 1, "factory/count", f.NumComponents() << " components after adding " << k + 1);
  }
}
using Map = std::map<RefEl, unsigned>;
lf::assemble::UniformFEDofHandler::dof_map_t DofMap(const Comp &c) {
  lf::assemble::UniformFEDofHandler::dof_map_t m;
  for (auto re : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) m[re] = Num(c, re);
  return m;
}
void CheckDofs(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const dpg::ProductUniformFEDofHandler &D, const std::vector<lf::assemble::UniformFEDofHandler::dof_map_t> &maps) {
  const unsigned n = maps.size();
  CHECK(D.NumComponents() == n && D.Mesh() == mesh, "dofs/components", D.NumComponents() << " components instead of " << n);
  std::vector<std::unique_ptr<lf::assemble::UniformFEDofHandler>> C;
  std::vector<unsigned> off(n + 1, 0);
  for (unsigned k = 0; k < n; ++k) {
    C.push_back(std::make_unique<lf::assemble::UniformFEDofHandler>(mesh, maps[k]));
    off[k + 1] = off[k] + C[k]->NumDofs();
    CHECK(D.NumDofs(k) == C[k]->NumDofs(), "dofs/number", "component " << k << ": " << D.NumDofs(k) << " unknowns instead of " << C[k]->NumDofs());
    CHECK(D.Offset(k) == off[k], "dofs/offset", "component " << k << " starts at " << D.Offset(k) << " instead of " << off[k]);
    CHECK(D.ComponentDofHandler(k).NumDofs() == C[k]->NumDofs(), "dofs/component_handler", "component " << k);
  }
  CHECK(D.NumDofs() == off[n], "dofs/total", D.NumDofs() << " instead of " << off[n]);
  for (unsigned k = 0; k < n; ++k)
    for (unsigned d = 0; d < C[k]->NumDofs(); ++d) {
      CHECK(D.Component(off[k] + d) == k, "dofs/component_of", "unknown " << off[k] + d << " in component " << D.Component(off[k] + d) << " instead of " << k);
      CHECK(&D.Entity(off[k] + d) == &C[k]->Entity(d), "dofs/entity", "unknown " << off[k] + d << " of component " << k);
    }
  for (unsigned codim = 0; codim <= 2; ++codim)
    for (const auto *e : mesh->Entities(codim)) {
      std::vector<unsigned> all, inner;
      for (unsigned k = 0; k < n; ++k) {
        const auto a = C[k]->GlobalDofIndices(*e);
        const auto i = C[k]->InteriorGlobalDofIndices(*e);
        CHECK(D.LocalStartIndex(*e, k) == all.size(), "dofs/local_start", "component " << k << " starts at " << D.LocalStartIndex(*e, k) << " instead of " << all.size() << " on " << *e);
        CHECK(D.NumLocalDofs(*e, k) == a.size(), "dofs/local_number", "component " << k << " has " << D.NumLocalDofs(*e, k) << " unknowns instead of " << a.size());
        CHECK(D.NumInteriorDofs(*e, k) == i.size(), "dofs/interior_number", "component " << k << " has " << D.NumInteriorDofs(*e, k) << " interior unknowns instead of " << i.size());
        const auto h = D.ComponentDofHandler(k).GlobalDofIndices(*e);
        CHECK(std::equal(a.begin(), a.end(), h.begin(), h.end()), "dofs/component_indices", "component " << k);
        for (auto d : a) all.push_back(off[k] + d);
        for (auto d : i) inner.push_back(off[k] + d);
      }
      const auto A = D.GlobalDofIndices(*e);
      const auto I = D.InteriorGlobalDofIndices(*e);
      CHECK(D.NumLocalDofs(*e) == all.size() && D.NumInteriorDofs(*e) == inner.size(), "dofs/entity_numbers", D.NumLocalDofs(*e) << "," << D.NumInteriorDofs(*e) << " instead of " << all.size() << "," << inner.size());
      CHECK(std::equal(all.begin(), all.end(), A.begin(), A.end()), "dofs/indices", "unknowns of " << *e << " of index " << mesh->Index(*e));
      CHECK(std::equal(inner.begin(), inner.end(), I.begin(), I.end()), "dofs/interior_indices", "unknowns of " << *e << " of index " << mesh->Index(*e));
    }
}
HMesh Mesh2(pbt::G &g, int n, bool curved, bool affine = false) {
  MeshOpt o;
  o.max_n = n;
  o.allow_curved = curved;
  o.affine_only = affine;
  HMesh hm = RandMesh(g, o);
  return hm;
}
std::shared_ptr<dpg::ProductUniformFESpace<double>> Space2(const HMesh &hm, const std::vector<Comp> &cs) {
  dpg::ProductUniformFESpaceFactory<double> f(hm.mesh);
  Add(f, cs);
  return f.Build();
}
Vec OuterNormal(const HMesh &hm, int c, int k) {
  const auto &v = hm.cells[c].v;
  const int n = v.size();
  const Vec a = hm.X.col(v[k]), b = hm.X.col(v[(k + 1) % n]);
  double area = 0;
  for (int i = 0; i < n; ++i) {
    const Vec p = hm.X.col(v[i]) - hm.X.col(v[0]), q = hm.X.col(v[(i + 1) % n]) - hm.X.col(v[0]);
    area += p(0) * q(1) - p(1) * q(0);
  }
  Vec m(2);
  m << (b - a)(1), -(b - a)(0);
  return (area > 0 ? 1.0 : -1.0) * m.normalized();
}

/// sum over a rule of test x trial contributions, with the sum of moduli
struct Sum {
  Mat M;
  double mag = 0;
  double tol = 1e-10;
  Sum(int r, int c) : M(Mat::Zero(r, c)) {}
  void add(const Mat &m) {
    M += m;
    mag += m.cwiseAbs().maxCoeff();
  }
};
bool Near(const Mat &A, const Sum &s) { return A.rows() == s.M.rows() && A.cols() == s.M.cols() && (A.size() == 0 || (A - s.M).cwiseAbs().maxCoeff() <= s.tol * s.mag + 1e-300); }
Mat Rows(const Mat &G, int k) { return G.block(0, 2 * k, G.rows(), 2); }

PBT_SUB("unknowns", 500, 6000, "at least two components with unknowns on a mesh of two or more cells") {
  const HMesh hm = Mesh2(g, 3, true);
  const auto mesh = hm.mesh;
  if (g.b(0.4)) {
    std::vector<lf::assemble::UniformFEDofHandler::dof_map_t> maps;
    const int n = g.i(1, 4);
    int used = 0;
    for (int k = 0; k < n; ++k) {
      lf::assemble::UniformFEDofHandler::dof_map_t m;
      int s = 0;
      for (auto re : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) s += m[re] = g.b(0.4) ? 0 : g.i(0, 4);
      used += s > 0;
      maps.push_back(m);
    }
    g.label("maps");
    g.nontrivial(used >= 2 && hm.cells.size() >= 2);
    const dpg::ProductUniformFEDofHandler D(mesh, maps);
    CheckDofs(mesh, D, maps);
    return;
  }
  const auto cs = RandComps(g, 1, 5);
  g.desc() << hm.Describe() << " " << Str(cs);
  g.nontrivial(cs.size() >= 2 && hm.cells.size() >= 2);
  dpg::ProductUniformFESpaceFactory<double> f(mesh);
  if (g.b(0.3)) {
    // a factory can be used again after it has built a space
    g.label("factory used again");
    const auto first = RandComps(g, 1, 3);
    Add(f, first);
    const auto s = f.Build();
    CHECK(s->NumComponents() == first.size(), "space/components", s->NumComponents());
  }
  Add(f, cs);
  const auto s = f.Build();
  CHECK(s->NumComponents() == cs.size() && s->Mesh() == mesh, "space/components", s->NumComponents() << " instead of " << cs.size());
  std::vector<lf::assemble::UniformFEDofHandler::dof_map_t> maps;
  for (unsigned k = 0; k < cs.size(); ++k) {
    maps.push_back(DofMap(cs[k]));
    g.label(Name(cs[k].t));
    // the mesh may lack one kind of cells: numbers per entity come from the elements that exist
    for (auto re : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
      CHECK(s->NumRefShapeFunctions(re, k) == maps[k][re], "space/numbers", Name(cs[k].t) << cs[k].deg << ": " << s->NumRefShapeFunctions(re, k) << " interior functions on " << re << " instead of " << maps[k][re]);
      const auto *fe = s->ShapeFunctionLayout(re, k);
      const bool cell = re.Dimension() == 2;
      const bool expected = re.Dimension() == 0 ? false : cell ? cs[k].t != FLUX : cs[k].t != L2;
      if (re.Dimension() == 0) continue;
      CHECK((fe != nullptr) == expected, "space/layout", Name(cs[k].t) << " on " << re);
      if (fe == nullptr) continue;
      CHECK(fe->RefEl() == re && fe->Degree() == (unsigned)cs[k].deg, "space/element", Name(cs[k].t) << cs[k].deg << " is of degree " << fe->Degree() << " on " << fe->RefEl());
      CHECK(fe->NumRefShapeFunctions(0) == maps[k][re], "space/element_numbers", "interior");
      unsigned total = 0;
      for (unsigned c = 0; c <= re.Dimension(); ++c)
        for (unsigned i = 0; i < re.NumSubEntities(c); ++i) {
          const unsigned want = maps[k][re.SubType(c, i)];
          CHECK(fe->NumRefShapeFunctions(c, i) == want && fe->NumRefShapeFunctions(c) == want, "space/element_numbers", Name(cs[k].t) << cs[k].deg << " on " << re << " codim " << c);
          total += want;
        }
      CHECK(fe->NumRefShapeFunctions() == total, "space/element_total", fe->NumRefShapeFunctions() << " instead of " << total);
      const Mat P = RandRefPoints(g, re, 3);
      CHECK(fe->EvalReferenceShapeFunctions(P).rows() == (int)total && fe->GradientsReferenceShapeFunctions(P).rows() == (int)total, "space/eval_size", "size of the evaluations");
      // the nodal values of every function are the coefficients: interpolation is the identity
      const Mat N = fe->EvaluationNodes();
      CHECK(N.cols() == (int)fe->NumEvaluationNodes(), "space/nodes", N.cols());
      const Mat V = fe->EvalReferenceShapeFunctions(N);
      for (unsigned i = 0; i < total; ++i) {
        const Eigen::RowVectorXd d = fe->NodalValuesToDofs(V.row(i));
        CHECK_MAT(d, Eigen::RowVectorXd(Eigen::RowVectorXd::Unit(total, i)), 1e-11, "space/nodal", Name(cs[k].t) << cs[k].deg << " function " << i << " on " << re);
      }
      // discontinuous and trace functions are those of the continuous element
      if (cs[k].deg > 0 && cs[k].t != H1) {
        const auto cont = Space2(hm, {{H1, cs[k].deg}});
        const auto *c0 = cont->ShapeFunctionLayout(re, 0);
        CHECK_MAT(Mat(fe->EvalReferenceShapeFunctions(P)), Mat(c0->EvalReferenceShapeFunctions(P).topRows(total)), 1e-13, "space/functions", Name(cs[k].t) << cs[k].deg << " on " << re);
        CHECK_MAT(Mat(fe->GradientsReferenceShapeFunctions(P)), Mat(c0->GradientsReferenceShapeFunctions(P).topRows(total)), 1e-12, "space/gradients", Name(cs[k].t) << cs[k].deg << " on " << re);
      }
      if (cs[k].deg == 0) {
        CHECK_MAT(Mat(fe->EvalReferenceShapeFunctions(P)), Mat(Mat::Ones(1, 3)), 0, "space/functions", "constant on " << re);
        CHECK(fe->GradientsReferenceShapeFunctions(P).isZero(0), "space/gradients", "constant on " << re);
      }
    }
    const auto cf = s->ComponentFESpace(k);
    CHECK(cf->LocGlobMap().NumDofs() == s->LocGlobMap().NumDofs(k) && cf->Mesh() == mesh, "space/component_space", "component " << k);
    for (const auto *e : mesh->Entities(0)) {
      CHECK(cf->ShapeFunctionLayout(e->RefEl()) == s->ShapeFunctionLayout(e->RefEl(), k), "space/component_layout", "component " << k);
      const auto a = cf->LocGlobMap().GlobalDofIndices(*e);
      const auto b = s->LocGlobMap().ComponentDofHandler(k).GlobalDofIndices(*e);
      CHECK(std::equal(a.begin(), a.end(), b.begin(), b.end()), "space/component_indices", "component " << k);
    }
  }
  CheckDofs(mesh, s->LocGlobMap(), maps);
}

PBT_SUB("tools", 400, 6000, "mesh of two or more cells") {
  const HMesh hm = Mesh2(g, 3, false);
  const auto mesh = hm.mesh;
  g.desc() << hm.Describe();
  g.nontrivial(hm.cells.size() >= 2);
  const double L = (hm.X.colwise() - Vec(hm.X.rowwise().mean())).colwise().norm().maxCoeff();
  // boundary quadrature
  for (auto re : {RefEl::kTria(), RefEl::kQuad()}) {
    Mat P;
    Vec w;
    const auto qr = RandRule(g, RefEl::kSegment(), P, w);
    const auto B = dpg::BoundaryQuadRule(re, qr);
    const int n = re.NumSubEntities(1);
    CHECK((int)B.size() == n, "boundary_rule/number", B.size() << " rules for " << re);
    const Mat N = re.NodeCoords();
    for (int i = 0; i < n; ++i) {
      const Vec a = N.col(i), b = N.col((i + 1) % n);
      CHECK(B[i].RefEl() == re && (int)B[i].NumPoints() == P.cols(), "boundary_rule/size", B[i].NumPoints() << " points");
      for (int k = 0; k < P.cols(); ++k) {
        CHECK_MAT(Vec(B[i].Points().col(k)), Vec(a + P(0, k) * (b - a)), 1e-14, "boundary_rule/points", "point " << k << " of edge " << i << " of " << re);
        CHECK_NEAR(B[i].Weights()(k), w(k) * (b - a).norm(), 1e-14 * (1 + std::abs(w(k))), "boundary_rule/weights", "weight " << k << " of edge " << i << " of " << re);
      }
    }
  }
  // normals
  for (const auto *c : mesh->Entities(0)) {
    const int ci = mesh->Index(*c);
    const Mat N = dpg::OuterNormals(*c->Geometry());
    CHECK(N.rows() == 2 && N.cols() == (int)c->RefEl().NumSubEntities(1), "normals/size", N.rows() << "x" << N.cols());
    for (int k = 0; k < N.cols(); ++k) CHECK_MAT(Vec(N.col(k)), OuterNormal(hm, ci, k), 1e-9, "normals/value", "edge " << k << " of cell " << ci);
  }
  {
    // normals of a quadrilateral with a reflex vertex: a point inside a triangle replaces one of its sides
    Mat T(2, 3);
    const double phi = g.r(0, 6.28);
    for (int k = 0; k < 3; ++k) T.col(k) = g.r(0.5, 2) * Eigen::Vector2d(std::cos(phi + k * 2.0944), std::sin(phi + k * 2.0944));
    const double la = g.r(0.1, 0.45), lc = g.r(0.1, 0.45);
    Mat Q(2, 4), C(2, 4);
    Q << T, T * Eigen::Vector3d(la, 1 - la - lc, lc);
    const int shift = g.i(0, 3);
    const bool cw = g.b();
    for (int k = 0; k < 4; ++k) C.col(k) = Q.col(cw ? (shift + 4 - k) % 4 : (shift + k) % 4);
    C = (C * std::pow(10.0, g.r(-3, 3))).eval();
    const lf::geometry::QuadO1 quad(C);
    const Mat N = dpg::OuterNormals(quad);
    CHECK(N.rows() == 2 && N.cols() == 4, "normals/size", N.rows() << "x" << N.cols());
    for (int k = 0; k < 4; ++k) {
      const Vec d = (C.col((k + 1) % 4) - C.col(k)).normalized() * (cw ? -1 : 1);
      CHECK_MAT(Vec(N.col(k)), Vec(Eigen::Vector2d(d(1), -d(0))), 1e-9, "normals/reflex", "edge " << k << " of the quadrilateral " << C << (cw ? " (clockwise)" : ""));
    }
  }
  // signs
  const dpg::PrescribedSignProvider sp(mesh);
  for (unsigned e = 0; e < hm.edges.size(); ++e) {
    std::vector<int> s;
    for (auto [c, k] : hm.edges[e].cells) {
      const auto *cell = mesh->EntityByIndex(0, c);
      s.push_back(sp.PrescribedSign(*cell, *cell->SubEntities(1)[k]));
    }
    if (s.size() == 1) CHECK(s[0] == 1, "sign/boundary", "the prescribed normal of a boundary edge points inwards");
    if (s.size() == 2) CHECK(s[0] * s[1] == -1, "sign/interior", "signs " << s[0] << " and " << s[1] << " of an interior edge");
  }
  // inflow and outflow boundary
  const Vec b0 = Vec::NullaryExpr(2, [&](auto) { return g.r(-1, 1); });
  Mat B1 = Mat::NullaryExpr(2, 2, [&](auto, auto) { return g.r(-1, 1); });
  if (g.b(0.3)) B1.setZero();
  const Vec x0 = hm.X.rowwise().mean();
  auto beta = [&](const Vec &x) -> Eigen::Vector2d { return b0 + B1 * (x - x0) / L; };
  const lf::mesh::utils::MeshFunctionGlobal beta_mf([&](const Eigen::Vector2d &x) { return beta(x); });
  auto in = dpg::flagEntitiesOnInflowBoundary(mesh, beta_mf);
  auto out = dpg::flagEntitiesOnOutflowBoundary(mesh, beta_mf);
  int nin = 0, nout = 0;
  for (unsigned e = 0; e < hm.edges.size(); ++e) {
    const auto &E = hm.edges[e];
    const auto *cell = mesh->EntityByIndex(0, E.cells[0].first);
    const auto &ed = *cell->SubEntities(1)[E.cells[0].second];
    if (E.cells.size() != 1) {
      CHECK(!in(ed) && !out(ed), "flow/interior", "an interior edge is on the inflow or outflow boundary");
      continue;
    }
    const double f = OuterNormal(hm, E.cells[0].first, E.cells[0].second).dot(beta(0.5 * (hm.X.col(E.a) + hm.X.col(E.b))));
    CHECK(in(ed) != out(ed), "flow/partition", "a boundary edge belongs to both parts or none");
    if (std::abs(f) < 1e-7) continue;
    CHECK(in(ed) == (f < 0), "flow/value", "flow " << f << " through an edge flagged " << (in(ed) ? "inflow" : "outflow"));
    (f < 0 ? nin : nout)++;
  }
  if (nin && nout) g.label("both flow directions");
  // essential conditions of a trace and a flux component
  auto cs = RandComps(g, 0, 2);
  const unsigned tc = g.i(0, cs.size());
  cs.insert(cs.begin() + tc, Comp{TRACE, g.i(1, 3)});
  const unsigned fc0 = g.i(0, cs.size());
  cs.insert(cs.begin() + fc0, Comp{FLUX, g.i(0, 3)});
  const unsigned fc = fc0, tcc = tc >= fc0 ? tc + 1 : tc;
  g.desc() << " " << Str(cs);
  const auto fes = Space2(hm, cs);
  std::vector<int> sel(hm.edges.size());
  for (auto &s : sel) s = g.i(0, 3);
  auto own = [&](const Entity &e) {
    const auto s = e.SubEntities(1);
    const int a = mesh->Index(*s[0]), b = mesh->Index(*s[1]);
    return hm.eid.at({std::min(a, b), std::max(a, b)});
  };
  const bool bool_sets = g.b(0.3);
  if (bool_sets)
    for (auto &s : sel) s = g.i(0, 1) ? 1 : 2;
  const auto gd = RandPoly<double>(g, hm, 3, false);
  const auto hd = RandPoly<double>(g, hm, 3, true);
  auto dsel = [&](const Entity &e) { return (sel[own(e)] & 1) != 0; };
  auto nsel = [&](const Entity &e) { return (sel[own(e)] & 2) != 0; };
  const auto r = dpg::InitEssentialConditionsFromFunctions(*fes, tcc, fc, dsel, nsel, gd, hd);
  const auto &D = fes->LocGlobMap();
  std::vector<std::pair<bool, double>> want(D.NumDofs(), {false, 0.0});
  for (const auto *e : mesh->Entities(1)) {
    for (int what = 0; what < 2; ++what) {
      if (what == 0 ? !dsel(*e) : !nsel(*e)) continue;
      const unsigned k = what == 0 ? tcc : fc;
      const auto *fe = fes->ShapeFunctionLayout(RefEl::kSegment(), k);
      const Mat N = fe->EvaluationNodes();
      const auto idx = D.ComponentDofHandler(k).GlobalDofIndices(*e);
      const Mat X = e->Geometry()->Global(N);
      CHECK((int)idx.size() == N.cols(), "essential/size", idx.size());
      for (int i = 0; i < N.cols(); ++i) want[D.Offset(k) + idx[i]] = {true, (what == 0 ? gd : hd).at(1, mesh->Index(*e), X.col(i))};
    }
  }
  CHECK(r.size() == want.size(), "essential/number", r.size() << " instead of " << want.size());
  for (unsigned d = 0; d < want.size(); ++d) {
    CHECK(r[d].first == want[d].first, "essential/flag", "unknown " << d << " of component " << D.Component(d) << " flagged " << r[d].first);
    if (want[d].first) CHECK_NEAR(r[d].second, want[d].second, 1e-9, "essential/value", "unknown " << d << " of component " << D.Component(d));
  }
}

PBT_SUB("matrices", 300, 5000, "cell that is not an affine image of positive orientation, or coefficient that is not constant") {
  const bool curved = g.b(0.3);
  const HMesh hm = Mesh2(g, 2, curved);
  const auto mesh = hm.mesh;
  bool special = false;
  // components: test (cells) and trial
  const int kind = g.i(0, 5);  // diffusion reaction convection flux trace load
  auto trial_c = RandComps(g, 0, 2), test_c = RandComps(g, 0, 2);
  const unsigned ti = g.i(0, trial_c.size()), vi = g.i(0, test_c.size());
  Comp tr{g.b() ? H1 : L2, 1};
  if (kind == 3) tr.t = FLUX;
  if (kind == 4) tr.t = TRACE;
  tr.deg = g.i(tr.t == H1 || tr.t == TRACE ? 1 : 0, 3);
  Comp te{g.b() ? H1 : L2, 1};
  te.deg = g.i(te.t == H1 ? 1 : 0, 3);
  trial_c.insert(trial_c.begin() + ti, tr);
  test_c.insert(test_c.begin() + vi, te);
  const auto U = Space2(hm, trial_c);
  const auto V = Space2(hm, test_c);
  g.desc() << hm.Describe() << " trial " << Str(trial_c) << "[" << ti << "] test " << Str(test_c) << "[" << vi << "] kind " << kind;
  const int cdeg = g.pick<int>({0, 0, 1, 2, 3});
  special = special || cdeg > 0;
  const auto alpha = RandPoly<double>(g, hm, cdeg, true);
  const auto A = RandPoly<Eigen::Matrix2d>(g, hm, cdeg, true);
  const auto b1 = RandPoly<Eigen::Vector2d>(g, hm, cdeg, true);
  const auto b2 = RandPoly<Eigen::Vector2d>(g, hm, cdeg, true);
  const bool tensor = g.b();
  dpg::ProductElementMatrixProviderBuilder<double> mb(U, V);
  dpg::ProductElementVectorProviderBuilder<double> vb(V);
  std::shared_ptr<dpg::ProductElementMatrixProvider<double>> mp;
  std::shared_ptr<dpg::ProductElementVectorProvider<double>> vp;
  std::shared_ptr<dpg::SubElementMatrixProvider<double>> sp;
  const bool direct = g.b(0.5);
  auto make = [&](auto *tag) { (void)tag; };
  (void)make;
  switch (kind) {
    case 0:
      g.label(tensor ? "diffusion tensor" : "diffusion");
      if (tensor) {
        mb.AddDiffusionElementMatrixProvider(ti, vi, A);
        sp = std::make_shared<dpg::DiffusionElementMatrixProvider<double, PolyMF<Eigen::Matrix2d>>>(U, V, ti, vi, A);
      } else {
        mb.AddDiffusionElementMatrixProvider(ti, vi, alpha);
        sp = std::make_shared<dpg::DiffusionElementMatrixProvider<double, PolyMF<double>>>(U, V, ti, vi, alpha);
      }
      break;
    case 1:
      g.label("reaction");
      mb.AddReactionElementMatrixProvider(ti, vi, alpha);
      sp = std::make_shared<dpg::ReactionElementMatrixProvider<double, PolyMF<double>>>(U, V, ti, vi, alpha);
      break;
    case 2:
      g.label("convection");
      mb.AddConvectionElementMatrixProvider(ti, vi, b1, b2);
      sp = std::make_shared<dpg::ConvectionElementMatrixProvider<double, PolyMF<Eigen::Vector2d>, PolyMF<Eigen::Vector2d>>>(U, V, ti, vi, b1, b2);
      break;
    case 3:
      g.label("flux");
      mb.AddFluxElementMatrixProvider(ti, vi, alpha);
      sp = std::make_shared<dpg::FluxElementMatrixProvider<double, PolyMF<double>>>(U, V, ti, vi, alpha);
      break;
    case 4:
      g.label("trace");
      mb.AddTraceElementMatrixProvider(ti, vi, b1);
      sp = std::make_shared<dpg::TraceElementMatrixProvider<double, PolyMF<Eigen::Vector2d>>>(U, V, ti, vi, b1);
      break;
    case 5: g.label("load"); vb.AddLoadElementVectorProvider(vi, alpha); break;
  }
  if (kind == 5) {
    vp = vb.Build();
  } else {
    mp = mb.Build();
    CHECK(sp->TrialComponent() == ti && sp->TestComponent() == vi && sp->isActive(*mesh->EntityByIndex(0, 0)), "provider/components", sp->TrialComponent() << "," << sp->TestComponent());
  }
  const dpg::PrescribedSignProvider sign(mesh);
  const auto &DU = U->LocGlobMap();
  const auto &DV = V->LocGlobMap();
  Vec coef;
  if (kind == 3) coef = Vec::NullaryExpr(DU.NumDofs(ti), [&](auto) { return g.r(-1, 1); });
  for (const auto *cell : mesh->Entities(0)) {
    const int ci = mesh->Index(*cell);
    const OwnGeo geo(hm, *cell);
    const auto re = cell->RefEl();
    if (kind == 4 && !geo.straight()) continue;
    special = special || !geo.affine() || geo.jac(Vec::Constant(2, 0.3)).determinant() < 0;
    const auto *fv = V->ShapeFunctionLayout(re, vi);
    const int q = fv->Degree();
    const int nv = fv->NumRefShapeFunctions();
    const int ne = re.NumSubEntities(1);
    const auto *fu = kind == 3 ? nullptr : kind == 5 ? fv : U->ShapeFunctionLayout(re, ti);
    const auto *fs = kind == 3 ? U->ShapeFunctionLayout(RefEl::kSegment(), ti) : nullptr;
    const int p = kind == 3 ? fs->Degree() : fu->Degree();
    // element matrix
    Mat M;
    if (kind == 5) {
      const Vec full = vp->Eval(*cell);
      CHECK(full.size() == (int)DV.NumLocalDofs(*cell), "load/size", full.size());
      M = full.segment(DV.LocalStartIndex(*cell, vi), nv);
      Vec rest = full;
      rest.segment(DV.LocalStartIndex(*cell, vi), nv).setZero();
      CHECK(rest.isZero(0), "load/other", "entries of other components");
    } else {
      const Mat full = mp->Eval(*cell);
      CHECK(full.rows() == (int)DV.NumLocalDofs(*cell) && full.cols() == (int)DU.NumLocalDofs(*cell), "matrix/size", full.rows() << "x" << full.cols());
      const int nu = DU.NumLocalDofs(*cell, ti);
      const int r0 = DV.LocalStartIndex(*cell, vi), c0 = DU.LocalStartIndex(*cell, ti);
      M = full.block(r0, c0, nv, nu);
      Mat rest = full;
      rest.block(r0, c0, nv, nu).setZero();
      CHECK(rest.isZero(0), "matrix/other", "entries of other components");
      if (direct) CHECK_MAT(Mat(sp->Eval(*cell)), M, 0, "matrix/direct", "provider and builder disagree");
    }
    const int nc = kind == 3 || kind == 5 ? 1 : fu->NumRefShapeFunctions();
    if (kind == 3) {
      // flux function from its unknowns on the edges
      Vec loc(M.cols());
      const auto idx = DU.ComponentDofHandler(ti).GlobalDofIndices(*cell);
      CHECK((int)idx.size() == M.cols(), "flux/size", idx.size());
      for (int i = 0; i < loc.size(); ++i) loc(i) = coef(idx[i]);
      M = M * loc;
    }
    auto compute = [&](int n, bool lib) {
      Sum s(nv, nc);
      Mat P;
      Vec w;
      if (kind == 3 || kind == 4) {
        if (lib) {
          const auto qr = lf::quad::make_QuadRule(RefEl::kSegment(), n);
          P = qr.Points();
          w = qr.Weights();
        } else {
          RefQuad(RefEl::kSegment(), n, P, w);
        }
        const Mat N = re.NodeCoords();
        for (int k = 0; k < ne; ++k) {
          const auto &edge = *cell->SubEntities(1)[k];
          const bool pos = edge.SubEntities(1)[0] == cell->SubEntities(2)[k];
          const Vec a = N.col(k), b = N.col((k + 1) % ne);
          const int sg = sign.PrescribedSign(*cell, edge);
          for (int j = 0; j < P.cols(); ++j) {
            const double t = P(0, j);
            const Vec x = a + t * (b - a);
            const double ds = (geo.jac(x) * (b - a)).norm();
            const Mat v = fv->EvalReferenceShapeFunctions(x);
            if (kind == 3) {
              const Mat te = Mat::Constant(1, 1, pos ? t : 1 - t);
              const Mat ph = fs->EvalReferenceShapeFunctions(te);
              const auto ei = DU.ComponentDofHandler(ti).InteriorGlobalDofIndices(edge);
              double f = 0;
              for (int i = 0; i < ph.rows(); ++i) f += coef(ei[i]) * ph(i, 0);
              s.add(w(j) * ds * sg * alpha.at(0, ci, geo.map(x)) * f * v);
              s.mag += w(j) * ds * alpha.mag(0, ci) * v.cwiseAbs().maxCoeff();
            } else {
              const Mat u = fu->EvalReferenceShapeFunctions(x);
              const double bn = OuterNormal(hm, ci, k).dot(Vec(b1.at(0, ci, geo.map(x))));
              s.add(w(j) * ds * bn * v * u.transpose());
              s.mag += w(j) * ds * b1.mag(0, ci) * v.cwiseAbs().maxCoeff() * u.cwiseAbs().maxCoeff();
            }
          }
        }
        return s;
      }
      if (lib) {
        const auto qr = lf::quad::make_QuadRule(re, n);
        P = qr.Points();
        w = qr.Weights();
      } else {
        RefQuad(re, n, P, w);
      }
      const Mat v = fv->EvalReferenceShapeFunctions(P), dv = fv->GradientsReferenceShapeFunctions(P);
      const Mat u = fu->EvalReferenceShapeFunctions(P), du = fu->GradientsReferenceShapeFunctions(P);
      for (int j = 0; j < P.cols(); ++j) {
        const Vec x = P.col(j);
        const Mat J = geo.jac(x);
        // rounding errors of the Jacobian grow where the cell is nearly degenerate
        const double sigma = J.jacobiSvd().singularValues()(1);
        s.tol = std::max(s.tol, 1e-13 * std::pow(hm.CellNodes(ci, 1).cwiseAbs().maxCoeff() / sigma + J.norm() / sigma, 2));
        const double W = w(j) * Metric(J);
        const Mat Ji = J.inverse();
        const Mat gv = Rows(dv, j) * Ji, gu = Rows(du, j) * Ji;  // rows: gradients
        const Vec X = geo.map(x);
        const double scale = std::abs(W);
        const double mv = v.col(j).cwiseAbs().maxCoeff(), mu = u.col(j).cwiseAbs().maxCoeff(), mgv = gv.cwiseAbs().maxCoeff(), mgu = gu.cwiseAbs().maxCoeff();
        if (kind == 0) {
          if (tensor) {
            s.add(W * gv * A.at(0, ci, X) * gu.transpose());
            s.mag += scale * A.mag(0, ci) * mgv * mgu;
          } else {
            s.add(W * alpha.at(0, ci, X) * gv * gu.transpose());
            s.mag += scale * alpha.mag(0, ci) * mgv * mgu;
          }
        } else if (kind == 1) {
          s.add(W * alpha.at(0, ci, X) * v.col(j) * u.col(j).transpose());
          s.mag += scale * alpha.mag(0, ci) * mv * mu;
        } else if (kind == 2) {
          s.add(W * (gv * b1.at(0, ci, X) * u.col(j).transpose() + v.col(j) * (gu * b2.at(0, ci, X)).transpose()));
          s.mag += scale * (b1.mag(0, ci) * mgv * mu + b2.mag(0, ci) * mgu * mv);
        } else {
          s.add(W * alpha.at(0, ci, X) * v.col(j));
          s.mag += scale * alpha.mag(0, ci) * mv;
        }
      }
      return s;
    };
    // with the documented rule, or exactly
    const Sum rule = compute(kind == 5 ? 2 * q : p + q, true);
    if (Near(M, rule)) continue;
    const Sum exact = compute(14, false);
    if (Near(M, exact)) continue;
    const char *names[] = {"diffusion", "reaction", "convection", "flux", "trace", "load"};
    FAIL(std::string("matrix/") + names[kind], "cell " << ci << " (" << re << "): result\n" << M << "\nwith the rule\n" << rule.M << "\nexactly\n" << exact.M);
  }
  g.nontrivial(special);
  if (kind == 4) {
    // trace functions are single-valued on every edge
    const Vec c = Vec::NullaryExpr(DU.NumDofs(ti), [&](auto) { return g.r(-1, 1); });
    const auto &C = DU.ComponentDofHandler(ti);
    for (const auto *cell : mesh->Entities(0)) {
      const auto re = cell->RefEl();
      const Mat N = re.NodeCoords();
      const int ne = re.NumSubEntities(1);
      const auto ci = C.GlobalDofIndices(*cell);
      for (int k = 0; k < ne; ++k) {
        const auto &edge = *cell->SubEntities(1)[k];
        const bool pos = edge.SubEntities(1)[0] == cell->SubEntities(2)[k];
        const double t = g.r(0, 1);
        const Mat vc = U->ShapeFunctionLayout(re, ti)->EvalReferenceShapeFunctions(N.col(k) + t * (N.col((k + 1) % ne) - N.col(k)));
        const Mat ve = U->ShapeFunctionLayout(RefEl::kSegment(), ti)->EvalReferenceShapeFunctions(Mat::Constant(1, 1, pos ? t : 1 - t));
        const auto ei = C.GlobalDofIndices(edge);
        double a = 0, b = 0;
        for (int i = 0; i < vc.rows(); ++i) a += c(ci[i]) * vc(i, 0);
        for (int i = 0; i < ve.rows(); ++i) b += c(ei[i]) * ve(i, 0);
        CHECK_NEAR(a, b, 1e-10, "trace/single_valued", "edge " << k << " of cell " << mesh->Index(*cell));
      }
    }
  }
}

struct ConstMat : dpg::SubElementMatrixProvider<double> {
  using Base = dpg::SubElementMatrixProvider<double>;
  unsigned t, v;
  std::vector<Mat> M;
  std::vector<char> act;
  const lf::mesh::Mesh *mesh = nullptr;
  Base::ElemMat Eval(const Entity &c) override {
    CHECK(act[mesh->Index(c)], "product/inactive", "a provider is evaluated on a cell on which it is not active");
    return M[mesh->Index(c)];
  }
  bool isActive(const Entity &c) override { return act[mesh->Index(c)] != 0; }
  [[nodiscard]] dpg::size_type TrialComponent() const override { return t; }
  [[nodiscard]] dpg::size_type TestComponent() const override { return v; }
};
struct ConstVec : dpg::SubElementVectorProvider<double> {
  using Base = dpg::SubElementVectorProvider<double>;
  unsigned v;
  std::vector<Vec> M;
  std::vector<char> act;
  const lf::mesh::Mesh *mesh = nullptr;
  Base::ElemVec Eval(const Entity &c) override {
    CHECK(act[mesh->Index(c)], "product/inactive", "a provider is evaluated on a cell on which it is not active");
    return M[mesh->Index(c)];
  }
  bool isActive(const Entity &c) override { return act[mesh->Index(c)] != 0; }
  [[nodiscard]] dpg::size_type TestComponent() const override { return v; }
};

PBT_SUB("product", 300, 4000, "two or more sub-providers on a mesh of two or more cells") {
  const HMesh hm = Mesh2(g, 2, true);
  const auto mesh = hm.mesh;
  const unsigned nc = hm.cells.size();
  const auto uc = RandComps(g, 1, 3), vc = RandComps(g, 1, 2, true);
  g.desc() << hm.Describe() << " trial " << Str(uc) << " test " << Str(vc);
  const auto U = Space2(hm, uc);
  const auto V = Space2(hm, vc);
  const auto &DU = U->LocGlobMap();
  const auto &DV = V->LocGlobMap();
  auto ent = [&](unsigned c) { return mesh->EntityByIndex(0, c); };
  std::vector<std::shared_ptr<dpg::SubElementMatrixProvider<double>>> sub, gsub;
  std::vector<std::shared_ptr<dpg::SubElementVectorProvider<double>>> vsub;
  std::vector<Mat> B(nc), G(nc);
  std::vector<Vec> l(nc);
  for (unsigned c = 0; c < nc; ++c) {
    B[c] = Mat::Zero(DV.NumLocalDofs(*ent(c)), DU.NumLocalDofs(*ent(c)));
    G[c] = Mat::Zero(B[c].rows(), B[c].rows());
    l[c] = Vec::Zero(B[c].rows());
  }
  auto start = [&](const dpg::ProductUniformFEDofHandler &D, unsigned c, unsigned k) {
    int s = 0;
    for (unsigned i = 0; i < k; ++i) s += D.ComponentDofHandler(i).NumLocalDofs(*ent(c));
    return s;
  };
  auto loc = [&](const dpg::ProductUniformFEDofHandler &D, unsigned c, unsigned k) { return (int)D.ComponentDofHandler(k).NumLocalDofs(*ent(c)); };
  const int nsub = g.i(1, 4);
  for (int s = 0; s < nsub; ++s) {
    auto m = std::make_shared<ConstMat>();
    m->mesh = mesh.get();
    m->t = g.i(0, uc.size() - 1);
    m->v = g.i(0, vc.size() - 1);
    for (unsigned c = 0; c < nc; ++c) {
      m->act.push_back(g.b(0.8));
      m->M.push_back(Mat::NullaryExpr(loc(DV, c, m->v), loc(DU, c, m->t), [&](auto, auto) { return g.r(-1, 1); }));
      if (m->act[c]) B[c].block(start(DV, c, m->v), start(DU, c, m->t), m->M[c].rows(), m->M[c].cols()) += m->M[c];
    }
    sub.push_back(m);
  }
  const int nvs = g.i(1, 3);
  for (int s = 0; s < nvs; ++s) {
    auto m = std::make_shared<ConstVec>();
    m->mesh = mesh.get();
    m->v = g.i(0, vc.size() - 1);
    for (unsigned c = 0; c < nc; ++c) {
      m->act.push_back(g.b(0.8));
      m->M.push_back(Vec::NullaryExpr(loc(DV, c, m->v), [&](auto) { return g.r(-1, 1); }));
      if (m->act[c]) l[c].segment(start(DV, c, m->v), m->M[c].size()) += m->M[c];
    }
    vsub.push_back(m);
  }
  // symmetric positive definite Gramian made of blocks
  std::vector<Mat> gm(nc);
  for (unsigned c = 0; c < nc; ++c) {
    const int n = B[c].rows();
    const Mat R = Mat::NullaryExpr(n, n, [&](auto, auto) { return g.r(-1, 1); });
    gm[c] = R.transpose() * R + 0.5 * Mat::Identity(n, n);
    G[c] = gm[c];
  }
  for (unsigned i = 0; i < vc.size(); ++i)
    for (unsigned j = 0; j < vc.size(); ++j) {
      auto m = std::make_shared<ConstMat>();
      m->mesh = mesh.get();
      m->v = i;
      m->t = j;
      for (unsigned c = 0; c < nc; ++c) {
        m->act.push_back(1);
        m->M.push_back(gm[c].block(start(DV, c, i), start(DV, c, j), loc(DV, c, i), loc(DV, c, j)));
      }
      gsub.push_back(m);
    }
  g.nontrivial(nsub >= 2 && nc >= 2);
  auto bp = std::make_shared<dpg::ProductElementMatrixProvider<double>>(U, V, sub);
  auto gp = std::make_shared<dpg::ProductElementMatrixProvider<double>>(V, V, gsub);
  auto lp = std::make_shared<dpg::ProductElementVectorProvider<double>>(V, vsub);
  dpg::DpgElementMatrixProvider<double> dm(bp, gp);
  dpg::DpgElementVectorProvider<double> dv(lp, bp, gp);
  const Vec x = Vec::NullaryExpr(DU.NumDofs(), [&](auto) { return g.r(-1, 1); });
  auto est = dpg::ElementErrorEstimators<double>(DU, bp, gp, lp, x);
  double total = 0, e0 = 0;
  for (unsigned c = 0; c < nc; ++c) {
    const auto &e = *ent(c);
    CHECK(bp->isActive(e) && dm.isActive(e) && dv.isActive(e), "product/active", "cell " << c);
    CHECK_MAT(Mat(bp->Eval(e)), B[c], 1e-13, "product/matrix", "cell " << c);
    CHECK_MAT(Mat(gp->Eval(e)), G[c], 1e-13, "product/gramian", "cell " << c);
    CHECK_MAT(Vec(lp->Eval(e)), l[c], 1e-13, "product/vector", "cell " << c);
    const Eigen::PartialPivLU<Mat> lu(G[c]);
    const double cond = G[c].norm() * G[c].inverse().norm();
    const double tol = 1e-13 * (1 + cond) * (1 + G[c].inverse().norm());
    CHECK_MAT(Mat(dm.Eval(e)), Mat(B[c].transpose() * lu.solve(B[c])), tol * 10 * (1 + B[c].squaredNorm()), "dpg/matrix", "cell " << c);
    CHECK_MAT(Vec(dv.Eval(e)), Vec(B[c].transpose() * lu.solve(l[c])), tol * 10 * (1 + B[c].norm() * l[c].norm()), "dpg/vector", "cell " << c);
    const auto idx = DU.GlobalDofIndices(e);
    Vec xl(idx.size());
    for (int i = 0; i < xl.size(); ++i) xl(i) = x(idx[i]);
    const Vec r = l[c] - B[c] * xl;
    const double want = std::sqrt(r.dot(lu.solve(r)));
    CHECK_NEAR(est(e), want, tol * 10 * (1 + r.norm()) + 1e-8 * std::min(1.0, r.norm()) * (want < 1e-6), "dpg/estimator", "cell " << c);
    total += want * want;
    e0 += l[c].dot(lu.solve(l[c]));
  }
  const double err = dpg::EvalPosteriorError<double>(mesh, est);
  CHECK_NEAR(err, std::sqrt(total), 1e-9 * (1 + std::sqrt(total)), "dpg/total", "total error");
  // assembled system is the quadratic form of the estimator
  lf::assemble::COOMatrix<double> coo(DU.NumDofs(), DU.NumDofs());
  lf::assemble::AssembleMatrixLocally(0, DU, DU, dm, coo);
  Vec b = Vec::Zero(DU.NumDofs());
  lf::assemble::AssembleVectorLocally(0, DU, dv, b);
  const Mat Am = coo.makeDense();
  const double form = x.dot(Am * x) - 2 * b.dot(x);
  CHECK_NEAR(err * err - e0, form, 1e-8 * (1 + total + e0 + std::abs(x.dot(Am * x))), "dpg/form", "energy of the assembled system");
}
}  // namespace
