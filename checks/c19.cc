// C19: element load vectors are the vectors of their linear forms
#include "gen/bvp.h"
#include "gen/fespace.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
template <class S>
using VecX = Eigen::Matrix<S, Eigen::Dynamic, 1>;
HMesh RandSetup(pbt::G &g) {
  MeshOpt o;
  o.max_n = 2;
  const int kind = static_cast<int>(g.raw(4));
  if (kind <= 1) o.affine_only = true;
  else if (kind == 2) o.allow_curved = false;
  if (g.b(0.6)) o.unit_scale = true;
  return RandMesh(g, o);
}
/// integral of source times conjugated shape function by own quadrature and its error scale
template <class R, class SH, class F>
VecX<R> Integrate(const OwnGeo &geo, const Mat &P, const Vec &w, const SH &sh, const F &f, unsigned idx, double *scale) {
  const int n = sh.NumRefShapeFunctions();
  VecX<R> r = VecX<R>::Zero(n);
  *scale = 0;
  const auto v = sh.EvalReferenceShapeFunctions(P);
  for (int k = 0; k < P.cols(); ++k) {
    const double W = w(k) * Metric(geo.jac(P.col(k)));
    const auto c = f.at(geo.codim, idx, geo.map(P.col(k)));
    for (int i = 0; i < n; ++i) r(i) += W * R(c) * Eigen::numext::conj(R(v(i, k)));
    *scale += std::abs(W) * f.mag(geo.codim, idx) * (1 + v.col(k).cwiseAbs().maxCoeff());
  }
  return r;
}
/// highest degree of the source for which the library's rule of degree 2p is exact; -1: none
int ExactDegree(const OwnGeo &geo, RefEl re, int p) {
  if (!geo.straight()) return -1;
  const int have = std::max<int>(2 * p, lf::quad::make_QuadRule(re, 2 * p).Degree());
  return have - p - (re == RefEl::kQuad() && !geo.affine() ? 1 : 0);
}
template <class MF>
struct Comb {
  MF a, b;
  double f;
  auto operator()(const Entity &e, const Eigen::MatrixXd &x) const {
    auto u = a(e, x);
    const auto v = b(e, x);
    for (std::size_t k = 0; k < u.size(); ++k) u[k] += f * v[k];
    return u;
  }
};
template <class SF, class CO>
void General(pbt::G &g) {
  const HMesh hm = RandSetup(g);
  const auto &mesh = *hm.mesh;
  SpaceT<SF> sp = RandSpace<SF>(g, hm.mesh, 1, 6);
  if (MixShapes<SF>(g, hm.mesh, sp.s)) sp.lagrange = false;
  const int deg = g.i(0, 4);
  const bool off = g.b();
  const auto f = RandPoly<CO>(g, hm, deg, off), f2 = RandPoly<CO>(g, hm, deg, off);
  const double fac = g.r(-2, 2);
  const Comb<PolyMF<CO>> comb{f, f2, fac};
  const lf::fe::ScalarLoadElementVectorProvider p(sp.s, f), p2(sp.s, f2), pc(sp.s, comb);
  using R = typename decltype(p)::scalar_t;
  bool nt = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(p.isActive(*c), "active", "");
    const auto &sh = *sp.s->ShapeFunctionLayout(*c);
    const auto v = p.Eval(*c);
    CHECK(v.size() == sh.NumRefShapeFunctions(), "size", v.size());
    const OwnGeo geo(hm, *c);
    Mat P;
    Vec w;
    RefQuad(c->RefEl(), sh.Degree() + 5, P, w);
    double s1 = 0, s2 = 0;
    const VecX<R> ex = Integrate<R>(geo, P, w, sh, f, mesh.Index(*c), &s1);
    Integrate<R>(geo, P, w, sh, f2, mesh.Index(*c), &s2);
    const bool exact = deg <= ExactDegree(geo, c->RefEl(), sh.Degree());
    if (exact) {
      CHECK_MAT(v, ex, 1e-11 * s1, "load", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString() << " source degree " << deg << ", " << sp.name);
      if (sp.lagrange) {
        Mat Q;
        Vec u;
        R tot = 0;
        RefQuad(c->RefEl(), 6, Q, u);
        for (int k = 0; k < Q.cols(); ++k) tot += R(u(k) * Metric(geo.jac(Q.col(k))) * f.at(0, mesh.Index(*c), geo.map(Q.col(k))));
        CHECK_NEAR(v.sum(), tot, 1e-10 * s1, "partition-of-unity", "cell " << mesh.Index(*c));
      }
      if (sh.Degree() >= 2 && deg >= 1) nt = true;
    }
    CHECK_MAT(pc.Eval(*c), (v + fac * p2.Eval(*c)), 1e-11 * (s1 + 2 * s2), "linear", "cell " << mesh.Index(*c));
  }
  std::vector<bool> sel(mesh.NumEntities(1));
  for (std::size_t k = 0; k < sel.size(); ++k) sel[k] = g.b(0.6);
  auto pred = [&](const Entity &e) { return sel[mesh.Index(e)]; };
  lf::fe::ScalarLoadEdgeVectorProvider pe(sp.s, f, pred);
  lf::fe::ScalarLoadEdgeVectorProvider pa(sp.s, f), pa2(sp.s, f2), pac(sp.s, comb);
  for (const auto *e : mesh.Entities(1)) {
    CHECK(pe.isActive(*e) == sel[mesh.Index(*e)] && pa.isActive(*e), "active", "edge " << mesh.Index(*e));
    const OwnGeo geo(hm, *e);
    const auto &sh = *sp.s->ShapeFunctionLayout(*e);
    const auto v = pe.isActive(*e) ? pe.Eval(*e) : pa.Eval(*e);
    CHECK(v.size() == sh.NumRefShapeFunctions(), "size", v.size());
    Mat P;
    Vec w;
    RefQuad(e->RefEl(), sh.Degree() + 4, P, w);
    double s1 = 0, s2 = 0;
    const VecX<R> ex = Integrate<R>(geo, P, w, sh, f, mesh.Index(*e), &s1);
    Integrate<R>(geo, P, w, sh, f2, mesh.Index(*e), &s2);
    if (deg <= ExactDegree(geo, e->RefEl(), sh.Degree())) CHECK_MAT(v, ex, 1e-11 * s1, "edge-load", "edge " << mesh.Index(*e) << " source degree " << deg << ", " << sp.name);
    CHECK_MAT(pac.Eval(*e), (v + fac * pa2.Eval(*e)), 1e-11 * (s1 + 2 * s2), "linear", "edge " << mesh.Index(*e));
  }
  g.nontrivial(nt);
}
template <class SF, class CO>
void Uniform(pbt::G &g) {
  const HMesh hm = RandSetup(g);
  const auto &mesh = *hm.mesh;
  const int p = g.i(1, 3);
  g.desc() << "Lagrange O" << p << "; ";
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<SF>> fes;
  if (p == 1) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<SF>>(hm.mesh);
  else if (p == 2) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<SF>>(hm.mesh);
  else fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<SF>>(hm.mesh);
  MixShapes<SF>(g, hm.mesh, fes);
  const bool own = g.b(0.6);
  const auto f = RandPoly<CO>(g, hm, g.i(0, 4), g.b());
  using Prov = decltype(lf::uscalfe::ScalarLoadElementVectorProvider(fes, f));
  std::unique_ptr<Prov> prov;
  Mat P[2];
  Vec w[2];
  const RefEl types[2] = {RefEl::kTria(), RefEl::kQuad()};
  if (own) {
    lf::uscalfe::quad_rule_collection_t qr;
    for (int k = 0; k < 2; ++k) qr.insert({types[k], RandRule(g, types[k], P[k], w[k])});
    prov = std::make_unique<Prov>(fes, f, qr);
    g.label("supplied rule");
  } else {
    prov = std::make_unique<Prov>(fes, f);
    g.label("default rule");
  }
  using R = typename Prov::scalar_t;
  bool nt = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(prov->isActive(*c), "active", "");
    const int k = c->RefEl() == RefEl::kTria() ? 0 : 1;
    const auto &sh = *fes->ShapeFunctionLayout(*c);
    const auto v = prov->Eval(*c);
    CHECK(v.size() == sh.NumRefShapeFunctions(), "size", v.size());
    const OwnGeo geo(hm, *c);
    if (!own) {
      if (f.deg > ExactDegree(geo, c->RefEl(), sh.Degree())) continue;
      RefQuad(c->RefEl(), sh.Degree() + 5, P[k], w[k]);
    }
    double s = 0;
    const VecX<R> ex = Integrate<R>(geo, P[k], w[k], sh, f, mesh.Index(*c), &s);
    CHECK_MAT(v, ex, 1e-11 * s, "load", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString() << (own ? " supplied rule" : " default rule"));
    nt = nt || !geo.affine();
  }
  std::vector<bool> sel(mesh.NumEntities(1));
  for (std::size_t k = 0; k < sel.size(); ++k) sel[k] = g.b(0.6);
  auto pred = [&](const Entity &e) { return sel[mesh.Index(e)]; };
  Mat Pe;
  Vec we;
  const auto re = RandRule(g, RefEl::kSegment(), Pe, we);
  lf::uscalfe::ScalarLoadEdgeVectorProvider<SF, PolyMF<CO>, decltype(pred)> pd(fes, f, pred), pr(fes, f, re, pred);
  for (const auto *e : mesh.Entities(1)) {
    CHECK(pd.isActive(*e) == sel[mesh.Index(*e)] && pr.isActive(*e) == sel[mesh.Index(*e)], "active", "edge " << mesh.Index(*e));
    const OwnGeo geo(hm, *e);
    const auto &sh = *fes->ShapeFunctionLayout(*e);
    double s = 0;
    const VecX<R> ex = Integrate<R>(geo, Pe, we, sh, f, mesh.Index(*e), &s);
    CHECK_MAT(pr.Eval(*e), ex, 1e-11 * s, "edge-load", "edge " << mesh.Index(*e) << " supplied rule");
    if (f.deg <= ExactDegree(geo, e->RefEl(), sh.Degree())) {
      Mat Q;
      Vec u;
      RefQuad(e->RefEl(), sh.Degree() + 4, Q, u);
      const VecX<R> ed = Integrate<R>(geo, Q, u, sh, f, mesh.Index(*e), &s);
      CHECK_MAT(pd.Eval(*e), ed, 1e-11 * s, "edge-load", "edge " << mesh.Index(*e) << " default rule");
    }
  }
  g.nontrivial(nt);
}
}  // namespace

PBT_SUB("load", 60, 1000, "random mesh x space (degrees 1..6, mixed) x polynomial source: cell and edge load vectors = integrals where exact; non-trivial: such a cell of degree >= 2 and non-constant source") {
  General<double, double>(g);
}
PBT_SUB("load-complex", 60, 1000, "as load with complex source or space") {
  switch (g.raw(3)) {
    case 0: General<double, Cplx>(g); break;
    default: General<Cplx, Cplx>(g); break;
  }
}
PBT_SUB("uniform", 60, 1000, "load vectors of Lagrangian spaces with default and supplied rules on any cell and edge; non-trivial: non-affine cell") { Uniform<double, double>(g); }
PBT_SUB("uniform-complex", 30, 500, "as uniform with complex data") {
  if (g.b()) Uniform<Cplx, Cplx>(g);
  else Uniform<double, Cplx>(g);
}
