// C18: element matrices are the matrices of their bilinear forms
#include "gen/bvp.h"
#include "gen/fespace.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
template <class S>
using MatX = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
HMesh RandSetup(pbt::G &g) {
  MeshOpt o;
  o.max_n = 2;
  const int kind = static_cast<int>(g.raw(4));
  if (kind <= 1) o.affine_only = true;
  else if (kind == 2) o.allow_curved = false;
  if (g.b(0.6)) o.unit_scale = true;
  return RandMesh(g, o);
}
/// integral of the bilinear form over an entity by own quadrature; also the sum of the moduli as error scale
template <class R, class SH, class A, class C>
MatX<R> Integrate(const OwnGeo &geo, const Mat &P, const Vec &w, const SH &sh, const A *alpha, const C *gamma, unsigned idx, double *scale) {
  const int n = sh.NumRefShapeFunctions();
  MatX<R> m = MatX<R>::Zero(n, n);
  *scale = 0;
  const auto v = sh.EvalReferenceShapeFunctions(P);
  decltype(sh.EvalReferenceShapeFunctions(P)) gr;
  if (alpha) gr = sh.GradientsReferenceShapeFunctions(P);
  const int d = P.rows();
  for (int k = 0; k < P.cols(); ++k) {
    const Vec x = geo.map(P.col(k));
    const Mat J = geo.jac(P.col(k));
    const double W = w(k) * Metric(J);
    const Mat JiT = J * (J.transpose() * J).inverse();
    if (alpha) {
      const MatX<R> G = JiT.template cast<R>() * gr.block(0, d * k, n, d).transpose().template cast<R>();
      const auto a = alpha->at(geo.codim, idx, x);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
          // a(b_j, b_i) = (alpha grad b_j) . conj(grad b_i)
          const Eigen::Matrix<R, Eigen::Dynamic, 1> ag = (a * G.col(j)).template cast<R>();
          R s = 0;
          for (int c = 0; c < G.rows(); ++c) s += ag(c) * (Eigen::numext::conj(G(c, i)));
          m(i, j) += W * s;
          *scale = std::max(*scale, std::abs(W) * G.col(i).norm() * G.col(j).norm() * alpha->mag(geo.codim, idx) * P.cols());
        }
    }
    if (gamma) {
      const auto c = gamma->at(geo.codim, idx, x);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
          m(i, j) += W * R(c) * R(v(j, k)) * Eigen::numext::conj(R(v(i, k)));
          *scale = std::max(*scale, std::abs(W) * gamma->mag(geo.codim, idx) * P.cols());
        }
    }
  }
  return m;
}
/// highest degree of the coefficient for which the library's rule of twice the degree is exact; -1: none
int ExactCoefDegree(const OwnGeo &geo, RefEl re, int p, bool diffusion) {
  if (!geo.straight()) return -1;
  const int have = std::max<int>(2 * p, lf::quad::make_QuadRule(re, 2 * p).Degree());
  if (re == RefEl::kTria()) return have - (diffusion ? 2 * p - 2 : 2 * p);
  if (re == RefEl::kSegment()) return have - 2 * p;
  if (geo.affine()) return have - 2 * p;
  return diffusion ? -1 : have - 2 * p - 1;
}
template <class SF, class AL>
void Diffusion(pbt::G &g) {
  const HMesh hm = RandSetup(g);
  const auto &mesh = *hm.mesh;
  SpaceT<SF> sp = RandSpace<SF>(g, hm.mesh, 1, 5);
  if (MixShapes<SF>(g, hm.mesh, sp.s)) sp.lagrange = false;
  const int deg = g.i(0, 2);
  const auto alpha = RandPoly<AL>(g, hm, deg, g.b());
  const auto alpha2 = RandPoly<AL>(g, hm, deg, g.b());
  const lf::fe::DiffusionElementMatrixProvider p(sp.s, alpha);
  using R = typename decltype(p)::Scalar;
  const double fac = g.r(-2, 2);
  struct Sum {
    PolyMF<AL> a, b;
    double f;
    std::vector<AL> operator()(const Entity &e, const Eigen::MatrixXd &x) const {
      auto u = a(e, x);
      const auto v = b(e, x);
      for (std::size_t k = 0; k < u.size(); ++k) u[k] = AL(u[k] + f * v[k]);
      return u;
    }
  };
  const lf::fe::DiffusionElementMatrixProvider p2(sp.s, alpha2), ps(sp.s, Sum{alpha, alpha2, fac});
  bool nt = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(p.isActive(*c), "active", "");
    const auto &sh = *sp.s->ShapeFunctionLayout(*c);
    const auto m = p.Eval(*c);
    const int n = sh.NumRefShapeFunctions();
    CHECK(m.rows() == n && m.cols() == n, "size", m.rows() << "x" << m.cols());
    const OwnGeo geo(hm, *c);
    Mat P;
    Vec w;
    RefQuad(c->RefEl(), sh.Degree() + 4, P, w);
    double scale = 0;
    const MatX<R> ex = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<AL>, PolyMF<double>>(geo, P, w, sh, &alpha, nullptr, mesh.Index(*c), &scale);
    const bool exact = deg <= ExactCoefDegree(geo, c->RefEl(), sh.Degree(), true);
    if (exact) {
      CHECK_MAT(m, ex, 1e-10 * scale, "diffusion", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString() << " coefficient degree " << deg << ", " << sp.name);
      if (sh.Degree() >= 2) nt = true;
    }
    const auto m2 = p2.Eval(*c), ms = ps.Eval(*c);
    double s2 = 0;
    Integrate<R, std::decay_t<decltype(sh)>, PolyMF<AL>, PolyMF<double>>(geo, P, w, sh, &alpha2, nullptr, mesh.Index(*c), &s2);
    CHECK_MAT(ms, (m + fac * m2), 1e-10 * (scale + 2 * s2), "linear", "cell " << mesh.Index(*c));
    if (sp.lagrange) {
      // constants are annihilated from both sides on every cell, by every quadrature rule
      const MatX<R> one = MatX<R>::Ones(n, 1);
      CHECK_MAT(MatX<R>(m * one), MatX<R>::Zero(n, 1), 1e-10 * n * scale, "constants", "cell " << mesh.Index(*c));
      CHECK_MAT(MatX<R>(m.transpose() * one), MatX<R>::Zero(n, 1), 1e-10 * n * scale, "constants", "cell " << mesh.Index(*c));
    }
  }
  g.nontrivial(nt);
}
template <class SF, class CO>
void Mass(pbt::G &g) {
  const HMesh hm = RandSetup(g);
  const auto &mesh = *hm.mesh;
  SpaceT<SF> sp = RandSpace<SF>(g, hm.mesh, 1, 5);
  if (MixShapes<SF>(g, hm.mesh, sp.s)) sp.lagrange = false;
  const int deg = g.i(0, 1);
  const auto gamma = RandPoly<CO>(g, hm, deg, g.b());
  const lf::fe::MassElementMatrixProvider p(sp.s, gamma);
  using R = typename decltype(p)::Scalar;
  bool nt = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(p.isActive(*c), "active", "");
    const auto &sh = *sp.s->ShapeFunctionLayout(*c);
    const auto m = p.Eval(*c);
    const int n = sh.NumRefShapeFunctions();
    CHECK(m.rows() == n && m.cols() == n, "size", m.rows() << "x" << m.cols());
    const OwnGeo geo(hm, *c);
    Mat P;
    Vec w;
    RefQuad(c->RefEl(), sh.Degree() + 4, P, w);
    double scale = 0;
    const MatX<R> ex = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<double>, PolyMF<CO>>(geo, P, w, sh, nullptr, &gamma, mesh.Index(*c), &scale);
    if (deg <= ExactCoefDegree(geo, c->RefEl(), sh.Degree(), false)) {
      CHECK_MAT(m, ex, 1e-10 * scale, "mass", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString() << ", " << sp.name);
      if (sh.Degree() >= 2) nt = true;
    }
    if constexpr (std::is_same_v<SF, double>) CHECK_MAT(m, MatX<R>(m.transpose()), 1e-12 * scale, "symmetric", "");
  }
  // boundary mass matrices
  std::vector<bool> sel(mesh.NumEntities(1));
  for (std::size_t k = 0; k < sel.size(); ++k) sel[k] = g.b(0.6);
  auto pred = [&](const Entity &e) { return sel[mesh.Index(e)]; };
  const lf::fe::MassEdgeMatrixProvider pe(sp.s, gamma, pred);
  const lf::fe::MassEdgeMatrixProvider pa(sp.s, gamma);
  for (const auto *e : mesh.Entities(1)) {
    CHECK(pe.isActive(*e) == sel[mesh.Index(*e)] && pa.isActive(*e), "active", "edge " << mesh.Index(*e));
    const OwnGeo geo(hm, *e);
    const auto &sh = *sp.s->ShapeFunctionLayout(*e);
    const auto m = pe.isActive(*e) ? pe.Eval(*e) : pa.Eval(*e);
    const int n = sh.NumRefShapeFunctions();
    CHECK(m.rows() == n && m.cols() == n, "size", m.rows() << "x" << m.cols());
    if (deg > ExactCoefDegree(geo, e->RefEl(), sh.Degree(), false)) continue;
    Mat P;
    Vec w;
    RefQuad(e->RefEl(), sh.Degree() + 3, P, w);
    double scale = 0;
    const MatX<R> ex = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<double>, PolyMF<CO>>(geo, P, w, sh, nullptr, &gamma, mesh.Index(*e), &scale);
    CHECK_MAT(m, ex, 1e-10 * scale, "edge-mass", "edge " << mesh.Index(*e) << ", " << sp.name);
  }
  g.nontrivial(nt);
}
template <class SF>
std::shared_ptr<lf::uscalfe::UniformScalarFESpace<SF>> Lagrange(pbt::G &g, const std::shared_ptr<const lf::mesh::Mesh> &mesh) {
  const int p = g.i(1, 3);
  g.desc() << "Lagrange O" << p << "; ";
  if (p == 1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<SF>>(mesh);
  if (p == 2) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<SF>>(mesh);
  return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<SF>>(mesh);
}
/// uniform spaces: default rules where exact, supplied rules on any cell (also curved) with any coefficient
template <class SF, class AL, class CO>
void Uniform(pbt::G &g) {
  const HMesh hm = RandSetup(g);
  const auto &mesh = *hm.mesh;
  auto fes = Lagrange<SF>(g, hm.mesh);
  MixShapes<SF>(g, hm.mesh, fes);
  const bool own = g.b(0.6);
  const int deg = own ? g.i(0, 3) : g.i(0, 1);
  const auto alpha = RandPoly<AL>(g, hm, deg, g.b());
  const auto gamma = RandPoly<CO>(g, hm, own ? g.i(0, 3) : 0, g.b());
  Mat P[2];
  Vec w[2];
  using Prov = decltype(lf::uscalfe::ReactionDiffusionElementMatrixProvider(fes, alpha, gamma));
  std::unique_ptr<Prov> prov;
  int missing = -1;
  const RefEl types[2] = {RefEl::kTria(), RefEl::kQuad()};
  if (own) {
    lf::uscalfe::quad_rule_collection_t qr;
    missing = g.b(0.3) ? g.i(0, 1) : -1;
    for (int k = 0; k < 2; ++k) {
      const auto r = RandRule(g, types[k], P[k], w[k]);
      if (k != missing) qr.insert({types[k], r});
    }
    prov = std::make_unique<Prov>(fes, alpha, gamma, qr);
    g.label("supplied rule");
  } else {
    prov = std::make_unique<Prov>(fes, alpha, gamma);
    g.label("default rule");
  }
  using R = typename Prov::Scalar;
  bool nt = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(prov->isActive(*c), "active", "");
    const int k = c->RefEl() == RefEl::kTria() ? 0 : 1;
    const auto &sh = *fes->ShapeFunctionLayout(*c);
    if (own && k == missing) {
      CHECK(pbt::Rejects([&] { prov->Eval(*c); }), "missing-rule", "no error for a cell type without rule");
      continue;
    }
    const auto m = prov->Eval(*c);
    const int n = sh.NumRefShapeFunctions();
    CHECK(m.rows() == n && m.cols() == n, "size", m.rows() << "x" << m.cols());
    const OwnGeo geo(hm, *c);
    if (!own) {
      if (alpha.deg > ExactCoefDegree(geo, c->RefEl(), sh.Degree(), true) || ExactCoefDegree(geo, c->RefEl(), sh.Degree(), false) < 0) continue;
      RefQuad(c->RefEl(), sh.Degree() + 4, P[k], w[k]);
    }
    double scale = 0;
    const MatX<R> ex = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<AL>, PolyMF<CO>>(geo, P[k], w[k], sh, &alpha, &gamma, mesh.Index(*c), &scale);
    CHECK_MAT(m, ex, 1e-10 * scale, "reaction-diffusion", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString() << (own ? " supplied rule" : " default rule"));
    if (!geo.affine() || sh.Degree() >= 2) nt = true;
  }
  // edges
  std::vector<bool> sel(mesh.NumEntities(1));
  for (std::size_t k = 0; k < sel.size(); ++k) sel[k] = g.b(0.6);
  auto pred = [&](const Entity &e) { return sel[mesh.Index(e)]; };
  Mat Pe;
  Vec we;
  const auto re = RandRule(g, RefEl::kSegment(), Pe, we);
  lf::uscalfe::MassEdgeMatrixProvider<SF, PolyMF<CO>, decltype(pred)> pd(fes, gamma, pred), pr(fes, gamma, re, pred);
  for (const auto *e : mesh.Entities(1)) {
    CHECK(pd.isActive(*e) == sel[mesh.Index(*e)] && pr.isActive(*e) == sel[mesh.Index(*e)], "active", "edge " << mesh.Index(*e));
    const OwnGeo geo(hm, *e);
    const auto &sh = *fes->ShapeFunctionLayout(*e);
    double scale = 0;
    const MatX<R> ex = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<double>, PolyMF<CO>>(geo, Pe, we, sh, nullptr, &gamma, mesh.Index(*e), &scale);
    CHECK_MAT(MatX<R>(pr.Eval(*e).template cast<R>()), ex, 1e-10 * scale, "edge-mass", "edge " << mesh.Index(*e) << " supplied rule");
    if (gamma.deg <= ExactCoefDegree(geo, e->RefEl(), sh.Degree(), false)) {
      Mat Q;
      Vec v;
      RefQuad(e->RefEl(), sh.Degree() + 3, Q, v);
      const MatX<R> ed = Integrate<R, std::decay_t<decltype(sh)>, PolyMF<double>, PolyMF<CO>>(geo, Q, v, sh, nullptr, &gamma, mesh.Index(*e), &scale);
      CHECK_MAT(MatX<R>(pd.Eval(*e).template cast<R>()), ed, 1e-10 * scale, "edge-mass", "edge " << mesh.Index(*e) << " default rule");
    }
  }
  g.nontrivial(nt);
}
}  // namespace

PBT_SUB("diffusion", 60, 1000, "random mesh x space x scalar polynomial coefficient: element matrix = integral where the quadrature is exact; non-trivial: such a cell of degree >= 2") {
  Diffusion<double, double>(g);
}
PBT_SUB("diffusion-matrix", 60, 1000, "as diffusion, matrix-valued non-symmetric coefficient") { Diffusion<double, MatX<double>>(g); }
PBT_SUB("diffusion-complex", 60, 1000, "as diffusion, complex space and complex scalar or matrix coefficient") {
  if (g.b()) Diffusion<Cplx, Cplx>(g);
  else Diffusion<Cplx, MatX<Cplx>>(g);
}
PBT_SUB("mass", 60, 1000, "cell and selected edge mass matrices; non-trivial: compared cell of degree >= 2") { Mass<double, double>(g); }
PBT_SUB("mass-complex", 30, 500, "as mass with complex coefficient or space") {
  if (g.b()) Mass<double, Cplx>(g);
  else Mass<Cplx, Cplx>(g);
}
PBT_SUB("uniform", 60, 1000, "reaction-diffusion and edge mass matrices of Lagrangian spaces with default and supplied rules on any cell; non-trivial: non-affine cell or degree >= 2") {
  if (g.b()) Uniform<double, double, double>(g);
  else Uniform<double, MatX<double>, double>(g);
}
PBT_SUB("uniform-complex", 30, 500, "as uniform with complex spaces and coefficients") {
  if (g.b()) Uniform<Cplx, Cplx, Cplx>(g);
  else Uniform<double, Cplx, Cplx>(g);
}
