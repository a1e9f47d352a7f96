// Random scalar finite element spaces on a given mesh.
#ifndef VERIF_FESPACE_H
#define VERIF_FESPACE_H
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "gen/shapes.h"

namespace gen {
template <class SCALAR = double>
struct SpaceT {
  std::shared_ptr<lf::fe::ScalarFESpace<SCALAR>> s;
  int pmin = 1;  // contains all piecewise polynomials of this degree
  int pmax = 1;  // consists of polynomials of at most this degree (per variable on quadrilaterals)
  bool lagrange = false;
  bool mixed = false;
  std::vector<int> deg[2];  // hierarchical: degrees of cells and edges
  std::string name;
};
using Space = SpaceT<double>;

/// lo <= polynomial degree of every entity <= hi (Lagrangian spaces up to degree 3)
template <class SCALAR = double>
SpaceT<SCALAR> RandSpace(pbt::G &g, const std::shared_ptr<const lf::mesh::Mesh> &mesh, int lo, int hi, bool allow_mixed = true) {
  SpaceT<SCALAR> S;
  const int kind = static_cast<int>(g.raw(4));
  if (kind <= 1 && lo <= 3) {
    S.lagrange = true;
    S.pmin = S.pmax = g.i(lo, std::min(3, hi));
    S.name = "Lagrange O" + std::to_string(S.pmin);
    if (S.pmin == 1) S.s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<SCALAR>>(mesh);
    else if (S.pmin == 2) S.s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<SCALAR>>(mesh);
    else S.s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<SCALAR>>(mesh);
  } else if (kind == 2 || !allow_mixed) {
    S.pmin = S.pmax = g.i(lo, hi);
    S.name = "hierarchic p=" + std::to_string(S.pmin);
    S.s = std::make_shared<lf::fe::HierarchicScalarFESpace<SCALAR>>(mesh, static_cast<unsigned>(S.pmin));
    for (int c = 0; c < 2; ++c) S.deg[c].assign(mesh->NumEntities(c), S.pmin);
  } else {
    S.mixed = true;
    S.pmin = hi;
    S.pmax = lo;
    for (int c = 0; c < 2; ++c)
      for (unsigned k = 0; k < mesh->NumEntities(c); ++k) {
        S.deg[c].push_back(g.i(lo, hi));
        S.pmin = std::min(S.pmin, S.deg[c].back());
        S.pmax = std::max(S.pmax, S.deg[c].back());
      }
    S.name = "hierarchic mixed p=" + std::to_string(S.pmin) + ".." + std::to_string(S.pmax);
    S.s = std::make_shared<lf::fe::HierarchicScalarFESpace<SCALAR>>(mesh, [&S, mesh](const lf::mesh::Entity &e) -> unsigned {
      if (e.RefEl() == lf::base::RefEl::kPoint()) return 1;
      return static_cast<unsigned>(S.deg[e.Codim()][mesh->Index(e)]);
    });
  }
  g.label(S.lagrange ? S.name : (S.mixed ? "hierarchic mixed" : "hierarchic uniform"));
  g.desc() << S.name << "; ";
  return S;
}
using Cplx = std::complex<double>;
/// a user-defined element: the shape functions of another one recombined by a complex matrix
class MixedElement final : public lf::fe::ScalarReferenceFiniteElement<Cplx> {
  using M = Eigen::Matrix<Cplx, Eigen::Dynamic, Eigen::Dynamic>;
  std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>> in_;
  M D_;

 public:
  MixedElement(std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>> in, M D) : in_(std::move(in)), D_(std::move(D)) {}
  lf::base::RefEl RefEl() const override { return in_->RefEl(); }
  unsigned Degree() const override { return in_->Degree(); }
  lf::base::size_type NumRefShapeFunctions(lf::base::dim_t c) const override { return in_->NumRefShapeFunctions(c); }
  lf::base::size_type NumRefShapeFunctions(lf::base::dim_t c, lf::base::sub_idx_t k) const override { return in_->NumRefShapeFunctions(c, k); }
  lf::base::size_type NumRefShapeFunctions() const override { return in_->NumRefShapeFunctions(); }
  M EvalReferenceShapeFunctions(const Eigen::MatrixXd &x) const override { return D_ * in_->EvalReferenceShapeFunctions(x); }
  M GradientsReferenceShapeFunctions(const Eigen::MatrixXd &x) const override { return D_ * in_->GradientsReferenceShapeFunctions(x); }
  Eigen::MatrixXd EvaluationNodes() const override { return in_->EvaluationNodes(); }
  lf::base::size_type NumEvaluationNodes() const override { return in_->NumEvaluationNodes(); }
  Eigen::Matrix<Cplx, 1, Eigen::Dynamic> NodalValuesToDofs(const Eigen::Matrix<Cplx, 1, Eigen::Dynamic> &v) const override {
    return D_.transpose().partialPivLu().solve(in_->NodalValuesToDofs(v).transpose()).transpose();
  }
};
/// complex spaces: sometimes replace the shape functions of a Lagrangian space by complex combinations of them
/// (element-wise; only for checks that look at single entities)
template <class SF, class PTR>
bool MixShapes(pbt::G &g, const std::shared_ptr<const lf::mesh::Mesh> &mesh, PTR &s) {
  if constexpr (std::is_same_v<SF, Cplx>) {
    const auto *u = dynamic_cast<const lf::uscalfe::UniformScalarFESpace<Cplx> *>(s.get());
    if (u == nullptr || !g.b(0.7)) return false;
    auto mix = [&](lf::base::RefEl re) -> std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>> {
      std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>> in;
      if (re == lf::base::RefEl::kPoint()) in = std::make_shared<lf::fe::FePoint<Cplx>>(1);
      else {
        const int p = static_cast<int>(u->ShapeFunctionLayout(re)->Degree());
        const bool t = re == lf::base::RefEl::kTria(), q = re == lf::base::RefEl::kQuad();
        using namespace lf::uscalfe;
        if (p == 1) in = t ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO1Tria<Cplx>>()) : q ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO1Quad<Cplx>>()) : std::make_shared<FeLagrangeO1Segment<Cplx>>();
        else if (p == 2) in = t ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO2Tria<Cplx>>()) : q ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO2Quad<Cplx>>()) : std::make_shared<FeLagrangeO2Segment<Cplx>>();
        else in = t ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO3Tria<Cplx>>()) : q ? std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<Cplx>>(std::make_shared<FeLagrangeO3Quad<Cplx>>()) : std::make_shared<FeLagrangeO3Segment<Cplx>>();
      }
      const int n = in->NumRefShapeFunctions();
      Eigen::Matrix<Cplx, Eigen::Dynamic, Eigen::Dynamic> D(n, n);
      D.setZero();
      // unit lower triangular times phases: always well conditioned enough
      for (int i = 0; i < n; ++i) {
        D(i, i) = std::polar(1.0, g.r(-3, 3));
        for (int j = 0; j < i; ++j)
          if (g.b(0.3)) D(i, j) = Cplx(g.r(-1, 1), g.r(-1, 1));
      }
      return std::make_shared<MixedElement>(in, D);
    };
    const auto t = mix(lf::base::RefEl::kTria()), q = mix(lf::base::RefEl::kQuad()), e = mix(lf::base::RefEl::kSegment()), v = mix(lf::base::RefEl::kPoint());
    s = std::make_shared<lf::uscalfe::UniformScalarFESpace<Cplx>>(mesh, t, q, e, v);
    g.label("complex shape functions");
    g.desc() << "complex combinations of the shape functions; ";
    return true;
  }
  return false;
}
inline Vec RandCoeffs(pbt::G &g, int n) {
  Vec v(n);
  for (int k = 0; k < n; ++k) v(k) = g.num(2);
  return v;
}
/// affine cells containing a point: (cell, reference coordinates)
inline std::vector<std::pair<const lf::mesh::Entity *, Vec>> Locate(const lf::mesh::Mesh &mesh, const Vec &p, double eps = 1e-8) {
  std::vector<std::pair<const lf::mesh::Entity *, Vec>> r;
  for (const auto *c : mesh.Entities(0)) {
    const Mat z = Mat::Zero(2, 1);
    const Mat J = c->Geometry()->Jacobian(z);
    const Vec o = c->Geometry()->Global(z);
    const Vec x = (J.transpose() * J).ldlt().solve(J.transpose() * (p - o));
    if (x.minCoeff() < -eps) continue;
    if (c->RefEl() == lf::base::RefEl::kTria() ? x.sum() > 1 + eps : x.maxCoeff() > 1 + eps) continue;
    if ((J * x + o - p).norm() > 1e-7 * (J.norm() + p.norm())) continue;
    r.push_back({c, x});
  }
  return r;
}
}  // namespace gen
#endif
