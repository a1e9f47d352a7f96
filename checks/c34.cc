// C34: matrices, mesh functions and refinement levels give one consistent discrete calculus
#include <lf/assemble/assemble.h>

#include "gen/bvp.h"
#include "gen/fespace.h"
#include "gen/history.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;
using lf::mesh::utils::operator*;
using lf::mesh::utils::operator+;
using lf::mesh::utils::operator-;

namespace {
using MFC = lf::mesh::utils::MeshFunctionConstant<double>;
using MFM = lf::mesh::utils::MeshFunctionConstant<Eigen::MatrixXd>;
template <class P>
Mat Matrix(const lf::assemble::DofHandler &dh, P &&prov, int codim) {
  return Mat(lf::assemble::AssembleMatrixLocally<lf::assemble::COOMatrix<double>>(codim, dh, prov).makeSparse());
}
template <class P>
Vec Vector(const lf::assemble::DofHandler &dh, P &&prov, int codim) {
  return lf::assemble::AssembleVectorLocally<Vec>(codim, dh, prov);
}
double AbsSum(const Mat &A, const Vec &u, const Vec &v) { return (v.cwiseAbs().transpose() * A.cwiseAbs() * u.cwiseAbs())(0); }
/// affine function of the position
struct Lin {
  double c;
  Vec a, x0;
  double L;
  double operator()(const Eigen::VectorXd &x) const { return c + a.dot(x - x0) / L; }
  double mag() const { return 1e-3 + std::abs(c) + a.norm(); }
};
Lin RandLin(pbt::G &g, const HMesh &hm) {
  Lin l;
  l.c = g.num(2);
  l.a = Vec(hm.dim);
  for (int k = 0; k < hm.dim; ++k) l.a(k) = g.num(1);
  l.x0 = hm.X.rowwise().mean();
  l.L = std::max(1e-300, (hm.X.colwise() - l.x0).colwise().norm().maxCoeff());
  return l;
}
bool AllAffine(const lf::mesh::Mesh &mesh) {
  for (const auto *c : mesh.Entities(0))
    if (!c->Geometry()->isAffine()) return false;
  for (const auto *c : mesh.Entities(1))
    if (!c->Geometry()->isAffine()) return false;
  return true;
}
Mat RandTensor(pbt::G &g, int dim) {
  Mat t(dim, dim);
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) t(i, j) = g.num(2);
  return t;
}
}  // namespace

PBT_SUB("calculus", 3000, 30000,
        "random space on a hybrid mesh with affine cells, two coefficient vectors, constant (scalar and tensor) coefficients, a source that is an affine "
        "function, random sets of edges: u'Av, b'v assembled over cells and edges must equal the integrals of the mesh functions built from the same vectors "
        "(products, gradients, squared norms, sums of mesh functions); non-trivial: at least 2 cells and degree >= 2") {
  MeshOpt o;
  o.max_n = 3;
  o.affine_only = true;
  o.allow_3d = true;
  const HMesh hm = RandMesh(g, o);
  const auto &mesh = *hm.mesh;
  if (!AllAffine(mesh)) throw pbt::Discard{};
  Space S = RandSpace(g, hm.mesh, 1, 5);
  const auto &dh = S.s->LocGlobMap();
  const int n = static_cast<int>(dh.NumDofs());
  const Vec u = RandCoeffs(g, n), v = RandCoeffs(g, n);
  const lf::fe::MeshFunctionFE fu(S.s, u), fv(S.s, v);
  const lf::fe::MeshFunctionGradFE gu(S.s, u), gv(S.s, v);
  const int deg = 2 * S.pmax + g.i(0, 2);
  if (mesh.NumEntities(0) >= 2 && S.pmax >= 2) g.nontrivial();
  auto integral = [&](const auto &mf) { return lf::fe::IntegrateMeshFunction(mesh, mf, deg); };
  // mass
  const double gam = g.num(2);
  const Mat M = Matrix(dh, lf::fe::MassElementMatrixProvider(S.s, MFC(gam)), 0);
  const double tm = 1e-11 * (1e-300 + AbsSum(M, u, v)) * (1 + S.pmax);
  CHECK_NEAR(integral(MFC(gam) * fu * fv), (v.transpose() * M * u)(0), tm, "mass matrix against the integral of the product", S.name);
  {
    const Mat M1 = Matrix(dh, lf::fe::MassElementMatrixProvider(S.s, MFC(1.0)), 0);
    CHECK_NEAR(integral(lf::mesh::utils::squaredNorm(fu)), (u.transpose() * M1 * u)(0), 1e-11 * (1e-300 + AbsSum(M1, u, u)) * (1 + S.pmax), "L2 norm", S.name);
    const Vec w = u - 2 * v;
    CHECK_NEAR(integral(lf::mesh::utils::squaredNorm(fu - MFC(2.0) * fv)), (w.transpose() * M1 * w)(0), 1e-10 * (1e-300 + AbsSum(M1, u.cwiseAbs() + 2 * v.cwiseAbs(), u.cwiseAbs() + 2 * v.cwiseAbs())) * (1 + S.pmax), "L2 norm of a difference", S.name);
  }
  // diffusion
  const bool tensor = g.b(0.5);
  const Mat T = tensor ? RandTensor(g, hm.dim) : Mat(g.num(2) * Mat::Identity(hm.dim, hm.dim));
  const Mat A = tensor ? Matrix(dh, lf::fe::DiffusionElementMatrixProvider(S.s, MFM(T)), 0) : Matrix(dh, lf::fe::DiffusionElementMatrixProvider(S.s, MFC(T(0, 0))), 0);
  {
    const Mat A1 = Matrix(dh, lf::fe::DiffusionElementMatrixProvider(S.s, MFC(1.0)), 0);
    const double ta = 1e-10 * (1e-300 + T.norm() * AbsSum(A1, u, v)) * (1 + S.pmax);
    const Eigen::MatrixXd I = integral(lf::mesh::utils::transpose(gv) * (MFM(T) * gu));
    CHECK(I.size() == 1, "size of the integral of a 1x1 matrix", I.rows() << "x" << I.cols());
    CHECK_NEAR(I(0, 0), (v.transpose() * A * u)(0), ta, "diffusion matrix against the integral of the gradients", S.name << (tensor ? " tensor" : ""));
    CHECK_NEAR(integral(lf::mesh::utils::squaredNorm(gu)), (u.transpose() * A1 * u)(0), 1e-10 * (1e-300 + AbsSum(A1, u, u)) * (1 + S.pmax), "H1 seminorm", S.name);
  }
  if (S.lagrange) {  // the providers of lf::uscalfe compute the same matrix in one go
    auto us = std::dynamic_pointer_cast<const lf::uscalfe::UniformScalarFESpace<double>>(S.s);
    CHECK(us != nullptr, "Lagrangian space is uniform", S.name);
    const Mat B = tensor ? Matrix(dh, lf::uscalfe::ReactionDiffusionElementMatrixProvider(us, MFM(T), MFC(gam)), 0)
                         : Matrix(dh, lf::uscalfe::ReactionDiffusionElementMatrixProvider(us, MFC(T(0, 0)), MFC(gam)), 0);
    const double sc = 1e-11 * (1e-300 + A.cwiseAbs().maxCoeff() + M.cwiseAbs().maxCoeff() + T.norm());
    CHECK_MAT(B, Mat(A + M), sc, "reaction-diffusion matrix is the sum of diffusion and mass matrix", S.name);
  }
  // load
  const Lin f = RandLin(g, hm);
  const lf::mesh::utils::MeshFunctionGlobal ff(f);
  const Vec b = Vector(dh, lf::fe::ScalarLoadElementVectorProvider(S.s, ff), 0);
  const double ms = integral(MFC(1.0)) * f.mag() * (1 + v.cwiseAbs().maxCoeff());
  CHECK_NEAR(integral(ff * fv), b.dot(v), 1e-11 * ms * n, "load vector against the integral", S.name);
  // edges
  std::vector<char> sel(mesh.NumEntities(1));
  const double p = g.r(0, 1);
  for (auto &x : sel) x = g.b(p);
  auto pred = [&](const Entity &e) { return sel[mesh.Index(e)] != 0; };
  auto eint = [&](const auto &mf) { return lf::fe::IntegrateMeshFunction(mesh, mf, deg, pred, 1); };
  const Mat E = Matrix(dh, lf::fe::MassEdgeMatrixProvider(S.s, MFC(gam), pred), 1);
  CHECK_NEAR(eint(MFC(gam) * fu * fv), (v.transpose() * E * u)(0), 1e-11 * (1e-300 + AbsSum(E, u, v)) * (1 + S.pmax), "edge mass matrix against the integral", S.name);
  const Vec be = Vector(dh, lf::fe::ScalarLoadEdgeVectorProvider(S.s, ff, pred), 1);
  CHECK_NEAR(eint(ff * fv), be.dot(v), 1e-11 * (1e-300 + lf::fe::IntegrateMeshFunction(mesh, MFC(1.0), 1, lf::base::PredicateTrue{}, 1)) * f.mag() * (1 + v.cwiseAbs().maxCoeff()) * n, "edge load vector against the integral", S.name);
}

PBT_SUB("levels", 3000, 30000,
        "hierarchy over an affine hybrid mesh, random coarse space and a random finer space containing it: with P the prolongation (columns = prolonged basis "
        "functions), P'A_fine P = A_coarse and P'b_fine = b_coarse for mass, diffusion, boundary mass, volume and boundary loads; non-trivial: a cell is refined and the meshes have "
        "at least 2 cells") {
  MeshOpt o;
  o.max_n = 2;
  o.affine_only = true;
  o.allow_3d = true;
  HMesh hm = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 3;
  ho.max_cells = 50;
  auto mh = RandHistory(g, hm, ho);
  const Mat T = RandTensor(g, hm.dim);
  const double gam = g.num(2);
  const Lin f = RandLin(g, hm);
  const lf::mesh::utils::MeshFunctionGlobal ff(f);
  const unsigned start = static_cast<unsigned>(g.i(0, static_cast<int>(mh->NumLevels()) - 2));
  auto cm = std::as_const(*mh).getMesh(start);
  if (!AllAffine(*cm)) throw pbt::Discard{};
  Space S = RandSpace(g, cm, 1, 3);
  struct Sys {
    Mat M, A, E;
    Vec b, e;
  };
  auto assemble = [&](const Space &s, const std::shared_ptr<const lf::mesh::Mesh> &m) {
    const auto &dh = s.s->LocGlobMap();
    const auto bd = lf::mesh::utils::flagEntitiesOnBoundary(m, 1);
    auto pred = [&](const Entity &e) { return bd(e); };
    Sys r;
    r.M = Matrix(dh, lf::fe::MassElementMatrixProvider(s.s, MFC(gam)), 0);
    r.A = Matrix(dh, lf::fe::DiffusionElementMatrixProvider(s.s, MFM(T)), 0);
    r.E = Matrix(dh, lf::fe::MassEdgeMatrixProvider(s.s, MFC(gam), pred), 1);
    r.b = Vector(dh, lf::fe::ScalarLoadElementVectorProvider(s.s, ff), 0);
    r.e = Vector(dh, lf::fe::ScalarLoadEdgeVectorProvider(s.s, ff, pred), 1);
    return r;
  };
  Sys C = assemble(S, cm);
  for (unsigned l = start; l + 1 < mh->NumLevels(); ++l) {
    const auto fm = std::as_const(*mh).getMesh(l + 1);
    if (!AllAffine(*fm)) {
      if (l == start) throw pbt::Discard{};
      break;
    }
    int lo = S.pmax;
    for (const auto *c : fm->Entities(0))
      if (mh->ParentEntity(l + 1, *c)->RefEl() == RefEl::kQuad() && c->RefEl() == RefEl::kTria()) lo = 2 * S.pmax;
    if (lo > 6) {
      if (l == start) throw pbt::Discard{};
      break;
    }
    Space F = RandSpace(g, fm, lo, std::min(6, lo + 1));
    const int nc = static_cast<int>(S.s->LocGlobMap().NumDofs()), nf = static_cast<int>(F.s->LocGlobMap().NumDofs());
    // cost of the dense comparison
    if (nc > 250) {
      if (l == start) throw pbt::Discard{};
      break;
    }
    Mat P(nf, nc);
    if (nc <= 30) {
      for (int k = 0; k < nc; ++k) {
        const Vec ek = Vec::Unit(nc, k);
        P.col(k) = lf::fe::prolongate(*mh, S.s, F.s, ek, l);
      }
    } else {  // only some random directions
      P = Mat(nf, 4);
    }
    Mat R = Mat::Identity(nc, nc);
    if (nc > 30) {
      R = Mat(nc, 4);
      for (int k = 0; k < 4; ++k) {
        R.col(k) = RandCoeffs(g, nc);
        const Vec rk = R.col(k);
        P.col(k) = lf::fe::prolongate(*mh, S.s, F.s, rk, l);
      }
    }
    const Sys D = assemble(F, fm);
    if (fm->NumEntities(2) > cm->NumEntities(2) && cm->NumEntities(0) >= 2) g.nontrivial();
    auto cmpM = [&](const Mat &a, const Mat &c, const char *what) {
      const Mat pa = P.transpose() * a * P, rc = R.transpose() * c * R;
      const double sc = (P.cwiseAbs().transpose() * a.cwiseAbs() * P.cwiseAbs()).maxCoeff() + (R.cwiseAbs().transpose() * c.cwiseAbs() * R.cwiseAbs()).maxCoeff();
      CHECK_MAT(pa, rc, 1e-9 * (1e-300 + sc), what, S.name << " -> " << F.name << " level " << l);
    };
    auto cmpV = [&](const Vec &a, const Vec &c, const char *what, double meas) {
      const Vec pa = P.transpose() * a, rc = R.transpose() * c;
      const double sc = (P.cwiseAbs().transpose() * a.cwiseAbs()).maxCoeff() + (R.cwiseAbs().transpose() * c.cwiseAbs()).maxCoeff() + meas * f.mag();
      CHECK_MAT(pa, rc, 1e-9 * (1e-300 + sc), what, S.name << " -> " << F.name << " level " << l);
    };
    const double area = lf::fe::IntegrateMeshFunction(*fm, MFC(1.0), 1), len = lf::fe::IntegrateMeshFunction(*fm, MFC(1.0), 1, lf::base::PredicateTrue{}, 1);
    cmpM(D.M, C.M, "mass matrix of the coarse level");
    cmpM(D.A, C.A, "diffusion matrix of the coarse level");
    cmpM(D.E, C.E, "boundary mass matrix of the coarse level");
    cmpV(D.b, C.b, "load vector of the coarse level", area);
    cmpV(D.e, C.e, "boundary load vector of the coarse level", len);
    S = F;
    C = D;
    cm = fm;
    if (S.pmax > 3) break;
  }
}
