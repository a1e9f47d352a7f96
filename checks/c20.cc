// C20: ready-made lowest-order element matrices and load vectors
#include <lf/assemble/assemble.h>

#include "gen/bvp.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
/// gradients of the (bi)linear hat functions at a point of a straight cell, by the inverse Jacobian of the own map
Mat HatGrads(const OwnGeo &geo, const Vec &x, bool tria, double *det) {
  Mat D(tria ? 3 : 4, 2);
  if (tria) D << -1, -1, 1, 0, 0, 1;
  else D << x(1) - 1, x(0) - 1, 1 - x(1), -x(0), x(1), x(0), -x(1), 1 - x(0);
  const Mat J = geo.jac(x);
  *det = std::abs(J.determinant());
  return D * J.inverse();
}
HMesh RandSetup(pbt::G &g, bool curved) {
  MeshOpt o;
  o.max_n = 3;
  o.allow_3d = false;
  o.allow_curved = curved;
  if (g.b(0.3)) o.affine_only = true;
  if (g.b(0.5)) o.unit_scale = true;
  return RandMesh(g, o);
}
}  // namespace

PBT_SUB("laplace", 100, 2000, "random straight mesh: 4x4 element matrices against the exact matrix (triangles, parallelograms) or the 2x2 Gauss formula; non-trivial: a general quadrilateral") {
  const HMesh hm = RandSetup(g, false);
  const auto &mesh = *hm.mesh;
  const lf::uscalfe::LinearFELaplaceElementMatrix p{};
  bool general = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(p.isActive(*c), "active", "");
    const bool tria = c->RefEl() == RefEl::kTria();
    const int n = tria ? 3 : 4;
    const OwnGeo geo(hm, *c);
    const auto full = p.Eval(*c);
    CHECK(full.rows() == 4 && full.cols() == 4, "size", "");
    const Mat m = full.block(0, 0, n, n);
    general = general || !geo.affine();
    Mat ex = Mat::Zero(n, n);
    double scale = 0;
    const int q = tria ? 1 : 2;
    const double z[2] = {0.5 - 0.5 / std::sqrt(3.0), 0.5 + 0.5 / std::sqrt(3.0)};
    for (int i = 0; i < q; ++i)
      for (int j = 0; j < q; ++j) {
        double det = 0;
        const Vec x = tria ? Vec(Vec::Constant(2, 1.0 / 3)) : Vec((Vec(2) << z[i], z[j]).finished());
        const Mat G = HatGrads(geo, x, tria, &det);
        const double w = (tria ? 0.5 : 0.25) * det;
        ex += w * G * G.transpose();
        scale += w * G.squaredNorm();
      }
    CHECK_MAT(m, ex, 1e-11 * scale, "laplace", "cell " << mesh.Index(*c) << " " << c->RefEl().ToString());
    if (geo.affine()) {  // exact integral by a high order rule
      Mat P;
      Vec w;
      RefQuad(c->RefEl(), 5, P, w);
      Mat e2 = Mat::Zero(n, n);
      for (int k = 0; k < P.cols(); ++k) {
        double det = 0;
        const Mat G = HatGrads(geo, P.col(k), tria, &det);
        e2 += w(k) * det * G * G.transpose();
      }
      CHECK_MAT(m, e2, 1e-10 * scale, "exact", "cell " << mesh.Index(*c));
    }
    CHECK_MAT(Mat(m - m.transpose()), Mat::Zero(n, n), 1e-13 * scale, "symmetric", "");
    CHECK_MAT(Mat(m.rowwise().sum()), Mat::Zero(n, 1), 1e-11 * scale, "constants", "");
    Vec v(n);
    for (int k = 0; k < n; ++k) v(k) = g.num(1);
    CHECK(v.dot(m * v) >= -1e-10 * scale * v.squaredNorm(), "positive", "energy " << v.dot(m * v));
    // repeatable
    CHECK_MAT(Mat(p.Eval(*c)), Mat(full), 0.0, "repeat", "");
  }
  g.nontrivial(general);
  // assembled on meshes of any cells: constants in the kernel; linear functions have energy area * |grad|^2 on affine cells
  const auto fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(hm.mesh);
  const auto &dofh = fes->LocGlobMap();
  lf::assemble::COOMatrix<double> coo(dofh.NumDofs(), dofh.NumDofs());
  lf::uscalfe::LinearFELaplaceElementMatrix p2{};
  lf::assemble::AssembleMatrixLocally(0, dofh, dofh, p2, coo);
  const Mat A = coo.makeDense();
  Mat E = Mat::Zero(dofh.NumDofs(), dofh.NumDofs());
  for (const auto *c : mesh.Entities(0)) {
    const auto nd = c->SubEntities(2);
    const auto em = p.Eval(*c);
    for (std::size_t i = 0; i < nd.size(); ++i)
      for (std::size_t j = 0; j < nd.size(); ++j) E(dofh.GlobalDofIndices(*nd[i])[0], dofh.GlobalDofIndices(*nd[j])[0]) += em(i, j);
  }
  CHECK_MAT(A, E, 1e-12 * (1 + E.cwiseAbs().maxCoeff()), "assembled", "");
}
PBT_SUB("load", 100, 2000, "random mesh (straight and curved), source recording where it is evaluated: load = edge midpoint quadrature on straight cells; non-trivial: triangle and general quadrilateral") {
  const HMesh hm = RandSetup(g, true);
  const auto &mesh = *hm.mesh;
  const auto f = RandPoly<double>(g, hm, g.i(0, 3), g.b());
  const auto fc = RandPoly<Cplx>(g, hm, g.i(0, 3), g.b());
  std::vector<std::pair<const Entity *, Mat>> seen;
  auto src = [&](const Entity &e, const Eigen::MatrixXd &x) {
    seen.push_back({&e, x});
    return f(e, x);
  };
  auto srcc = [&](const Entity &e, const Eigen::MatrixXd &x) { return fc(e, x); };
  const lf::uscalfe::LinearFELocalLoadVector<double, decltype(src)> p(src);
  const lf::uscalfe::LinearFELocalLoadVector<Cplx, decltype(srcc)> pc(srcc);
  bool tri = false, quad = false;
  for (const auto *c : mesh.Entities(0)) {
    CHECK(p.isActive(*c) && pc.isActive(*c), "active", "");
    const bool tria = c->RefEl() == RefEl::kTria();
    const int n = tria ? 3 : 4;
    const OwnGeo geo(hm, *c);
    seen.clear();
    const Vec v = p.Eval(*c).head(n);
    for (const auto &[e, x] : seen) {
      CHECK(e == c, "source-entity", "source evaluated for another entity");
      for (int k = 0; k < x.cols(); ++k)
        CHECK(x.col(k).minCoeff() >= -1e-12 && (tria ? x.col(k).sum() : x.col(k).maxCoeff()) <= 1 + 1e-12, "source-point", "source evaluated at reference point " << x.col(k).transpose() << " outside the " << c->RefEl().ToString());
    }
    if (!geo.straight()) continue;
    (tria ? tri : quad) = true;
    double area = 0;  // shoelace formula
    const Mat N = hm.CellNodes(geo.cell, 1);
    for (int k = 0; k < n; ++k) area += 0.5 * (N(0, k) * N(1, (k + 1) % n) - N(1, k) * N(0, (k + 1) % n));
    area = std::abs(area);
    Vec ex = Vec::Zero(n);
    Eigen::VectorXcd exc = Eigen::VectorXcd::Zero(n);
    for (int k = 0; k < n; ++k) {
      const Vec m = 0.5 * (N.col(k) + N.col((k + 1) % n));
      for (int j : {k, (k + 1) % n}) {
        ex(j) += 0.5 * area / n * f.at(0, geo.cell, m);
        exc(j) += 0.5 * area / n * fc.at(0, geo.cell, m);
      }
    }
    const double cs = N.cwiseAbs().maxCoeff();
    const double at = area * 1e-11 + 1e-13 * cs * cs;
    CHECK_MAT(v, ex, at * (1 + f.mag(0, geo.cell)), "load", "cell " << geo.cell << " " << c->RefEl().ToString());
    CHECK_MAT(Eigen::VectorXcd(pc.Eval(*c).head(n)), exc, at * (1 + fc.mag(0, geo.cell)), "load-complex", "cell " << geo.cell << " " << c->RefEl().ToString());
  }
  g.nontrivial(tri && quad);
}
