// Random coefficients and independent element quadrature for element matrices and vectors.
#ifndef VERIF_BVP_H
#define VERIF_BVP_H
#include <lf/fe/fe.h>
#include <lf/mesh/utils/utils.h>
#include <lf/quad/quad.h>

#include <complex>

#include "gen/fespace.h"
#include "gen/meshes.h"

namespace gen {
using Cplx = std::complex<double>;
template <class T>
struct Coef;  // random values of a coefficient type
template <>
struct Coef<double> {
  static double rand(pbt::G &g, int) { return g.num(2); }
  static double abs(double v) { return std::abs(v); }
};
template <>
struct Coef<Cplx> {
  static Cplx rand(pbt::G &g, int) { return {g.num(2), g.num(2)}; }
  static double abs(Cplx v) { return std::abs(v); }
};
template <class S>
struct Coef<Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>> {
  using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
  static M rand(pbt::G &g, int dim) {
    M m(dim, dim);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) m(i, j) = Coef<S>::rand(g, dim);
    return m;
  }
  static double abs(const M &m) { return m.norm(); }
};
/// polynomial in world coordinates plus a value per entity
template <class R>
struct PolyMF {
  const lf::mesh::Mesh *mesh = nullptr;
  Vec x0;
  double L = 1;
  int deg = 0;
  std::vector<std::pair<std::array<int, 3>, R>> terms;
  std::vector<R> off[3];  // by codimension
  std::vector<std::pair<const lf::mesh::Entity *, int>> *calls = nullptr;

  R poly(const Vec &x) const {
    const Vec y = (x - x0) / L;
    R s = R(terms[0].second);
    for (std::size_t k = 1; k < terms.size(); ++k) {
      const auto &e = terms[k].first;
      s = R(s + terms[k].second * (std::pow(y(0), e[0]) * std::pow(y(1), e[1]) * (y.size() == 3 ? std::pow(y(2), e[2]) : 1.0)));
    }
    return s;
  }
  /// bound for the modulus of the coefficient on an entity (scale of rounding errors)
  double mag(int codim, unsigned idx) const {
    double m = Coef<R>::abs(off[codim][idx]);
    for (const auto &t : terms) m += Coef<R>::abs(t.second);
    return m;
  }
  R at(int codim, unsigned idx, const Vec &x) const { return R(poly(x) + off[codim][idx]); }
  std::vector<R> operator()(const lf::mesh::Entity &e, const Eigen::MatrixXd &local) const {
    const Mat G = e.Geometry()->Global(local);
    std::vector<R> r;
    for (int k = 0; k < G.cols(); ++k) r.push_back(at(e.Codim(), mesh->Index(e), G.col(k)));
    return r;
  }
};
template <class R>
PolyMF<R> RandPoly(pbt::G &g, const HMesh &hm, int deg, bool offsets) {
  PolyMF<R> f;
  f.mesh = hm.mesh.get();
  f.x0 = hm.X.rowwise().mean();
  f.L = std::max(1e-300, (hm.X.colwise() - f.x0).colwise().norm().maxCoeff());
  f.deg = deg;
  for (int a = 0; a <= deg; ++a)
    for (int b = 0; a + b <= deg; ++b)
      for (int c = 0; a + b + c <= (hm.dim == 3 ? deg : a + b); ++c)
        if (f.terms.empty() || g.b(0.6)) f.terms.push_back({{a, b, c}, Coef<R>::rand(g, hm.dim)});
  for (int c = 0; c < 3; ++c) {
    const R zero = R(Coef<R>::rand(g, hm.dim) * 0.0);
    for (unsigned k = 0; k < hm.mesh->NumEntities(c); ++k) f.off[c].push_back(offsets ? Coef<R>::rand(g, hm.dim) : zero);
  }
  return f;
}
/// geometry of an entity evaluated from the description of the mesh (not by the library)
struct OwnGeo {
  const HMesh *hm;
  int codim;
  int cell = -1;  // cell index
  int edge = -1;  // index in hm->edges
  int from = 0;
  OwnGeo(const HMesh &h, const lf::mesh::Entity &e) : hm(&h), codim(e.Codim()) {
    if (codim == 0) {
      cell = h.mesh->Index(e);
    } else {
      const auto sub = e.SubEntities(1);
      const int a = h.mesh->Index(*sub[0]);
      const int b = h.mesh->Index(*sub[1]);
      edge = h.eid.at({std::min(a, b), std::max(a, b)});
      from = a;
    }
  }
  Vec map(const Vec &x) const { return codim == 0 ? hm->CellMap(cell, x) : hm->EdgeMap(edge, from, x(0)); }
  Mat jac(const Vec &x) const {
    if (codim == 0) return hm->CellJac(cell, x);
    const auto &E = hm->edges[edge];
    const double t = x(0);
    return hm->X.col(from) * (4 * t - 3) + hm->Mid(edge) * (4 - 8 * t) + hm->X.col(from == E.a ? E.b : E.a) * (4 * t - 1);
  }
  bool straight() const { return codim == 0 ? hm->CellOrder(cell) == 1 : !hm->edges[edge].curved; }
  /// degree of the map per variable (per total degree for triangles), 1 for affine cells
  bool affine() const {
    if (!straight()) return false;
    if (codim == 1) return true;
    const auto &c = hm->cells[cell];
    if (c.v.size() == 3) return true;
    const Mat N = hm->CellNodes(cell, 1);
    return (N.col(0) + N.col(2) - N.col(1) - N.col(3)).norm() <= 1e-14 * (N.col(2) - N.col(0)).norm();
  }
};
inline double Metric(const Mat &J) { return J.cols() == 1 ? J.col(0).norm() : std::sqrt(std::max(0.0, (J.transpose() * J).determinant())); }
/// random quadrature rule of a reference element
inline lf::quad::QuadRule RandRule(pbt::G &g, lf::base::RefEl re, Mat &P, Vec &w) {
  const int n = g.i(1, 5);
  P = RandRefPoints(g, re, n);
  w = Vec(n);
  for (int k = 0; k < n; ++k) w(k) = g.b(0.8) ? g.r(0.01, 2) : -g.r(0.01, 1);
  return lf::quad::QuadRule(re, P, w, static_cast<unsigned>(g.i(0, 3)));
}
}  // namespace gen
#endif
