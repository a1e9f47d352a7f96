// C17: finite element functions are continuous and represent polynomials exactly
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include <complex>

#include "gen/fespace.h"
#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Orientation;
using Cplx = std::complex<double>;

namespace {
template <class S>
S RandS(pbt::G &g) {
  if constexpr (std::is_same_v<S, Cplx>) return {g.num(2), g.num(2)};
  else return g.num(2);
}
template <class S>
Eigen::Matrix<S, Eigen::Dynamic, 1> RandC(pbt::G &g, int n) {
  Eigen::Matrix<S, Eigen::Dynamic, 1> v(n);
  const bool sparse = g.b(0.2);
  for (int k = 0; k < n; ++k) v(k) = sparse && !g.b(0.2) ? S(0) : RandS<S>(g);
  return v;
}
struct Setup {
  HMesh hm;
  std::shared_ptr<lf::refinement::MeshHierarchy> mh;
  std::shared_ptr<const lf::mesh::Mesh> mesh;
  bool refined = false;
};
Setup RandSetup(pbt::G &g, bool straight) {
  Setup s;
  MeshOpt o;
  o.max_n = 3;
  o.allow_curved = !straight;
  o.allow_3d = true;
  if (g.b(0.5)) o.unit_scale = true;
  s.refined = g.b(0.25);
  if (s.refined) {
    o.allow_3d = false;
    o.allow_null_geo = false;
    o.max_n = 2;
  }
  s.hm = RandMesh(g, o);
  s.mesh = s.hm.mesh;
  if (s.refined) {
    s.mh = MakeHierarchy(s.hm);
    HistOpt ho;
    RefStep st;
    RandRefine(g, *s.mh, ho, st);
    s.mesh = s.mh->getMesh(s.mh->NumLevels() - 1);
    g.label("refined");
  }
  return s;
}
/// reference coordinates on side k of a cell, parameter running from its first to its second vertex
Mat OnSide(RefEl re, int k, const Mat &t) {
  const Mat C = re.NodeCoords();
  const int n = C.cols();
  Mat r(2, t.cols());
  for (int i = 0; i < t.cols(); ++i) r.col(i) = (1 - t(0, i)) * C.col(k) + t(0, i) * C.col((k + 1) % n);
  return r;
}
/// maximal modulus of the coefficients as tolerance scale
template <class V>
double Mag(const V &v) {
  return 1 + (v.size() ? v.cwiseAbs().maxCoeff() : 0.0);
}

template <class SF, class SC>
void Continuity(pbt::G &g) {
  const Setup su = RandSetup(g, false);
  const auto &mesh = *su.mesh;
  const SpaceT<SF> sp = RandSpace<SF>(g, su.mesh, 1, 6);
  const auto &fes = *sp.s;
  const auto &dofh = fes.LocGlobMap();
  // ---- layout: the dofs of an entity are those of its closure
  CHECK(fes.Mesh() == su.mesh, "mesh", "");
  unsigned total = 0;
  for (int codim = 0; codim <= 2; ++codim)
    for (const auto *e : mesh.Entities(codim)) {
      const auto *lay = fes.ShapeFunctionLayout(*e);
      CHECK(lay != nullptr, "layout", "no shape functions for " << e->RefEl().ToString());
      CHECK(lay->RefEl() == e->RefEl(), "layout", "reference element");
      CHECK(lay->NumRefShapeFunctions(0, 0) == fes.NumRefShapeFunctions(*e) && dofh.NumInteriorDofs(*e) == fes.NumRefShapeFunctions(*e) && dofh.NumLocalDofs(*e) == lay->NumRefShapeFunctions(), "layout",
            e->RefEl().ToString() << " layout " << lay->NumRefShapeFunctions() << " space " << fes.NumRefShapeFunctions(*e) << " dofhandler " << dofh.NumLocalDofs(*e));
      total += dofh.NumInteriorDofs(*e);
      if (!sp.lagrange && codim < 2) {
        const int p = sp.deg[codim][mesh.Index(*e)];
        const unsigned ex = codim == 1 ? p - 1 : e->RefEl() == RefEl::kTria() ? (p < 3 ? 0 : (p - 1) * (p - 2) / 2) : (p - 1) * (p - 1);
        CHECK(dofh.NumInteriorDofs(*e) == ex, "layout", e->RefEl().ToString() << " of degree " << p << " has " << dofh.NumInteriorDofs(*e) << " own dofs");
      }
    }
  CHECK(total == dofh.NumDofs(), "layout", "number of dofs " << dofh.NumDofs() << ", sum " << total);

  const Eigen::Matrix<SC, Eigen::Dynamic, 1> c = RandC<SC>(g, dofh.NumDofs());
  const lf::fe::MeshFunctionFE<SF, SC> f(sp.s, c);
  const lf::fe::MeshFunctionGradFE<SF, SC> df(sp.s, c);
  CHECK(f.getMesh() == su.mesh && df.getMesh() == su.mesh && f.getFESpace() == sp.s && df.getFESpace() == sp.s, "mesh", "mesh functions");
  const double tol = 1e-10 * Mag(c) * sp.pmax;
  // ---- one value on each edge, from every adjacent cell and from the edge itself
  const int q = g.i(1, 3);
  const Mat t = RandRefPoints(g, RefEl::kSegment(), q);
  const Mat tr = Mat::Ones(1, q) - t;
  std::vector<std::vector<typename decltype(f)::Scalar>> ev(mesh.NumEntities(1));
  for (const auto *e : mesh.Entities(1)) ev[mesh.Index(*e)] = f(*e, t);
  std::vector<typename decltype(f)::Scalar> pv;
  for (const auto *p : mesh.Entities(2)) {
    const auto v = f(*p, Mat(0, 1));
    CHECK(v.size() == 1, "size", "");
    pv.push_back(v[0]);
  }
  bool neg = false;
  std::vector<int> cnt(mesh.NumEntities(1), 0);
  for (const auto *cell : mesh.Entities(0)) {
    const auto ori = cell->RelativeOrientations();
    const auto edges = cell->SubEntities(1);
    const auto nodes = cell->SubEntities(2);
    const int n = nodes.size();
    for (int k = 0; k < n; ++k) {
      const unsigned ei = mesh.Index(*edges[k]);
      ++cnt[ei];
      // parameter of the edge starts at its own first node: decided from the nodes, not from the orientation flag
      const auto en = edges[k]->SubEntities(1);
      const bool same = en[0] == nodes[k] && en[1] == nodes[(k + 1) % n];
      CHECK(same || (en[1] == nodes[k] && en[0] == nodes[(k + 1) % n]), "topology", "edge nodes");
      neg = neg || !same;
      const auto v = f(*cell, OnSide(cell->RefEl(), k, same ? t : tr));
      for (int i = 0; i < q; ++i)
        CHECK_NEAR(v[i], ev[ei][i], tol, "edge-value", "cell " << mesh.Index(*cell) << " (" << cell->RefEl().ToString() << ") side " << k << " edge " << ei << " at " << t(0, i) << ", " << sp.name);
      const auto vc = f(*cell, Mat(cell->RefEl().NodeCoords().col(k)));
      CHECK_NEAR(vc[0], pv[mesh.Index(*nodes[k])], tol, "vertex-value", "cell " << mesh.Index(*cell) << " vertex " << k);
    }
  }
  for (const auto *e : mesh.Entities(1)) {
    const auto v = f(*e, (Mat(1, 2) << 0, 1).finished());
    const auto nd = e->SubEntities(1);
    for (int k = 0; k < 2; ++k) CHECK_NEAR(v[k], pv[mesh.Index(*nd[k])], tol, "vertex-value", "edge " << mesh.Index(*e) << " end point " << k);
  }
  g.nontrivial(neg && sp.pmax >= 3 && *std::max_element(cnt.begin(), cnt.end()) == 2);
  // ---- gradient is the derivative: J^T grad = derivative along reference directions
  for (int r = 0; r < 3; ++r) {
    const int codim = g.b(0.25) ? 1 : 0;
    const auto *e = mesh.EntityByIndex(codim, g.i(0, mesh.NumEntities(codim) - 1));
    const int d = e->RefEl().Dimension();
    const int m = g.i(1, 4);
    Mat X(d, m);
    for (int i = 0; i < m; ++i) {  // keep distance to the boundary for the difference stencil
      Vec x(d);
      for (int k = 0; k < d; ++k) x(k) = g.r(0.1, 0.9);
      if (e->RefEl() == RefEl::kTria() && x.sum() > 0.9) x = Vec(0.9 / x.sum() * x);
      X.col(i) = x;
    }
    const auto gr = df(*e, X);
    CHECK(gr.size() == static_cast<std::size_t>(m), "size", "");
    const Mat J = e->Geometry()->Jacobian(X);
    const double h = 2e-3;
    static const double off[6] = {-3, -2, -1, 1, 2, 3};
    static const double w[6] = {-1.0 / 60, 3.0 / 20, -3.0 / 4, 3.0 / 4, -3.0 / 20, 1.0 / 60};
    for (int k = 0; k < d; ++k) {
      Mat Y(d, 6 * m);
      for (int i = 0; i < m; ++i)
        for (int s = 0; s < 6; ++s) {
          Y.col(6 * i + s) = X.col(i);
          Y(k, 6 * i + s) += off[s] * h;
        }
      const auto v = f(*e, Y);
      CHECK(v.size() == static_cast<std::size_t>(6 * m), "size", "");
      for (int i = 0; i < m; ++i) {
        typename decltype(f)::Scalar fd = 0;
        for (int s = 0; s < 6; ++s) fd += w[s] * v[6 * i + s] / h;
        typename decltype(f)::Scalar an = 0;
        CHECK(gr[i].size() == J.rows(), "size", "gradient has " << gr[i].size() << " components");
        for (int a = 0; a < J.rows(); ++a) an += J(a, d * i + k) * gr[i](a);
        CHECK_NEAR(an, fd, 1e-6 * Mag(c) * sp.pmax * sp.pmax, "gradient", e->RefEl().ToString() << " " << mesh.Index(*e) << " direction " << k << " at " << X.col(i).transpose() << ", " << sp.name);
      }
    }
    // gradients are tangential
    if (J.rows() > d)
      for (int i = 0; i < m; ++i) {
        const Mat Ji = J.block(0, d * i, J.rows(), d);
        const Mat Pn = Mat::Identity(J.rows(), J.rows()) - Ji * (Ji.transpose() * Ji).inverse() * Ji.transpose();
        CHECK((Pn * gr[i]).norm() <= 1e-9 * (gr[i].norm() + 1), "tangential", "gradient has a normal component");
      }
  }
  // ---- linearity in the coefficients
  {
    const Eigen::Matrix<SC, Eigen::Dynamic, 1> c2 = RandC<SC>(g, dofh.NumDofs());
    const SC a = RandS<SC>(g);
    const lf::fe::MeshFunctionFE<SF, SC> f2(sp.s, c2), fs(sp.s, Eigen::Matrix<SC, Eigen::Dynamic, 1>(c + a * c2));
    const auto *e = mesh.EntityByIndex(0, g.i(0, mesh.NumEntities(0) - 1));
    const Mat X = RandRefPoints(g, e->RefEl(), 2);
    const auto v1 = f(*e, X), v2 = f2(*e, X), v3 = fs(*e, X);
    for (int i = 0; i < 2; ++i) CHECK_NEAR(v3[i], v1[i] + a * v2[i], 1e-11 * (Mag(c) + Mag(c2) * std::abs(a)) * dofh.NumLocalDofs(*e), "linear", "");
  }
}

template <class S>
void Polynomials(pbt::G &g) {
  const Setup su = RandSetup(g, g.b(0.7));
  const auto &mesh = *su.mesh;
  const SpaceT<S> sp = RandSpace<S>(g, su.mesh, su.hm.curved ? 2 : 1, 6);
  const auto &fes = *sp.s;
  const auto &dofh = fes.LocGlobMap();
  // polynomial in normalised world coordinates
  const int dim = mesh.DimWorld();
  const int deg = su.hm.curved ? sp.pmin / 2 : sp.pmin;
  Vec x0 = su.hm.X.rowwise().mean();
  const double L = std::max(1e-300, (su.hm.X.colwise() - x0).colwise().norm().maxCoeff());
  std::vector<std::pair<std::array<int, 3>, S>> terms;
  for (int a = 0; a <= deg; ++a)
    for (int b = 0; a + b <= deg; ++b)
      for (int c = 0; a + b + c <= (dim == 3 ? deg : a + b); ++c) terms.push_back({{a, b, c}, RandS<S>(g)});
  auto poly = [&](const Vec &x) {
    const Vec y = (x - x0) / L;
    S s = 0;
    for (const auto &[e, v] : terms) s += v * std::pow(y(0), e[0]) * std::pow(y(1), e[1]) * (dim == 3 ? std::pow(y(2), e[2]) : 1.0);
    return s;
  };
  auto gpoly = [&](const Vec &x) {
    const Vec y = (x - x0) / L;
    Eigen::Matrix<S, Eigen::Dynamic, 1> r = Eigen::Matrix<S, Eigen::Dynamic, 1>::Zero(dim);
    for (const auto &[e, v] : terms)
      for (int d = 0; d < dim; ++d) {
        if (e[d] == 0) continue;
        double m = e[d];
        for (int k = 0; k < dim; ++k) m *= std::pow(y(k), e[k] - (k == d ? 1 : 0));
        r(d) += v * m / L;
      }
    return r;
  };
  const lf::mesh::utils::MeshFunctionGlobal mf([&](const Eigen::VectorXd &x) { return poly(x); });
  const auto c = lf::fe::NodalProjection(fes, mf);
  CHECK(c.size() == dofh.NumDofs(), "size", "");
  const lf::fe::MeshFunctionFE<S, S> f(sp.s, c);
  const lf::fe::MeshFunctionGradFE<S, S> df(sp.s, c);
  double mag = 1;
  for (const auto &tm : terms) mag += std::abs(tm.second);
  const double tol = 1e-9 * mag;
  g.nontrivial(deg >= 2);
  for (int codim = 0; codim <= 2; ++codim)
    for (const auto *e : mesh.Entities(codim)) {
      const int m = codim == 2 ? 1 : 2;
      const Mat X = codim == 2 ? Mat(0, 1) : RandRefPoints(g, e->RefEl(), m);
      const Mat G = e->Geometry()->Global(X);
      const auto v = f(*e, X);
      for (int i = 0; i < m; ++i)
        CHECK_NEAR(v[i], poly(G.col(i)), tol, "reproduce", "polynomial of degree " << deg << " at " << G.col(i).transpose() << " on " << e->RefEl().ToString() << " " << mesh.Index(*e) << ", " << sp.name);
      if (codim == 0 && dim == 2) {
        const auto w = df(*e, X);
        const Mat J = e->Geometry()->Jacobian(X);
        for (int i = 0; i < m; ++i) {
          // compare reference derivatives (no amplification on distorted cells)
          const Mat Ji = J.block(0, 2 * i, 2, 2);
          CHECK_MAT((Ji.transpose() * w[i]), (Ji.transpose() * gpoly(G.col(i))), 1e-7 * mag, "reproduce-gradient", "on " << e->RefEl().ToString() << " " << mesh.Index(*e) << ", " << sp.name);
        }
      }
    }
  // a finite element function is reproduced, with the same coefficients
  const Eigen::Matrix<S, Eigen::Dynamic, 1> c2 = RandC<S>(g, dofh.NumDofs());
  const auto back = lf::fe::NodalProjection(fes, lf::fe::MeshFunctionFE<S, S>(sp.s, c2));
  for (Eigen::Index k = 0; k < c2.size(); ++k) CHECK_NEAR(back(k), c2(k), 1e-9 * Mag(c2), "projection", "interpolating a finite element function changed coefficient " << k << ", " << sp.name);
  // restricted interpolation sets the dofs of the selected cells and leaves the others zero
  std::vector<bool> sel(mesh.NumEntities(0));
  for (std::size_t k = 0; k < sel.size(); ++k) sel[k] = g.b();
  const auto part = lf::fe::NodalProjection(fes, lf::fe::MeshFunctionFE<S, S>(sp.s, c2), [&](const lf::mesh::Entity &e) { return sel[mesh.Index(e)]; });
  std::vector<bool> act(c2.size(), false);
  for (const auto *e : mesh.Entities(0))
    if (sel[mesh.Index(*e)])
      for (auto d : dofh.GlobalDofIndices(*e)) act[d] = true;
  for (Eigen::Index k = 0; k < c2.size(); ++k)
    CHECK_NEAR(part(k), (act[k] ? c2(k) : S(0)), 1e-9 * Mag(c2), "selected", "coefficient " << k);
}
}  // namespace

PBT_SUB("continuity-real", 30, 500, "random hybrid mesh (curved, 3D, refined) x space (Lagrangian, hierarchic, mixed degrees) x coefficients; non-trivial: reversed interior edge and degree >= 3") {
  Continuity<double, double>(g);
}
PBT_SUB("continuity-complex", 12, 200, "as continuity-real with complex coefficients of real or complex spaces") {
  if (g.b()) Continuity<double, Cplx>(g);
  else Continuity<Cplx, Cplx>(g);
}
PBT_SUB("polynomials-real", 20, 400, "interpolation of random polynomials contained in the space and of finite element functions; non-trivial: polynomial degree >= 2") {
  Polynomials<double>(g);
}
PBT_SUB("polynomials-complex", 6, 100, "as polynomials-real with complex scalars") { Polynomials<Cplx>(g); }
