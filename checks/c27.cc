// C27: discrete solutions reproduce exact solutions that lie in the space.
#include <lf/assemble/assemble.h>

#include <Eigen/SparseLU>
#include <numeric>

#include "gen/bvp.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
template <class S>
using MatX = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using VecX = Eigen::Matrix<S, Eigen::Dynamic, 1>;

/// polynomial with derivatives
template <class S>
struct Poly {
  Vec x0;
  double L = 1;
  std::vector<std::pair<std::array<int, 3>, S>> t;
  static double mono(const std::array<int, 3> &e, const Vec &y) {
    double r = 1;
    for (int d = 0; d < y.size(); ++d) r *= std::pow(y(d), e[d]);
    return r;
  }
  S val(const Vec &x) const {
    S s = 0;
    for (auto &[e, c] : t) s += c * mono(e, (x - x0) / L);
    return s;
  }
  VecX<S> grad(const Vec &x) const {
    VecX<S> g = VecX<S>::Zero(x.size());
    for (auto &[e, c] : t)
      for (int d = 0; d < x.size(); ++d)
        if (e[d] > 0) {
          auto f = e;
          --f[d];
          g(d) += c * (e[d] * mono(f, (x - x0) / L) / L);
        }
    return g;
  }
  MatX<S> hess(const Vec &x) const {
    MatX<S> h = MatX<S>::Zero(x.size(), x.size());
    for (auto &[e, c] : t)
      for (int d = 0; d < x.size(); ++d)
        for (int k = 0; k < x.size(); ++k) {
          auto f = e;
          double m = f[d]--;
          if (m == 0) continue;
          m *= f[k]--;
          if (m == 0) continue;
          h(d, k) += c * (m * mono(f, (x - x0) / L) / (L * L));
        }
    return h;
  }
  double size() const {
    double s = 0;
    for (auto &q : t) s += std::abs(q.second);
    return s;
  }
};
template <class S>
Poly<S> RandP(pbt::G &g, const HMesh &hm, int deg) {
  Poly<S> p;
  p.x0 = hm.X.rowwise().mean();
  p.L = std::max(1e-300, (hm.X.colwise() - p.x0).colwise().norm().maxCoeff());
  for (int a = 0; a <= deg; ++a)
    for (int b = 0; a + b <= deg; ++b)
      for (int c = 0; a + b + c <= (hm.dim == 3 ? deg : a + b); ++c)
        if (g.b(0.7) || a + b + c == deg) p.t.push_back({{a, b, c}, Coef<S>::rand(g, 2)});
  return p;
}
/// mesh function from a function of entity and position
template <class R>
struct FMF {
  std::function<R(const Entity &, const Vec &)> f;
  std::vector<R> operator()(const Entity &e, const Mat &loc) const {
    const Mat x = e.Geometry()->Global(loc);
    std::vector<R> r;
    for (int k = 0; k < x.cols(); ++k) r.push_back(f(e, x.col(k)));
    return r;
  }
};
enum Bc { kDir = 0, kNeu = 1, kRob = 2, kInner = 3 };

/// conormal of a boundary edge of a planar mesh
Vec Conormal(const HMesh &hm, int e) {
  const auto &E = hm.edges[e];
  const auto [c, k] = E.cells[0];
  const Vec t = (hm.X.col(E.b) - hm.X.col(E.a)).normalized();
  Vec m = Vec::Zero(hm.dim);
  for (int v : hm.cells[c].v) m += hm.X.col(v) / hm.cells[c].v.size();
  Vec d = 0.5 * (hm.X.col(E.a) + hm.X.col(E.b)) - m;
  d -= d.dot(t) * t;
  return d.normalized();
}
/// tangential projector of the plane of the mesh
Mat Projector(const HMesh &hm) {
  if (hm.dim == 2) return Mat::Identity(2, 2);
  const Vec a = hm.X.col(hm.cells[0].v[1]) - hm.X.col(hm.cells[0].v[0]);
  const Vec b = hm.X.col(hm.cells[0].v[2]) - hm.X.col(hm.cells[0].v[1]);
  Mat J(3, 2);
  J << a, b;
  return J * (J.transpose() * J).inverse() * J.transpose();
}
int OwnEdge(const HMesh &hm, const Entity &e) {
  const auto s = e.SubEntities(1);
  const int a = hm.mesh->Index(*s[0]), b = hm.mesh->Index(*s[1]);
  return hm.eid.at({std::min(a, b), std::max(a, b)});
}

/// system assembled by one of the two families of providers
template <class S, class AL, class GA>
struct Problem {
  AL alpha;
  GA gamma;
  std::function<S(const Entity &, const Vec &)> f;      // cells
  std::function<S(const Entity &, const Vec &)> flux;   // Neumann and Robin edges
  std::function<GA(const Entity &)> beta;
  std::function<int(const Entity &)> bc;                // of an edge
  std::function<S(const Vec &)> dir;
  std::function<AL(const Entity &)> alpha_of;
  std::function<GA(const Entity &)> gamma_of;
};
template <class S, class PR>
void Assemble(pbt::G &g, const SpaceT<S> &sp, const PR &pr, bool uscal, bool alt, bool skip_gamma, Eigen::SparseMatrix<S> &A, VecX<S> &b, std::vector<std::pair<bool, S>> *fixed) {
  using AL = decltype(pr.alpha);
  using GA = decltype(pr.gamma);
  const auto &dofh = sp.s->LocGlobMap();
  const unsigned N = dofh.NumDofs();
  const FMF<AL> alpha{[&pr](const Entity &e, const Vec &) { return pr.alpha_of(e); }};
  const FMF<GA> gamma{[&pr](const Entity &e, const Vec &) { return pr.gamma_of(e); }};
  const FMF<S> f{pr.f};
  const FMF<S> q{pr.flux};
  const FMF<GA> beta{[&pr](const Entity &e, const Vec &) { return pr.beta(e); }};
  const FMF<S> dir{[&pr](const Entity &, const Vec &x) { return pr.dir(x); }};
  auto rob = [&pr](const Entity &e) { return pr.bc(e) == kRob; };
  auto nat = [&pr](const Entity &e) { return pr.bc(e) == kRob || pr.bc(e) == kNeu; };
  lf::assemble::COOMatrix<S> M(N, N);
  b = VecX<S>::Zero(N);
  bool any_nat = false;
  for (const auto *e : sp.s->Mesh()->Entities(1)) any_nat = any_nat || nat(*e);
  using US = lf::uscalfe::UniformScalarFESpace<S>;
  if (uscal) {
    auto us = std::dynamic_pointer_cast<const US>(std::shared_ptr<const lf::fe::ScalarFESpace<S>>(sp.s));
    lf::uscalfe::ReactionDiffusionElementMatrixProvider ep(us, alpha, gamma);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, ep, M);
    lf::uscalfe::ScalarLoadElementVectorProvider<S, FMF<S>> lp(us, f);
    lf::assemble::AssembleVectorLocally(0, dofh, lp, b);
    if (any_nat) {
      lf::uscalfe::MassEdgeMatrixProvider bp(us, beta, rob);
      lf::assemble::AssembleMatrixLocally(1, dofh, dofh, bp, M);
      lf::uscalfe::ScalarLoadEdgeVectorProvider<S, FMF<S>, decltype(nat)> vp(us, q, nat);
      lf::assemble::AssembleVectorLocally(1, dofh, vp, b);
    }
  } else {
    auto fs = std::shared_ptr<const lf::fe::ScalarFESpace<S>>(sp.s);
    lf::fe::DiffusionElementMatrixProvider dp(fs, alpha);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, dp, M);
    if (!skip_gamma) {
      lf::fe::MassElementMatrixProvider mp(fs, gamma);
      lf::assemble::AssembleMatrixLocally(0, dofh, dofh, mp, M);
    }
    lf::fe::ScalarLoadElementVectorProvider<S, FMF<S>> lp(fs, f);
    lf::assemble::AssembleVectorLocally(0, dofh, lp, b);
    if (any_nat) {
      lf::fe::MassEdgeMatrixProvider bp(fs, beta, rob);
      lf::assemble::AssembleMatrixLocally(1, dofh, dofh, bp, M);
      lf::fe::ScalarLoadEdgeVectorProvider<S, FMF<S>, decltype(nat)> vp(fs, q, nat);
      lf::assemble::AssembleVectorLocally(1, dofh, vp, b);
    }
  }
  if (fixed) {
    *fixed = lf::fe::InitEssentialConditionFromFunction(*sp.s, [&pr](const Entity &e) -> bool { return pr.bc(e) == kDir; }, dir);
    CHECK(fixed->size() == N, "flags", "number of flags");
    auto sel = [&](lf::assemble::gdof_idx_t i) -> std::pair<bool, S> { return (*fixed)[i]; };
    if (alt) lf::assemble::FixFlaggedSolutionCompAlt<S>(sel, M, b);
    else lf::assemble::FixFlaggedSolutionComponents<S>(sel, M, b);
  }
  A = M.makeSparse();
}
/// random boundary conditions such that the problem has a unique solution
std::vector<int> RandBc(pbt::G &g, const HMesh &hm, bool reaction) {
  std::vector<int> bc(hm.edges.size(), kInner);
  const int mode = g.i(0, 3);
  std::vector<int> bnd;
  for (size_t e = 0; e < hm.edges.size(); ++e)
    if (hm.edges[e].cells.size() == 1) {
      bnd.push_back(e);
      bc[e] = mode == 0 ? kDir : (mode == 1 ? g.i(0, 2) : (mode == 2 ? g.pick(std::vector<int>{kNeu, kRob}) : (g.b(0.25) ? kDir : kNeu)));
    }
  if (!reaction) {
    std::vector<int> comp(hm.cells.size());
    std::iota(comp.begin(), comp.end(), 0);
    std::function<int(int)> find = [&](int x) { return comp[x] == x ? x : comp[x] = find(comp[x]); };
    for (auto &E : hm.edges)
      if (E.cells.size() == 2) comp[find(E.cells[0].first)] = find(E.cells[1].first);
    std::set<int> ok;
    for (int e : bnd)
      if (bc[e] != kNeu) ok.insert(find(hm.edges[e].cells[0].first));
    for (int e : bnd)
      if (ok.insert(find(hm.edges[e].cells[0].first)).second) bc[e] = kDir;
  }
  return bc;
}
template <class AL>
struct RandSpd;
template <>
struct RandSpd<double> {
  static double make(pbt::G &g, int) { return g.pick(std::vector<double>{1., 0.25, 2.}) * (g.b() ? 1. : g.r(0.5, 2)); }
};
template <>
struct RandSpd<Eigen::MatrixXd> {
  static Eigen::MatrixXd make(pbt::G &g, int dim) {
    Mat Q = Mat::Identity(dim, dim);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) Q(i, j) += g.r(-0.3, 0.3);
    Mat a = Q * Q.transpose() + 0.2 * Mat::Identity(dim, dim);
    if (g.b(0.3)) a(0, 1) += g.r(-0.4, 0.4);  // unsymmetric, still positive definite
    return a;
  }
};
template <class GA>
GA RandPos(pbt::G &g) {
  if constexpr (std::is_same_v<GA, Cplx>) return Cplx(g.r(0.1, 3), g.r(-2, 2));
  else return g.r(0.1, 3);
}

template <class S, class AL, class GA>
void Exact(pbt::G &g) {
  MeshOpt o;
  o.max_n = 3;
  o.affine_only = true;
  o.allow_3d = std::is_same_v<AL, double>;
  const HMesh hm = RandMesh(g, o);
  const auto &mesh = *hm.mesh;
  const SpaceT<S> sp = RandSpace<S>(g, hm.mesh, 1, g.b(0.2) ? 6 : 4);
  const int deg = g.b(0.7) ? sp.pmin : g.i(0, sp.pmin);
  const Poly<S> u = RandP<S>(g, hm, deg);
  const Mat Pr = Projector(hm);
  const double L = u.L;
  const bool reaction = g.b();
  Problem<S, AL, GA> pr;
  pr.alpha = RandSpd<AL>::make(g, hm.dim);
  pr.gamma = reaction ? RandPos<GA>(g) * (1. / (L * L)) : GA(0);
  const GA beta = RandPos<GA>(g) * (1. / L);
  const std::vector<int> bc = RandBc(g, hm, reaction);
  auto tensor = [&](const AL &a) -> Mat {
    if constexpr (std::is_same_v<AL, double>) return a * Pr;
    else return a;
  };
  const Mat T = tensor(pr.alpha);
  pr.alpha_of = [&](const Entity &) { return pr.alpha; };
  pr.gamma_of = [&](const Entity &) { return pr.gamma; };
  pr.beta = [&](const Entity &) { return beta; };
  pr.bc = [&](const Entity &e) { return bc[OwnEdge(hm, e)]; };
  pr.dir = [&](const Vec &x) { return u.val(x); };
  pr.f = [&](const Entity &, const Vec &x) -> S { return -(T.template cast<S>() * u.hess(x)).trace() + S(pr.gamma) * u.val(x); };
  pr.flux = [&](const Entity &e, const Vec &x) -> S {
    const int k = OwnEdge(hm, e);
    const Vec n = Conormal(hm, k);
    const VecX<S> a = T.template cast<S>() * u.grad(x);
    S s = 0;
    for (int d = 0; d < hm.dim; ++d) s += a(d) * n(d);
    return s + (bc[k] == kRob ? S(beta) * u.val(x) : S(0));
  };
  const bool uscal = sp.lagrange && g.b();
  g.label(uscal ? "uscalfe providers" : "fe providers");
  std::array<int, 4> nb{};
  for (int k : bc) nb[k]++;
  if (nb[kDir]) g.label("Dirichlet");
  if (nb[kNeu]) g.label("Neumann");
  if (nb[kRob]) g.label("Robin");
  g.label("solution of degree " + std::to_string(deg));
  g.desc() << "u of degree " << deg << " gamma " << pr.gamma << " bc " << nb[0] << "/" << nb[1] << "/" << nb[2];
  Eigen::SparseMatrix<S> A;
  VecX<S> b;
  std::vector<std::pair<bool, S>> fixed;
  Assemble<S>(g, sp, pr, uscal, g.b(), !reaction && g.b(), A, b, &fixed);
  const int N = b.size();
  const VecX<S> ex = lf::fe::NodalProjection(*sp.s, FMF<S>{[&](const Entity &, const Vec &x) { return u.val(x); }});
  // Dirichlet flags: exactly the unknowns of the Dirichlet edges and their endpoints
  {
    const auto &dofh = sp.s->LocGlobMap();
    std::vector<char> fl(N, 0);
    for (const auto *e : mesh.Entities(1))
      if (pr.bc(*e) == kDir)
        for (auto i : dofh.GlobalDofIndices(*e)) fl[i] = 1;
    for (int i = 0; i < N; ++i) CHECK(fixed[i].first == (fl[i] == 1), "Dirichlet flag", "unknown " << i << " flagged " << fixed[i].first);
  }
  // residual of the exact solution
  const VecX<S> r = A * ex - b;
  double big = 1e-300;
  for (int k = 0; k < A.outerSize(); ++k)
    for (typename Eigen::SparseMatrix<S>::InnerIterator it(A, k); it; ++it) big = std::max(big, std::abs(it.value()) * std::max(std::abs(ex[k]), u.size()));
  big = std::max(big, b.cwiseAbs().maxCoeff());
  for (int i = 0; i < N; ++i) CHECK(std::abs(r[i]) <= 1e-9 * big, "residual", "the interpolant of the exact solution violates equation " << i << " of " << N << " by " << std::abs(r[i]) << " (scale " << big << "), " << sp.name);
  Eigen::SparseLU<Eigen::SparseMatrix<S>> lu;
  A.makeCompressed();
  lu.compute(A);
  CHECK(lu.info() == Eigen::Success, "singular", "the Galerkin matrix is singular, " << sp.name);
  const VecX<S> c = lu.solve(b);
  const double us = std::max(u.size(), 1e-300);
  CHECK((c - ex).cwiseAbs().maxCoeff() <= 1e-6 * us * 10, "solution", "coefficients differ by " << (c - ex).cwiseAbs().maxCoeff() << ", " << sp.name);
  const lf::fe::MeshFunctionFE<S, S> uh(sp.s, c);
  const lf::fe::MeshFunctionGradFE<S, S> gh(sp.s, c);
  for (const auto *cell : mesh.Entities(0)) {
    const Mat P = RandRefPoints(g, cell->RefEl(), 2);
    const OwnGeo geo(hm, *cell);
    const auto v = uh(*cell, P);
    const auto w = gh(*cell, P);
    for (int k = 0; k < 2; ++k) {
      const Vec x = geo.map(P.col(k));
      CHECK(std::abs(v[k] - u.val(x)) <= 1e-6 * us, "solution value", "u_h = " << v[k] << " instead of " << u.val(x) << ", " << sp.name);
      const VecX<S> gd = w[k] - Pr.template cast<S>() * u.grad(x);
      CHECK(gd.norm() <= 1e-5 * us / (L / 50), "solution gradient", "gradient off by " << gd.norm() << ", " << sp.name);
    }
  }
  int inner = 0;
  for (auto &f : fixed) inner += !f.first;
  if (inner > 0 && deg >= 1) g.nontrivial();
}
}  // namespace

PBT_SUB("exact", 60, 600, "the exact solution has degree at least one and at least one unknown is free") {
  switch (g.i(0, 3)) {
    case 0: return Exact<double, double, double>(g);
    case 1: return Exact<double, Eigen::MatrixXd, double>(g);
    case 2: return Exact<Cplx, double, Cplx>(g);
    default: return Exact<Cplx, Eigen::MatrixXd, double>(g);
  }
}

namespace {
/// the same straight mesh with other numbers, first vertices, orientations and explicit edges
HMesh Renumber(pbt::G &g, const HMesh &a, std::vector<int> &node, std::vector<int> &cell) {
  HMesh b;
  b.dim = a.dim;
  b.scale = a.scale;
  node = g.perm(static_cast<int>(a.X.cols()));
  cell = g.perm(static_cast<int>(a.cells.size()));
  b.X.resize(a.dim, a.X.cols());
  for (int k = 0; k < a.X.cols(); ++k) b.X.col(node[k]) = a.X.col(k);
  b.cells.resize(a.cells.size());
  for (size_t k = 0; k < a.cells.size(); ++k) {
    MCell C;
    C.geo = a.cells[k].geo;
    for (int v : a.cells[k].v) C.v.push_back(node[v]);
    std::rotate(C.v.begin(), C.v.begin() + g.i(0, static_cast<int>(C.v.size()) - 1), C.v.end());
    if (g.b()) std::reverse(C.v.begin() + 1, C.v.end());
    b.cells[cell[k]] = C;
  }
  b.MakeEdges();
  for (size_t e = 0; e < b.edges.size(); ++e)
    if (g.b(0.4)) {
      MExp x;
      x.edge = e;
      x.first = g.b() ? b.edges[e].a : b.edges[e].b;
      x.geo = 1;
      b.expl.push_back(x);
    }
  b.Build(&g);
  return b;
}
}  // namespace

PBT_SUB("renumbering", 40, 400, "mesh of at least two cells, solution outside of the space") {
  MeshOpt o;
  o.max_n = 3;
  o.affine_only = true;
  o.allow_3d = true;
  const HMesh ha = RandMesh(g, o);
  std::vector<int> node, cell;
  const HMesh hb = Renumber(g, ha, node, cell);
  std::vector<int> edge(ha.edges.size());
  for (size_t e = 0; e < ha.edges.size(); ++e) {
    const int p = node[ha.edges[e].a], q = node[ha.edges[e].b];
    edge[e] = hb.eid.at({std::min(p, q), std::max(p, q)});
  }
  CHECK(ha.edges.size() == hb.edges.size() && ha.mesh->NumEntities(1) == hb.mesh->NumEntities(1), "edges", "number of edges");
  const HMesh *hm[2] = {&ha, &hb};
  // own numbers of the original mesh for the entities of both meshes
  std::vector<int> icell(cell.size()), iedge(edge.size());
  for (size_t k = 0; k < cell.size(); ++k) icell[cell[k]] = k;
  for (size_t k = 0; k < edge.size(); ++k) iedge[edge[k]] = k;
  auto cell_id = [&](int m, const Entity &e) { return m == 0 ? static_cast<int>(ha.mesh->Index(e)) : icell[hb.mesh->Index(e)]; };
  auto edge_id = [&](int m, const Entity &e) { return m == 0 ? OwnEdge(ha, e) : iedge[OwnEdge(hb, e)]; };
  // spaces
  const int kind = g.i(0, 3);
  const int p = kind <= 1 ? g.i(1, 3) : g.i(1, 5);
  std::vector<int> dc, de;
  for (size_t k = 0; k < cell.size(); ++k) dc.push_back(g.i(1, 5));
  for (size_t k = 0; k < edge.size(); ++k) de.push_back(g.i(1, 5));
  SpaceT<double> sp[2];
  for (int m = 0; m < 2; ++m) {
    auto mesh = hm[m]->mesh;
    if (kind <= 1) {
      sp[m].lagrange = true;
      if (p == 1) sp[m].s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(mesh);
      else if (p == 2) sp[m].s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
      else sp[m].s = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(mesh);
    } else if (kind == 2) {
      sp[m].s = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, static_cast<unsigned>(p));
    } else {
      sp[m].s = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(mesh, [&, m](const Entity &e) -> unsigned {
        if (e.Codim() == 2) return 1;
        return e.Codim() == 1 ? de[edge_id(m, e)] : dc[cell_id(m, e)];
      });
    }
  }
  sp[0].name = sp[1].name = kind <= 1 ? "Lagrange O" + std::to_string(p) : (kind == 2 ? "hierarchic p=" + std::to_string(p) : "hierarchic mixed");
  g.label(kind <= 1 ? sp[0].name : (kind == 2 ? "hierarchic uniform" : "hierarchic mixed"));
  CHECK(sp[0].s->LocGlobMap().NumDofs() == sp[1].s->LocGlobMap().NumDofs(), "dimension", "dimensions of the spaces differ");
  // problem
  const bool reaction = g.b();
  const Poly<double> f = RandP<double>(g, ha, g.i(0, 2)), dir = RandP<double>(g, ha, g.i(0, 2)), flux = RandP<double>(g, ha, g.i(0, 2));
  const double L = f.L;
  std::vector<double> al, ga, be;
  for (size_t k = 0; k < cell.size(); ++k) {
    al.push_back(RandSpd<double>::make(g, 2));
    ga.push_back(reaction ? g.r(0.1, 3) / (L * L) : 0.);
  }
  for (size_t k = 0; k < edge.size(); ++k) be.push_back(g.r(0.1, 3) / L);
  const std::vector<int> bc = RandBc(g, ha, reaction);
  const bool uscal = kind <= 1 && g.b();
  g.desc() << sp[0].name << " reaction " << reaction;
  Eigen::SparseMatrix<double> A[2], Af[2];
  Vec b[2], c[2], bf[2];
  for (int m = 0; m < 2; ++m) {
    Problem<double, double, double> pr;
    pr.alpha_of = [&, m](const Entity &e) { return al[cell_id(m, e)]; };
    pr.gamma_of = [&, m](const Entity &e) { return ga[cell_id(m, e)]; };
    pr.beta = [&, m](const Entity &e) { return be[edge_id(m, e)]; };
    pr.bc = [&, m](const Entity &e) { return bc[edge_id(m, e)]; };
    pr.f = [&](const Entity &, const Vec &x) { return f.val(x) / (L * L); };
    pr.flux = [&](const Entity &, const Vec &x) { return flux.val(x) / L; };
    pr.dir = [&](const Vec &x) { return dir.val(x); };
    std::vector<std::pair<bool, double>> fixed;
    Assemble<double>(g, sp[m], pr, uscal, g.b(), false, A[m], b[m], &fixed);
    if (kind <= 1) Assemble<double>(g, sp[m], pr, uscal, false, false, Af[m], bf[m], nullptr);
    Eigen::SparseLU<Eigen::SparseMatrix<double>> lu;
    A[m].makeCompressed();
    lu.compute(A[m]);
    CHECK(lu.info() == Eigen::Success, "singular", "the Galerkin matrix is singular, " << sp[m].name);
    c[m] = lu.solve(b[m]);
  }
  if (kind <= 1) {  // unknowns of Lagrangian spaces belong to points
    std::vector<Mat> X(2);
    for (int m = 0; m < 2; ++m) {
      X[m].resize(c[m].size(), ha.dim);
      for (int d = 0; d < ha.dim; ++d) X[m].col(d) = lf::fe::NodalProjection(*sp[m].s, FMF<double>{[d](const Entity &, const Vec &x) { return x[d]; }});
    }
    const int N = c[0].size();
    std::vector<int> perm(N, -1), used(N, 0);
    for (int i = 0; i < N; ++i) {
      Eigen::Index j;
      const double dist = (X[1].rowwise() - X[0].row(i)).rowwise().norm().minCoeff(&j);
      CHECK(dist <= 1e-8 * CoordScale(ha.X) && !used[j], "unknowns", "unknown " << i << " has no partner in the renumbered mesh");
      used[j] = 1;
      perm[i] = j;
    }
    const Mat D0 = Mat(Af[0]), D1 = Mat(Af[1]);
    const double s = D0.cwiseAbs().maxCoeff(), sb = std::max(bf[0].cwiseAbs().maxCoeff(), f.size() * 1e-3 + flux.size() * 1e-3);
    for (int i = 0; i < N; ++i) {
      CHECK(std::abs(bf[0][i] - bf[1][perm[i]]) <= 1e-9 * sb, "load vector", "entry " << i << ": " << bf[0][i] << " and " << bf[1][perm[i]] << ", " << sp[0].name);
      for (int j = 0; j < N; ++j) CHECK(std::abs(D0(i, j) - D1(perm[i], perm[j])) <= 1e-10 * s, "matrix", "entry (" << i << "," << j << "): " << D0(i, j) << " and " << D1(perm[i], perm[j]) << ", " << sp[0].name);
    }
  }
  const lf::fe::MeshFunctionFE<double, double> u0(sp[0].s, c[0]), u1(sp[1].s, c[1]);
  const double us = std::max({c[0].cwiseAbs().maxCoeff(), c[1].cwiseAbs().maxCoeff(), 1e-3 * (f.size() + dir.size() + flux.size()), 1e-300});
  for (const auto *e : ha.mesh->Entities(0)) {
    const int k = ha.mesh->Index(*e);
    const Mat P = RandRefPoints(g, e->RefEl(), 2);
    const auto *e1 = hb.mesh->EntityByIndex(0, cell[k]);
    const auto v = u0(*e, P);
    for (int q = 0; q < P.cols(); ++q) {
      const Vec x = ha.CellMap(k, P.col(q));
      const Mat J = hb.CellJac(cell[k], Vec::Zero(2));
      const Vec y = (J.transpose() * J).ldlt().solve(J.transpose() * (x - hb.CellMap(cell[k], Vec::Zero(2))));
      const auto w = u1(*e1, y);
      CHECK(std::abs(v[q] - w[0]) <= 1e-6 * us, "solution", "values " << v[q] << " and " << w[0] << " of the solutions at the same point, " << sp[0].name);
    }
  }
  if (ha.cells.size() >= 2) g.nontrivial();
}
