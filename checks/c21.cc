// C21: integration, interpolation and boundary data tools match their definition
#include "gen/bvp.h"
#include "gen/fespace.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
HMesh RandSetup(pbt::G &g, int n) {
  MeshOpt o;
  o.max_n = n;
  const int kind = static_cast<int>(g.raw(4));
  if (kind <= 1) o.affine_only = true;
  else if (kind == 2) o.allow_curved = false;
  if (g.b(0.6)) o.unit_scale = true;
  return RandMesh(g, o);
}
Vec PosOf(const HMesh &hm, const Entity &e, const Vec &x) {
  if (e.Codim() == 2) return hm.X.col(hm.mesh->Index(e));
  return OwnGeo(hm, e).map(x);
}
double MetricOf(const HMesh &hm, const Entity &e, const Vec &x) { return e.Codim() == 2 ? 1.0 : Metric(OwnGeo(hm, e).jac(x)); }
bool Affine(const HMesh &hm, const Entity &e) { return e.Codim() == 2 || OwnGeo(hm, e).affine(); }
bool Straight(const HMesh &hm, const Entity &e) { return e.Codim() == 2 || OwnGeo(hm, e).straight(); }
std::vector<bool> RandSel(pbt::G &g, int n) {
  std::vector<bool> s(n);
  switch (g.raw(5)) {
    case 0: s.assign(n, true); break;
    case 1: s.assign(n, false); break;
    case 2:  // everything except the first / only the last
      s.assign(n, true);
      s[0] = false;
      break;
    default:
      for (int k = 0; k < n; ++k) s[k] = g.b();
  }
  return s;
}
template <class T>
double Dist(const T &a, const T &b) {
  if constexpr (lf::base::Scalar<T>) return std::abs(a - b);
  else return a.size() == 0 ? 0.0 : (a - b).cwiseAbs().maxCoeff();
}
template <class R>
R Zero(const HMesh &hm) {
  if constexpr (lf::base::Scalar<R>) return R(0);
  else return R::Zero(R::RowsAtCompileTime == Eigen::Dynamic ? hm.dim : R::RowsAtCompileTime, R::ColsAtCompileTime == Eigen::Dynamic ? hm.dim : R::ColsAtCompileTime);
}
/// wraps PolyMF<W> and converts its values to R
template <class R, class W>
struct Conv {
  PolyMF<W> f;
  static R conv(const W &w) {
    if constexpr (std::is_same_v<R, W>) return w;
    else return R(w.template block<R::RowsAtCompileTime, R::ColsAtCompileTime>(0, 0));
  }
  std::vector<R> operator()(const Entity &e, const Eigen::MatrixXd &x) const {
    std::vector<R> r;
    for (const auto &v : f(e, x)) r.push_back(conv(v));
    return r;
  }
};
template <class R, class W>
void Integrals(pbt::G &g) {
  const HMesh hm = RandSetup(g, 3);
  const auto &mesh = *hm.mesh;
  const int codim = g.i(0, 2);
  const int deg = g.i(0, 6);
  const int req = deg + g.i(0, 3);
  const Conv<R, W> f{RandPoly<W>(g, hm, deg, g.b())};
  const auto sel = RandSel(g, mesh.NumEntities(codim));
  int asked = 0;
  bool wrong = false;
  auto pred = [&](const Entity &e) {
    ++asked;
    wrong = wrong || e.Codim() != static_cast<unsigned>(codim);
    return static_cast<bool>(sel[mesh.Index(e)]);
  };
  g.label("codim " + std::to_string(codim));
  R ex = Zero<R>(hm), own = Zero<R>(hm);
  double scale = 1e-300, so = 1e-300;
  bool all_exact = true;
  int nsel = 0;
  // own rules, one per entity
  std::vector<lf::quad::QuadRule> rules;
  for (const auto *e : mesh.Entities(codim)) {
    const unsigned idx = mesh.Index(*e);
    Mat P;
    Vec w;
    if (rules.size() <= idx) rules.resize(idx + 1);
    if (codim == 2) {
      P = Mat(0, 1);
      w = Vec::Constant(1, g.r(0.1, 2));
      rules[idx] = lf::quad::QuadRule(RefEl::kPoint(), P, w, 1);
    } else {
      rules[idx] = RandRule(g, e->RefEl(), P, w);
    }
    if (!sel[idx]) continue;
    ++nsel;
    for (int k = 0; k < P.cols(); ++k) {
      const double m = w(k) * MetricOf(hm, *e, P.col(k));
      own = own + m * Conv<R, W>::conv(f.f.at(codim, idx, PosOf(hm, *e, P.col(k))));
      so += std::abs(m) * f.f.mag(codim, idx);
    }
    // exactness of the rule of degree `req`
    if (!Straight(hm, *e)) all_exact = false;
    if (codim == 0 && !Affine(hm, *e) && req < deg + 1) all_exact = false;
    RefQuad(e->RefEl(), 6, P, w);
    for (int k = 0; k < P.cols(); ++k) {
      const double m = w(k) * MetricOf(hm, *e, P.col(k));
      ex = ex + m * Conv<R, W>::conv(f.f.at(codim, idx, PosOf(hm, *e, P.col(k))));
      scale += std::abs(m) * f.f.mag(codim, idx);
    }
  }
  g.nontrivial(nsel > 0 && nsel < static_cast<int>(sel.size()) && !sel[0]);
  if (all_exact) {
    const R r = lf::fe::IntegrateMeshFunction(mesh, f, req, pred, codim);
    CHECK(asked >= static_cast<int>(sel.size()) && !wrong, "predicate", "asked " << asked << " times for " << sel.size() << " entities");
    CHECK(Dist(r, ex) <= 1e-10 * scale, "integral", "degree " << deg << " with rule of degree " << req << " over codim " << codim << ": error " << Dist(r, ex) << " scale " << scale << ", " << nsel << " of " << sel.size() << " selected");
    if (nsel == static_cast<int>(sel.size())) {
      CHECK(Dist<R>(lf::fe::IntegrateMeshFunction(mesh, f, req, lf::base::PredicateTrue{}, codim), ex) <= 1e-10 * scale, "integral", "default predicate");
      if (codim == 0) CHECK(Dist<R>(lf::fe::IntegrateMeshFunction(mesh, f, req), ex) <= 1e-10 * scale, "integral", "defaults");
    }
  }
  const R r2 = lf::fe::IntegrateMeshFunction(mesh, f, [&](const Entity &e) { return rules[mesh.Index(e)]; }, pred, codim);
  CHECK(Dist(r2, own) <= 1e-11 * so, "integral-rule", "supplied rules over codim " << codim << ": error " << Dist(r2, own) << " scale " << so << ", " << nsel << " of " << sel.size() << " selected");
}
template <class S>
void Projection(pbt::G &g) {
  const HMesh hm = RandSetup(g, 2);
  const auto &mesh = *hm.mesh;
  const SpaceT<S> sp = RandSpace<S>(g, hm.mesh, 1, 5);
  const auto &dofh = sp.s->LocGlobMap();
  // discontinuous function: every dof must be the dof of one of the selected cells
  const auto f = RandPoly<S>(g, hm, g.i(0, 3), true);
  const auto sel = RandSel(g, mesh.NumEntities(0));
  const auto c = lf::fe::NodalProjection(*sp.s, f, [&](const Entity &e) { return static_cast<bool>(sel[mesh.Index(e)]); });
  CHECK(c.size() == dofh.NumDofs(), "size", "");
  std::vector<std::vector<S>> cand(dofh.NumDofs());
  double scale = 1;
  for (const auto *cell : mesh.Entities(0)) {
    if (!sel[mesh.Index(*cell)]) continue;
    const auto &sh = *sp.s->ShapeFunctionLayout(*cell);
    const Mat N = sh.EvaluationNodes();
    Eigen::Matrix<S, 1, Eigen::Dynamic> v(N.cols());
    const OwnGeo geo(hm, *cell);
    for (int k = 0; k < N.cols(); ++k) v(k) = f.at(0, mesh.Index(*cell), geo.map(N.col(k)));
    scale = std::max(scale, f.mag(0, mesh.Index(*cell)));
    const auto d = sh.NodalValuesToDofs(v);
    const auto gi = dofh.GlobalDofIndices(*cell);
    for (int k = 0; k < d.size(); ++k) cand[gi[k]].push_back(d(k));
  }
  bool shared = false;
  for (unsigned k = 0; k < cand.size(); ++k) {
    if (cand[k].empty()) {
      CHECK(c(k) == S(0), "unselected", "dof " << k << " of no selected cell has value " << c(k));
      continue;
    }
    double best = 1e300;
    for (const auto &v : cand[k]) best = std::min(best, std::abs(v - c(k)));
    shared = shared || cand[k].size() > 1;
    CHECK(best <= 1e-9 * scale * (1 + sp.pmax * sp.pmax), "projection", "dof " << k << " value " << c(k) << " is not the value from any of the " << cand[k].size() << " selected cells, distance " << best << ", " << sp.name);
  }
  g.nontrivial(shared && std::count(sel.begin(), sel.end(), false) > 0);
}
template <class S>
void Boundary(pbt::G &g) {
  const HMesh hm = RandSetup(g, 3);
  const auto &mesh = *hm.mesh;
  const SpaceT<S> sp = RandSpace<S>(g, hm.mesh, 1, 5);
  const auto &dofh = sp.s->LocGlobMap();
  const int deg = g.i(0, 5);
  const auto f = RandPoly<S>(g, hm, deg, false);
  const auto sel = RandSel(g, mesh.NumEntities(1));
  const auto fl = lf::fe::InitEssentialConditionFromFunction(*sp.s, [&](const Entity &e) {
    if (e.Codim() != 1) FAIL("predicate", "asked for an entity of codimension " << e.Codim());
    return static_cast<bool>(sel[mesh.Index(e)]);
  }, f);
  CHECK(fl.size() == dofh.NumDofs(), "size", "");
  std::vector<bool> want(fl.size(), false);
  for (const auto *e : mesh.Entities(1))
    if (sel[mesh.Index(*e)]) {
      // dofs supported on the closure of the edge: its own and those of its end points
      for (auto d : dofh.InteriorGlobalDofIndices(*e)) want[d] = true;
      for (const auto *p : e->SubEntities(1))
        for (auto d : dofh.InteriorGlobalDofIndices(*p)) want[d] = true;
    }
  for (unsigned k = 0; k < fl.size(); ++k) {
    CHECK(fl[k].first == want[k], "flags", "dof " << k << " flagged " << fl[k].first << " expected " << want[k] << ", " << sp.name);
    if (!fl[k].first) CHECK(fl[k].second == S(0), "flags", "value of a free dof");
  }
  const double scale = 1 + f.mag(1, 0);
  Eigen::Matrix<S, Eigen::Dynamic, 1> c(fl.size());
  for (unsigned k = 0; k < fl.size(); ++k) c(k) = fl[k].second;
  const lf::fe::MeshFunctionFE<S, S> u(sp.s, c);
  int cmp = 0;
  for (const auto *e : mesh.Entities(1)) {
    if (!sel[mesh.Index(*e)]) continue;
    const OwnGeo geo(hm, *e);
    const Mat t = RandRefPoints(g, RefEl::kSegment(), 3);
    const auto v = u(*e, t);
    const int p = sp.s->ShapeFunctionLayout(*e)->Degree();
    if (p >= deg * (geo.straight() ? 1 : 2)) {
      ++cmp;
      for (int k = 0; k < 3; ++k) CHECK_NEAR(v[k], f.at(1, mesh.Index(*e), geo.map(t.col(k))), 1e-10 * scale * p * p, "trace", "edge " << mesh.Index(*e) << " at " << t(0, k) << ", " << sp.name);
    }
    if (sp.lagrange) {  // interpolation in the nodes, also when the data is not in the space
      const Mat N = sp.s->ShapeFunctionLayout(*e)->EvaluationNodes();
      const auto w = u(*e, N);
      for (int k = 0; k < N.cols(); ++k) CHECK_NEAR(w[k], f.at(1, mesh.Index(*e), geo.map(N.col(k))), 1e-11 * scale, "nodes", "edge " << mesh.Index(*e));
    }
    for (const auto *p2 : e->SubEntities(1)) CHECK_NEAR(c(dofh.GlobalDofIndices(*p2)[0]), f.at(1, mesh.Index(*e), hm.X.col(mesh.Index(*p2))), 1e-11 * scale, "vertex", "");
  }
  g.nontrivial(cmp > 0 && deg >= 2 && !want.empty() && std::count(want.begin(), want.end(), false) > 0);
}
}  // namespace

PBT_SUB("integrate", 100, 2000, "mesh x codim 0..2 x predicate x polynomial x requested degree or one random rule per entity; non-trivial: proper subset without the first entity") { Integrals<double, double>(g); }
PBT_SUB("integrate-types", 100, 2000, "as integrate with complex, fixed size and dynamic matrix values") {
  switch (g.raw(4)) {
    case 0: Integrals<Cplx, Cplx>(g); break;
    case 1: Integrals<Eigen::Matrix2d, Eigen::MatrixXd>(g); break;
    case 2: Integrals<Eigen::Vector2d, Eigen::MatrixXd>(g); break;
    default: Integrals<Eigen::MatrixXd, Eigen::MatrixXd>(g);
  }
}
PBT_SUB("projection", 60, 1000, "interpolation of discontinuous functions restricted to random cells; non-trivial: shared dof and an excluded cell") {
  if (g.b(0.7)) Projection<double>(g);
  else Projection<Cplx>(g);
}
PBT_SUB("boundary-data", 60, 1000, "essential data on random edge sets, Lagrangian and (mixed degree) hierarchic spaces; non-trivial: reproduced polynomial of degree >= 2 and free dofs") {
  if (g.b(0.7)) Boundary<double>(g);
  else Boundary<Cplx>(g);
}
