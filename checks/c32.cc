// C32: splitting time stepping reproduces its linear-algebra definition
#include <strangsplitting.h>

#include <cmath>
#include <complex>
#include <memory>

#include "gen/bvp.h"
#include "gen/meshes.h"
using namespace gen;
using lf::base::RefEl;

namespace {
using FeSp = std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>>;
/// polynomial of total degree <= 2 in the plane
struct P2 {
  Eigen::Vector2d x0{0, 0};
  double L = 1;
  std::array<double, 6> a{};
  double operator()(const Eigen::Vector2d &x) const {
    const Eigen::Vector2d y = (x - x0) / L;
    return a[0] + a[1] * y(0) + a[2] * y(1) + a[3] * y(0) * y(0) + a[4] * y(0) * y(1) + a[5] * y(1) * y(1);
  }
};
P2 RandP2(pbt::G &g, const HMesh &hm, int deg, bool positive) {
  P2 p;
  p.x0 = hm.X.rowwise().mean();
  p.L = std::max(1e-300, (hm.X.colwise() - Vec(p.x0)).colwise().norm().maxCoeff());
  p.a[0] = positive ? g.r(1.0, 3.0) : g.r(-2, 2);
  const double s = positive ? 0.18 : 2;
  if (deg >= 1)
    for (int k = 1; k < 3; ++k) p.a[k] = g.r(-s, s);
  if (deg >= 2)
    for (int k = 3; k < 6; ++k) p.a[k] = g.r(-s, s);
  return p;
}
MeshOpt Opt(int n, bool affine) {
  MeshOpt o;
  o.max_n = n;
  o.affine_only = affine;
  o.unit_scale = true;
  o.allow_curved = false;
  return o;
}
/// own Galerkin matrices (linear Lagrangian elements, sufficiently exact quadrature)
template <class C, class H>
void Reference(const HMesh &hm, const C &c, const H &h, Mat &A, Mat &M) {
  const int n = hm.X.cols();
  A = Mat::Zero(n, n);
  M = Mat::Zero(n, n);
  for (std::size_t ic = 0; ic < hm.cells.size(); ++ic) {
    const auto &cell = hm.cells[ic];
    const RefEl re = HMesh::CellType(cell);
    Mat P;
    Vec w;
    RefQuad(re, 5, P, w);
    const int k = cell.v.size();
    for (int q = 0; q < P.cols(); ++q) {
      const Vec x = hm.CellMap(ic, P.col(q));
      const Mat J = hm.CellJac(ic, P.col(q));
      const Vec b = Ref(re, 1).eval(P.col(q));
      const Mat G = Ref(re, 1).grad(P.col(q)) * J.inverse();  // rows: gradients
      const double d = w(q) * std::abs(J.determinant());
      for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) {
          A(cell.v[i], cell.v[j]) += d * c(x) * G.row(i).dot(G.row(j));
          M(cell.v[i], cell.v[j]) += d * b(i) * b(j);
        }
    }
  }
  std::vector<double> x, w;
  GaussNodes(4, x, w);
  for (const auto &e : hm.edges) {
    if (e.cells.size() != 1) continue;
    const Vec a = hm.X.col(e.a), b = hm.X.col(e.b);
    for (int q = 0; q < 4; ++q) {
      const double d = w[q] * (b - a).norm() * h(Vec((1 - x[q]) * a + x[q] * b));
      const double v[2] = {1 - x[q], x[q]};
      const int id[2] = {e.a, e.b};
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) A(id[i], id[j]) += d * v[i] * v[j];
    }
  }
}
Mat RandL(pbt::G &g, int n, double mag) {
  Mat L = Mat::Zero(n, n);
  switch (g.raw(3)) {
    case 0: return L;
    case 1: {
      const int m = static_cast<int>(g.i(1, 6));
      for (int k = 0; k < m; ++k) L(g.i(0, n - 1), g.i(0, n - 1)) = mag * g.r(-1, 1);
      return L;
    }
    default:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) L(i, j) = mag * g.r(-1, 1);
      return L;
  }
}
/// the two-stage singly diagonally implicit method of order 2
Vec Sdirk2(const Mat &A, const Mat &M, double t, const Vec &u, double *cond = nullptr) {
  const double kap = 1 - std::sqrt(0.5);
  const Mat S = M + t * kap * A;
  Eigen::PartialPivLU<Mat> lu(S);
  if (cond) *cond = 1 / std::max(1e-300, lu.rcond());
  const Vec k1 = lu.solve(-A * u);
  const Vec k2 = lu.solve(-A * (u + t * (1 - kap) * k1));
  return u + t * ((1 - kap) * k1 + kap * k2);
}
double Logistic(double K, double u, double r) { return K * u / (u + (K - u) * std::exp(-r)); }
}  // namespace

PBT_SUB("matrices", 120, 1500, "mesh with at least 2 cells and a non-constant coefficient or boundary or non-local term") {
  HMesh hm = RandMesh(g, Opt(3, true));
  const FeSp fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(hm.mesh);
  const auto &dofh = fes->LocGlobMap();
  const int n = hm.X.cols();
  const bool quads = hm.NumQuads() > 0;
  const int dc = static_cast<int>(g.i(0, quads ? 1 : 2)), dh = static_cast<int>(g.i(0, 1));
  const P2 c = RandP2(g, hm, dc, true);
  P2 h = RandP2(g, hm, dh, g.b());
  if (g.b(0.2)) h.a = {};
  const Mat L = RandL(g, n, g.r(0.1, 5));
  g.desc() << hm.Describe() << " deg c " << dc << " deg h " << dh;
  g.nontrivial(hm.cells.size() > 1 && (dc > 0 || h.a[0] != 0 || L.norm() > 0));
  g.label(L.norm() > 0 ? "with non-local term" : "without non-local term");
  const auto [A, M] = FisherKPP::assembleGalerkinMatrices(dofh, c, h, L);
  Mat Ar, Mr;
  Reference(hm, c, h, Ar, Mr);
  // a degree of freedom per node
  std::vector<int> node(n);
  for (int k = 0; k < n; ++k) node[k] = static_cast<int>(hm.mesh->Index(dofh.Entity(k)));
  CHECK(A.rows() == n && A.cols() == n && M.rows() == n && M.cols() == n, "size", A.rows());
  Mat Ap(n, n), Mp(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      Ap(i, j) = Ar(node[i], node[j]) - L(i, j);
      Mp(i, j) = Mr(node[i], node[j]);
    }
  const double sA = std::max({1.0, Ar.cwiseAbs().maxCoeff(), L.size() ? L.cwiseAbs().maxCoeff() : 0.0});
  CHECK_MAT(Mat(A), Ap, 1e-9 * sA, "stiffness", "deg c " << dc << " deg h " << dh);
  CHECK_MAT(Mat(M), Mp, 1e-9 * std::max(1e-300, Mr.cwiseAbs().maxCoeff()), "mass", "");
}

PBT_SUB("diffusion", 120, 1500, "state that is not constant, time step > 0") {
  HMesh hm = RandMesh(g, Opt(3, false));
  FeSp fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(hm.mesh);
  const auto &dofh = fes->LocGlobMap();
  const int n = hm.X.cols();
  const P2 c = RandP2(g, hm, static_cast<int>(g.i(0, 2)), true);
  const P2 h = RandP2(g, hm, static_cast<int>(g.i(0, 2)), true);
  const auto [A0, M0] = FisherKPP::assembleGalerkinMatrices(dofh, c, h, Mat::Zero(n, n));
  const double mag = Mat(M0).diagonal().minCoeff();
  const Mat L = RandL(g, n, 0.2 * mag);
  const auto [As, Ms] = FisherKPP::assembleGalerkinMatrices(dofh, c, h, L);
  const Mat A(As), M(Ms);
  const double T = std::pow(10, g.r(-3, 1));
  const unsigned m = static_cast<unsigned>(g.i(1, 12));
  const double tau = T / m;
  g.desc() << hm.Describe() << " T " << T << " m " << m;
  FisherKPP::StrangSplit S(fes, T, m, g.r(0.1, 3), c, h, L);
  for (int rep = 0; rep < 3; ++rep) {
    Vec u(n);
    for (int k = 0; k < n; ++k) u(k) = g.b(0.2) ? 0.0 : g.r(-1, 2);
    g.nontrivial(n > 1 && (u.array() - u(0)).abs().maxCoeff() > 0);
    const bool half = g.b();
    double cond;
    const Vec want = Sdirk2(A, M, half ? 0.5 * tau : tau, u, &cond);
    if (cond > 1e9) throw pbt::Discard{};
    const Vec got = S.diffusionEvolutionOperator(half, u);
    CHECK_MAT(Mat(got), Mat(want), 1e-13 * cond * std::max(1.0, want.cwiseAbs().maxCoeff()) + 1e-12, half ? "half step" : "full step", "T " << T << " m " << m << " cond " << cond);
  }
}

PBT_SUB("evolution", 100, 1200, "at least 2 time steps and a state that is not constant") {
  HMesh hm = RandMesh(g, Opt(2, false));
  FeSp fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(hm.mesh);
  const auto &dofh = fes->LocGlobMap();
  const int n = hm.X.cols();
  const P2 c = RandP2(g, hm, static_cast<int>(g.i(0, 2)), true);
  P2 h = RandP2(g, hm, static_cast<int>(g.i(0, 2)), true);
  if (g.b(0.3)) h.a = {};
  const auto [A0, M0] = FisherKPP::assembleGalerkinMatrices(dofh, c, h, Mat::Zero(n, n));
  const Mat L = RandL(g, n, 0.1 * Mat(M0).diagonal().minCoeff());
  const auto [As, Ms] = FisherKPP::assembleGalerkinMatrices(dofh, c, h, L);
  const Mat A(As), M(Ms);
  // diffusion must not dominate: otherwise the state may lose its sign
  const double T = std::pow(10, g.r(-4, -1.5));
  const unsigned m = static_cast<unsigned>(g.i(1, 9));
  const double tau = T / m, lam = std::pow(10, g.r(-1, 3));
  Vec cap(n), u(n);
  for (int k = 0; k < n; ++k) {
    cap(k) = g.r(0.5, 3);
    u(k) = g.r(0.5, 1.5);
  }
  g.desc() << hm.Describe() << " T " << T << " m " << m << " lambda " << lam;
  g.nontrivial(m > 1 && n > 1);
  // half a step of diffusion, m full steps of the reaction with full diffusion steps in between, half a step of diffusion
  double cond = 0, c1;
  Vec v = Sdirk2(A, M, tau / 2, u, &cond);
  for (unsigned k = 0; k < m; ++k) {
    if (v.minCoeff() < 0.02) throw pbt::Discard{};
    for (int i = 0; i < n; ++i) v(i) = Logistic(cap(i), v(i), lam * tau);
    v = Sdirk2(A, M, k + 1 < m ? tau : tau / 2, v, &c1);
    cond = std::max(cond, c1);
  }
  if (cond > 1e6 || v.cwiseAbs().maxCoeff() > 1e3) throw pbt::Discard{};
  FisherKPP::StrangSplit S(fes, T, m, lam, c, h, L);
  const Vec got = S.Evolution(cap, u);
  CHECK_MAT(Mat(got), Mat(v), 1e-10 * cond, "evolution", "T " << T << " m " << m << " lambda " << lam);
  // the evolution has no memory
  const Vec again = S.Evolution(cap, u);
  CHECK(again == got, "repeated evolution", "");
}

PBT_SUB("equilibrium", 100, 1000, "at least 2 cells") {
  HMesh hm = RandMesh(g, Opt(3, false));
  FeSp fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(hm.mesh);
  const int n = hm.X.cols();
  const P2 c = RandP2(g, hm, static_cast<int>(g.i(0, 2)), true);
  const auto h = [](const Eigen::Vector2d &) { return 0.0; };
  const double T = std::pow(10, g.r(-3, 2)), lam = std::pow(10, g.r(-2, 1));
  const unsigned m = static_cast<unsigned>(g.i(1, 25));
  const double K = g.r(0.3, 5);
  FisherKPP::StrangSplit S(fes, T, m, lam, c, h, Mat::Zero(n, n));
  g.nontrivial(hm.cells.size() > 1);
  g.desc() << hm.Describe() << " T " << T << " m " << m << " lambda " << lam << " K " << K;
  Vec cap = Vec::Constant(n, K);
  Vec u = cap;
  const int windows = static_cast<int>(g.i(1, 3));
  for (int k = 0; k < windows; ++k) u = S.Evolution(cap, u);
  CHECK_MAT(Mat(u), Mat(cap), 1e-7 * K, "carrying capacity", "T " << T << " m " << m);
  // (the growth factor must not overflow)
  const Vec z = lam * T / m < 600 ? S.Evolution(cap, Vec::Zero(n)) : Vec::Zero(n);
  CHECK(z.cwiseAbs().maxCoeff() < 1e-12, "zero state", z.cwiseAbs().maxCoeff());
  // constant states follow the logistic equation up to the final time
  const double u0 = K * g.r(0.05, 2);
  const Vec w = S.Evolution(cap, Vec::Constant(n, u0));
  CHECK_MAT(Mat(w), Mat(Vec::Constant(n, Logistic(K, u0, lam * T))), 1e-6 * K, "logistic growth", "T " << T << " m " << m << " lambda " << lam << " K " << K << " u0 " << u0);
}

PBT_SUB("local_quadrature", 400, 5000, "some but not all entities selected") {
  MeshOpt o;
  o.max_n = 3;
  o.allow_3d = true;
  HMesh hm = RandMesh(g, o);
  const int codim = static_cast<int>(g.i(0, 2));
  std::map<RefEl, lf::quad::QuadRule> rules;
  std::map<int, std::pair<Mat, Vec>> own;
  std::vector<RefEl> types;
  if (codim == 0) types = {RefEl::kTria(), RefEl::kQuad()};
  if (codim == 1) types = {RefEl::kSegment()};
  if (codim == 2) types = {RefEl::kPoint()};
  for (RefEl t : types) {
    Mat P;
    Vec w;
    auto q = RandRule(g, t, P, w);
    rules.emplace(t, q);
    own[t.Id()] = {P, w};
  }
  const int n = static_cast<int>(hm.mesh->NumEntities(codim));
  std::vector<char> sel(n);
  const double p = g.pick(std::vector<double>{0, 0.3, 0.7, 1});
  int ns = 0;
  for (auto &s : sel) ns += s = g.b(p);
  g.nontrivial(ns > 0 && ns < n);
  g.desc() << hm.Describe() << " codim " << codim << ", " << ns << " of " << n << " entities";
  const bool drop = g.b(0.1) && !types.empty();
  if (drop) {
    const RefEl t = g.pick(types);
    bool used = false;
    for (const auto *e : hm.mesh->Entities(codim)) used = used || (sel[hm.mesh->Index(*e)] && e->RefEl() == t);
    rules.erase(t);
    g.label("missing rule");
    if (used) {
      CHECK(pbt::Rejects([&] {
              FisherKPP::localQuadFunction(
                  *hm.mesh, rules, [](const Eigen::VectorXd &) { return 1.0; }, codim, [&](const lf::mesh::Entity &e) { return sel[hm.mesh->Index(e)] != 0; });
            }),
            "missing rule accepted", codim);
      return;
    }
  }
  const double X = std::max(1e-300, hm.X.cwiseAbs().maxCoeff());
  std::vector<double> a(3);
  for (auto &x : a) x = g.r(-1, 1);
  auto f = [&](const Eigen::VectorXd &x) -> double {
    double r = a[0];
    for (int d = 0; d < x.size(); ++d) r += a[1 + d % 2] * std::sin(2 * x(d) / X + d);
    return r;
  };
  // sum over the selected entities of weights * values * volume element
  double want = 0, mag = 0;
  std::complex<double> wantc = 0;
  for (const auto *e : hm.mesh->Entities(codim)) {
    if (!sel[hm.mesh->Index(*e)]) continue;
    const auto &[P, w] = own[e->RefEl().Id()];
    for (int q = 0; q < w.size(); ++q) {
      Vec x;
      double d = w(q);
      if (codim == 2) {
        x = hm.X.col(hm.mesh->Index(*e));
      } else {
        const OwnGeo G(hm, *e);
        x = G.map(Vec(P.col(q)));
        d *= Metric(G.jac(Vec(P.col(q))));
      }
      want += d * f(x);
      wantc += d * std::complex<double>(f(x), x(0) / X);
      mag += std::abs(d) * 3;
    }
  }
  auto pred = [&](const lf::mesh::Entity &e) { return sel[hm.mesh->Index(e)] != 0; };
  const double got = FisherKPP::localQuadFunction(*hm.mesh, rules, f, codim, pred);
  CHECK_NEAR(got, want, 1e-11 * mag + 1e-300, "integral", "codim " << codim);
  auto fc = [&](const Eigen::VectorXd &x) { return std::complex<double>(f(x), x(0) / X); };
  const std::complex<double> gc = FisherKPP::localQuadFunction(*hm.mesh, rules, fc, codim, pred);
  CHECK(std::abs(gc - wantc) <= 1e-11 * mag + 1e-300, "complex integral", gc << " vs " << wantc);
}
