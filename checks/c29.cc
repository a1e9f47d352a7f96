// C29: interior penalty Stokes: element matrices, systems, velocities, norms.
#include <annulus_triag_mesh_builder.h>
#include <build_system_matrix.h>
#include <lf/assemble/assemble.h>
#include <lf/uscalfe/uscalfe.h>
#include <mesh_function_velocity.h>
#include <norms.h>
#include <offset_function.h>
#include <piecewise_const_element_matrix_provider.h>
#include <piecewise_const_element_vector_provider.h>
#include <solution_to_mesh_data_set.h>
#include <utils.h>

#include "gen/bvp.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Entity;
namespace ip = projects::ipdg_stokes;
using V2 = Eigen::Vector2d;
namespace gen {
template <>
struct Coef<V2> {
  static V2 rand(pbt::G &g, int) { return {g.num(2), g.num(2)}; }
  static double abs(const V2 &v) { return v.norm(); }
};
}  // namespace gen

namespace {
/// one triangle: unit outward normals, their left-turned tangents, lengths, curls of the hat functions
struct Tri {
  Mat n = Mat(2, 3), t = Mat(2, 3), curl = Mat(2, 3);
  Vec len = Vec(3);
  double area, cond;
};
Tri Data(const HMesh &hm, int c) {
  Tri r;
  const auto &v = hm.cells[c].v;
  const V2 a = hm.X.col(v[0]), b = hm.X.col(v[1]), d = hm.X.col(v[2]);
  const double det = (b - a)(0) * (d - a)(1) - (b - a)(1) * (d - a)(0);
  const double s = det > 0 ? 1 : -1;
  r.area = std::abs(det) / 2;
  for (int k = 0; k < 3; ++k) {
    const V2 e = hm.X.col(v[(k + 1) % 3]) - hm.X.col(v[k]);
    r.len(k) = e.norm();
    r.n.col(k) = s * V2(e(1), -e(0)) / e.norm();
    r.t.col(k) = V2(-r.n(1, k), r.n(0, k));
    // hat function of the vertex opposite to edge k: gradient points inwards
    const V2 grad = -V2(r.n.col(k)) * (r.len(k) / (2 * r.area));
    r.curl.col((k + 2) % 3) = V2(grad(1), -grad(0));
  }
  r.cond = r.len.maxCoeff() * r.len.maxCoeff() / (2 * r.area);
  return r;
}
HMesh TriMesh(pbt::G &g, int n, bool holes = true) {
  MeshOpt o;
  o.max_n = n;
  o.tri_only = true;
  o.allow_curved = false;
  o.allow_holes = holes;
  return RandMesh(g, o);
}
/// rounding of the vertex coordinates relative to the smallest height
double Tol(const HMesh &hm, const Tri &t) { return 1e-13 * (t.cond + hm.X.cwiseAbs().maxCoeff() / t.len.minCoeff()) * t.cond + 1e-12; }
V2 Curl(const HMesh &hm, const Tri &t, int c, const Vec &psi) {
  V2 u = V2::Zero();
  for (int k = 0; k < 3; ++k) u += psi(hm.cells[c].v[k]) * V2(t.curl.col(k));
  return u;
}
std::map<RefEl, unsigned> Layout() { return {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}}; }
const Entity &EdgeOf(const HMesh &hm, int c, int k) { return *hm.mesh->EntityByIndex(0, c)->SubEntities(1)[k]; }

PBT_SUB("elements", 400, 6000, "cell with edges on and off the flagged boundary, or clockwise vertices") {
  const HMesh hm = TriMesh(g, 2);
  const auto mesh = hm.mesh;
  g.desc() << hm.Describe();
  const double sigma = std::pow(10.0, g.r(-2, 3));
  const bool modified = g.b();
  lf::mesh::utils::CodimMeshDataSet<bool> bd(mesh, 1, false);
  const bool real = g.b();
  int flagged = 0;
  for (unsigned e = 0; e < hm.edges.size(); ++e) {
    const auto [c, k] = hm.edges[e].cells[0];
    bd(EdgeOf(hm, c, k)) = real ? hm.edges[e].cells.size() == 1 : g.b();
    flagged += bd(EdgeOf(hm, c, k));
  }
  lf::mesh::utils::CodimMeshDataSet<V2> dir(mesh, 1, V2::Zero());
  for (const auto *e : mesh->Entities(1)) dir(*e) = V2(g.num(3), g.num(3));
  const auto f = RandPoly<V2>(g, hm, g.i(0, 3), false);
  Mat P;
  Vec w;
  const auto qr = RandRule(g, RefEl::kTria(), P, w);
  ip::assemble::PiecewiseConstElementMatrixProvider mp(sigma, bd, modified);
  ip::assemble::PiecewiseConstElementVectorProvider vp(sigma, [&](const V2 &x) -> V2 { return f.at(0, 0, x) - f.off[0][0]; }, qr, bd, dir);
  bool cw = false;
  // edges flagged as above, nodes independently of them
  lf::mesh::utils::AllCodimMeshDataSet<bool> bdall(mesh, false);
  for (const auto *e : mesh->Entities(1)) bdall(*e) = bd(*e);
  for (const auto *e : mesh->Entities(2)) bdall(*e) = g.b();
  const ip::assemble::PiecewiseBoundaryNormalJumpAssembler nj(mesh, bdall);
  for (const auto *cell : mesh->Entities(0)) {
    const int c = mesh->Index(*cell);
    const Tri t = Data(hm, c);
    const double tol = Tol(hm, t);
    {
      std::vector<int> ne, nn;
      for (int k = 0; k < 3; ++k) {
        if (bdall(*cell->SubEntities(1)[k])) ne.push_back(k);
        if (bdall(*cell->SubEntities(2)[k])) nn.push_back(k);
      }
      const Mat J = nj.Eval(*cell);
      CHECK(nj.isActive(*cell), "active", "cell " << c);
      CHECK(J.rows() >= (int)ne.size() && J.cols() >= (int)nn.size(), "normal jump/size", J.rows() << "x" << J.cols() << " for " << ne.size() << " edges and " << nn.size() << " nodes of cell " << c);
      for (size_t i = 0; i < ne.size(); ++i)
        for (size_t j = 0; j < nn.size(); ++j)
          CHECK_NEAR(J(i, j), t.n.col(ne[i]).dot(t.curl.col(nn[j])), tol * t.curl.cwiseAbs().maxCoeff(), "normal jump/value", "edge " << ne[i] << " node " << nn[j] << " of cell " << c);
    }
    cw = cw || hm.CellJac(c, Vec::Constant(2, 0.3)).determinant() < 0;
    CHECK_MAT(Mat(ip::mesh::computeOutwardNormals(*cell)), t.n, tol, "normals", "cell " << c);
    CHECK_MAT(Mat(ip::mesh::computeTangentials(*cell)), t.t, tol, "tangents", "cell " << c);
    Mat M = Mat::Zero(6, 6);
    Vec b = Vec::Zero(6);
    const double cm = t.curl.cwiseAbs().maxCoeff();
    for (int e = 0; e < 3; ++e) {
      const auto &edge = *cell->SubEntities(1)[e];
      for (int k = 0; k < 3; ++k) M(3 + e, k) = M(k, 3 + e) = t.curl.col(k).dot(t.t.col(e));
      M(3 + e, 3 + e) = -1 / sigma / (modified ? t.len(e) : 1.0) / (bd(edge) ? 1.0 : 2.0);
      if (bd(edge)) b(3 + e) = dir(edge).dot(V2(t.t.col(e)));
    }
    const Mat R = mp.Eval(*cell);
    CHECK(mp.isActive(*cell) && vp.isActive(*cell), "active", "cell " << c);
    CHECK_MAT(Mat(R.block(0, 0, 6, 3)), Mat(M.block(0, 0, 6, 3)), tol * cm, "matrix/coupling", "cell " << c);
    CHECK_MAT(Mat(R.block(0, 3, 3, 3)), Mat(M.block(0, 3, 3, 3)), tol * cm, "matrix/coupling", "cell " << c);
    CHECK_MAT(Mat(R.block(3, 3, 3, 3)), Mat(M.block(3, 3, 3, 3)), tol * M.block(3, 3, 3, 3).cwiseAbs().maxCoeff(), "matrix/penalty", "cell " << c << " sigma " << sigma << " modified " << modified);
    double mag = 1;
    for (int q = 0; q < P.cols(); ++q) {
      const V2 fx = f.at(0, 0, hm.CellMap(c, P.col(q))) - f.off[0][0];
      b.head(3) += w(q) * 2 * t.area * t.curl.transpose() * fx;
      mag += std::abs(w(q)) * t.area * cm * f.mag(0, 0);
    }
    CHECK_MAT(Vec(vp.Eval(*cell)), b, tol * 100 * mag, "vector", "cell " << c);
  }
  g.nontrivial(cw || (flagged > 0 && flagged < (int)hm.edges.size()));
}

PBT_SUB("systems", 250, 4000, "mesh with interior edges") {
  const bool inout = g.b();
  HMesh hm = TriMesh(g, 3, !inout);
  const auto mesh = hm.mesh;
  const int N = hm.X.cols(), E = hm.edges.size();
  g.desc() << hm.Describe();
  const double sigma = std::pow(10.0, g.r(-1, 2));
  const bool modified = g.b();
  const lf::assemble::UniformFEDofHandler dofh(mesh, Layout());
  std::vector<char> nbd(N, 0);
  std::vector<std::vector<int>> next(N);
  int interior = 0;
  for (auto &e : hm.edges) {
    interior += e.cells.size() == 2;
    if (e.cells.size() != 1) continue;
    nbd[e.a] = nbd[e.b] = 1;
    next[e.a].push_back(e.b);
    next[e.b].push_back(e.a);
  }
  g.nontrivial(interior > 0);
  Vec psi = Vec::Zero(N);
  double mean = 0;
  int nb = 0;
  if (inout) {
    // the offset function exists if the boundary is one closed curve
    int start = -1, count = 0;
    for (int v = 0; v < N; ++v)
      if (nbd[v]) {
        ++nb;
        start = v;
        if (next[v].size() != 2) throw pbt::Discard();
      }
    int prev = -1, cur = start;
    do {
      const int n = next[cur][0] == prev ? next[cur][1] : next[cur][0];
      prev = cur;
      cur = n;
      ++count;
    } while (cur != start);
    if (count != nb) throw pbt::Discard();
    for (int v = 0; v < N; ++v)
      if (nbd[v]) mean += (psi(v) = g.num(3)) / nb;
    g.label("in and outflow");
  } else {
    g.label("no flow");
  }
  // Dirichlet data: normal component from the potential, tangential component free
  std::vector<V2> gd(E);
  std::map<const Entity *, V2> gmap;
  std::vector<Tri> T;
  double cond = 1;
  for (unsigned c = 0; c < hm.cells.size(); ++c) {
    T.push_back(Data(hm, c));
    cond = std::max(cond, Tol(hm, T.back()) * 1e12);
  }
  for (int e = 0; e < E; ++e) {
    const auto [c, k] = hm.edges[e].cells[0];
    V2 d(g.num(3), g.num(3));
    if (hm.edges[e].cells.size() == 1 && inout) {
      const auto &v = hm.cells[c].v;
      // curl of any extension of the potential: derivative along the edge is the normal component
      const V2 x = hm.X.col(v[(k + 1) % 3]) - hm.X.col(v[k]);
      const V2 tau = x / x.norm();
      const double dpsi = (psi(v[(k + 1) % 3]) - psi(v[k])) / x.norm();
      const V2 rot(T[c].n(1, k), -T[c].n(0, k));  // curl psi . n = grad psi . (-n_y, n_x) mirrored
      const double nc = dpsi * tau.dot(V2(-rot));
      d = nc * V2(T[c].n.col(k)) + g.num(2) * V2(T[c].t.col(k));
    }
    gd[e] = d;
    gmap[&EdgeOf(hm, c, k)] = d;
  }
  const auto f = RandPoly<V2>(g, hm, g.i(0, 2), false);
  const auto ff = [&](const V2 &x) -> V2 { return f.at(0, 0, x); };
  Mat P;
  Vec w;
  const auto qr = RandRule(g, RefEl::kTria(), P, w);
  // own system
  const int D = N + E;
  std::vector<int> nd(N), ed(E);
  for (int v = 0; v < N; ++v) nd[v] = dofh.GlobalDofIndices(*mesh->EntityByIndex(2, v))[0];
  for (int e = 0; e < E; ++e) ed[e] = dofh.InteriorGlobalDofIndices(EdgeOf(hm, hm.edges[e].cells[0].first, hm.edges[e].cells[0].second))[0];
  Mat A = Mat::Zero(D, D);
  Vec b = Vec::Zero(D);
  double mag = 1;
  for (unsigned c = 0; c < hm.cells.size(); ++c) {
    const Tri &t = T[c];
    const auto &v = hm.cells[c].v;
    for (int k = 0; k < 3; ++k) {
      for (int j = 0; j < 3; ++j) {
        const int e = hm.eid.at({std::min(v[j], v[(j + 1) % 3]), std::max(v[j], v[(j + 1) % 3])});
        const double z = t.curl.col(k).dot(t.t.col(j));
        A(nd[v[k]], ed[e]) += z;
        A(ed[e], nd[v[k]]) += z;
      }
      for (int q = 0; q < P.cols(); ++q) b(nd[v[k]]) += w(q) * 2 * t.area * t.curl.col(k).dot(ff(hm.CellMap(c, P.col(q))));
    }
    mag += t.curl.cwiseAbs().maxCoeff() * (1 + t.area * w.cwiseAbs().sum() * f.mag(0, 0));
  }
  for (int e = 0; e < E; ++e) {
    const auto [c, k] = hm.edges[e].cells[0];
    A(ed[e], ed[e]) = -1 / sigma / (modified ? T[c].len(k) : 1.0);
    mag += std::abs(A(ed[e], ed[e])) + gd[e].norm();
    if (hm.edges[e].cells.size() == 1) b(ed[e]) += gd[e].dot(V2(T[c].t.col(k)));
  }
  const Mat A0 = A;
  auto dirichlet = [&](const Entity &e) -> V2 { return gmap.at(&e); };
  Vec off = Vec::Zero(D);
  if (inout) {
    for (int v = 0; v < N; ++v)
      if (nbd[v]) off(nd[v]) = psi(v) - mean;
    for (int e = 0; e < E; ++e) {
      double s = 0;
      for (int v = 0; v < N; ++v) s += A0(ed[e], nd[v]) * off(nd[v]);
      off(ed[e]) = s;
    }
    Vec o2 = off;
    for (int e = 0; e < E; ++e) o2(ed[e]) = 0;
    b -= A0 * o2;
  }
  for (int v = 0; v < N; ++v)
    if (nbd[v]) {
      A.row(nd[v]).setZero();
      A.col(nd[v]).setZero();
      A(nd[v], nd[v]) = 1;
      b(nd[v]) = 0;
    }
  const double tol = 1e-11 * cond * mag * (1 + psi.cwiseAbs().maxCoeff() * N);
  Mat R;
  Vec r;
  if (inout) {
    auto [M, rhs, o] = ip::assemble::buildSystemMatrixInOutFlow(mesh, dofh, ff, dirichlet, sigma, qr, modified);
    R = M.makeDense();
    r = rhs;
    CHECK(o.size() == D, "offset/size", o.size());
    const double otol = tol * nb * mag;
    CHECK_MAT(o, off, otol, "offset", "offset function");
    CHECK_MAT(r, b, otol * mag, "system/rhs", "right-hand side with offset function");
  } else {
    auto [M, rhs] = ip::assemble::buildSystemMatrixNoFlow(mesh, dofh, ff, dirichlet, sigma, qr, modified);
    R = M.makeDense();
    r = rhs;
    CHECK_MAT(r, b, tol, "system/rhs", "right-hand side");
  }
  CHECK_MAT(R, A, tol, "system/matrix", "sigma " << sigma << " modified " << modified);
  CHECK((R - R.transpose()).cwiseAbs().maxCoeff() <= tol, "system/symmetric", "matrix is not symmetric");
  // eliminating the jumps yields the penalty form of the formulation
  Vec u = Vec::Zero(N);
  for (int v = 0; v < N; ++v)
    if (!nbd[v]) u(v) = g.r(-1, 1);
  double want = 0;
  for (int e = 0; e < E; ++e) {
    double j = 0;
    for (auto [c, k] : hm.edges[e].cells) j += Curl(hm, T[c], c, u).dot(V2(T[c].t.col(k)));
    const double len = T[hm.edges[e].cells[0].first].len(hm.edges[e].cells[0].second);
    want += sigma * (modified ? len : 1.0) * j * j;
  }
  double got = 0;
  for (int e = 0; e < E; ++e) {
    double j = 0;
    for (int v = 0; v < N; ++v) j += R(ed[e], nd[v]) * u(v);
    got += -j * j / R(ed[e], ed[e]);
  }
  CHECK_NEAR(got, want, 1e-8 * cond * (1 + want), "system/form", "penalty of a potential");
  // solution: potential vanishes at the boundary
  if (N + E <= 60) {
    const Eigen::FullPivLU<Mat> lu(R);
    if (lu.isInvertible()) {
      const Vec x = lu.solve(r);
      for (int v = 0; v < N; ++v)
        if (nbd[v]) CHECK(std::abs(x(nd[v])) <= 1e-9 * (1 + x.cwiseAbs().maxCoeff()), "solution/boundary", "potential " << x(nd[v]) << " at a boundary node");
    }
  }
}

PBT_SUB("velocity", 300, 5000, "potential that is not constant") {
  const HMesh hm = TriMesh(g, 3);
  const auto mesh = hm.mesh;
  g.desc() << hm.Describe();
  const int N = hm.X.cols();
  const bool dyn = g.b(0.3);
  std::unique_ptr<lf::assemble::DofHandler> dh;
  if (dyn)
    dh = std::make_unique<lf::assemble::DynamicFEDofHandler>(mesh, [](const Entity &e) { return e.Codim() > 0 ? 1U : 0U; });
  else
    dh = std::make_unique<lf::assemble::UniformFEDofHandler>(mesh, Layout());
  Vec x = Vec::NullaryExpr(dh->NumDofs(), [&](auto) { return g.num(2); });
  Vec psi(N);
  for (int v = 0; v < N; ++v) psi(v) = x(dh->InteriorGlobalDofIndices(*mesh->EntityByIndex(2, v))[0]);
  g.nontrivial(psi.maxCoeff() > psi.minCoeff());
  auto co = ip::post_processing::extractBasisFunctionCoefficients(mesh, *dh, x);
  for (int v = 0; v < N; ++v) CHECK(co(*mesh->EntityByIndex(2, v)) == psi(v), "coefficients", "node " << v << ": " << co(*mesh->EntityByIndex(2, v)) << " instead of " << psi(v));
  auto vel = ip::post_processing::extractVelocity(mesh, *dh, x);
  auto o1 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(mesh);
  Vec c1(N);
  for (int v = 0; v < N; ++v) c1(o1->LocGlobMap().GlobalDofIndices(*mesh->EntityByIndex(2, v))[0]) = psi(v);
  const ip::post_processing::MeshFunctionVelocity<double, double> mv(o1, c1);
  for (const auto *cell : mesh->Entities(0)) {
    const int c = mesh->Index(*cell);
    const Tri t = Data(hm, c);
    const V2 u = Curl(hm, t, c, psi);
    const double tol = Tol(hm, t) * (1 + psi.cwiseAbs().maxCoeff()) * t.curl.cwiseAbs().maxCoeff();
    CHECK_MAT(Vec(vel(*cell)), Vec(u), tol, "velocity", "cell " << c);
    const Mat P = RandRefPoints(g, RefEl::kTria(), g.i(1, 3));
    const auto r = mv(*cell, P);
    CHECK((int)r.size() == P.cols(), "function/size", r.size());
    for (auto &z : r) CHECK_MAT(Vec(z), Vec(u), tol, "function", "cell " << c);
  }
  // potentials of higher degree
  const int p = g.i(2, 3);
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> sp;
  if (p == 2)
    sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(mesh);
  else
    sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(mesh);
  const auto q = RandPoly<double>(g, hm, p, false);
  const auto qmf = lf::mesh::utils::MeshFunctionGlobal([&](const V2 &y) { return q.poly(y); });
  const Vec dofs = lf::fe::NodalProjection(*sp, qmf);
  const ip::post_processing::MeshFunctionVelocity<double, double> mq(sp, dofs);
  for (const auto *cell : mesh->Entities(0)) {
    const int c = mesh->Index(*cell);
    const Tri t = Data(hm, c);
    const Vec loc = RandRefPoint(g, RefEl::kTria());
    const V2 y = hm.CellMap(c, loc);
    V2 grad = V2::Zero();
    const V2 s = (y - q.x0) / q.L;
    for (auto &[e, a] : q.terms) {
      if (e[0] > 0) grad(0) += a * e[0] * std::pow(s(0), e[0] - 1) * std::pow(s(1), e[1]) / q.L;
      if (e[1] > 0) grad(1) += a * e[1] * std::pow(s(0), e[0]) * std::pow(s(1), e[1] - 1) / q.L;
    }
    const auto r = mq(*cell, loc);
    CHECK_MAT(Vec(r[0]), Vec(V2(grad(1), -grad(0))), 100 * Tol(hm, t) * (1 + q.mag(0, 0)) * t.curl.cwiseAbs().maxCoeff() + 1e-11 * q.mag(0, 0) / q.L, "function/degree", "degree " << p << " cell " << c);
  }
}

PBT_SUB("norms", 300, 5000, "function with jumps on a mesh with interior edges") {
  const HMesh hm = TriMesh(g, 3);
  const auto mesh = hm.mesh;
  g.desc() << hm.Describe();
  const int deg = g.i(0, 2);
  const bool jumps = g.b(0.8);
  const auto f = RandPoly<V2>(g, hm, deg, jumps);
  // gradient field: independent matrix-valued function
  std::vector<Eigen::Matrix2d> G(hm.cells.size());
  for (auto &m : G) m = Eigen::Matrix2d::NullaryExpr([&](auto, auto) { return g.num(2); });
  const auto lin = RandPoly<V2>(g, hm, 1, false);
  auto gradf = [&](const Entity &e, const Eigen::MatrixXd &loc) {
    std::vector<Eigen::Matrix2d> r;
    const Mat X = e.Geometry()->Global(loc);
    for (int k = 0; k < X.cols(); ++k) {
      Eigen::Matrix2d m = G[mesh->Index(e)];
      m.col(0) += lin.at(0, 0, X.col(k));
      r.push_back(m);
    }
    return r;
  };
  const unsigned order = g.i(2 * std::max(deg, 1), 2 * std::max(deg, 1) + 4);
  auto qs = [&](const Entity &e) { return lf::quad::make_QuadRule(e.RefEl(), order); };
  double l2 = 0, h1 = 0, jmp = 0, mag = 0;
  Mat P;
  Vec w;
  RefQuad(RefEl::kTria(), 6, P, w);
  for (unsigned c = 0; c < hm.cells.size(); ++c) {
    const double a2 = 2 * Data(hm, c).area;
    for (int k = 0; k < P.cols(); ++k) {
      const Vec x = hm.CellMap(c, P.col(k));
      l2 += w(k) * a2 * f.at(0, c, x).squaredNorm();
      Eigen::Matrix2d m = G[c];
      m.col(0) += lin.at(0, 0, x);
      h1 += w(k) * a2 * m.squaredNorm();
      mag += w(k) * a2 * (std::pow(f.mag(0, c), 2) + std::pow(G[c].norm() + lin.mag(0, 0), 2));
    }
  }
  RefQuad(RefEl::kSegment(), 6, P, w);
  for (auto &e : hm.edges) {
    if (e.cells.size() != 2) continue;
    const int c0 = e.cells[0].first, c1 = e.cells[1].first;
    for (int k = 0; k < P.cols(); ++k) {
      const Vec x = hm.X.col(e.a) + P(0, k) * (hm.X.col(e.b) - hm.X.col(e.a));
      jmp += w(k) * (f.at(0, c0, x) - f.at(0, c1, x)).squaredNorm();
    }
    mag += std::pow(f.mag(0, c0) + f.mag(0, c1), 2);
  }
  g.nontrivial(jmp > 0);
  const double a = ip::post_processing::L2norm(mesh, f, qs);
  CHECK_NEAR(a * a, l2, 1e-11 * mag, "l2", "degree " << deg << " order " << order);
  const double b = ip::post_processing::DGnorm(mesh, f, gradf, qs);
  CHECK_NEAR(b * b, h1 + jmp, 1e-10 * mag, "dg", "gradients " << h1 << " jumps " << jmp);
}
}  // namespace
