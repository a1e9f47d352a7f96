// C15: Lagrangian reference elements are the nodal basis they claim to be
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include <Eigen/LU>
#include <complex>

#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;
using Cplx = std::complex<double>;

namespace {
template <class S>
using FE = lf::fe::ScalarReferenceFiniteElement<S>;
template <class S>
std::shared_ptr<FE<S>> Make(RefEl re, int p) {
  using namespace lf::uscalfe;
  if (re == RefEl::kPoint()) return std::make_shared<lf::fe::FePoint<S>>(p);
  if (re == RefEl::kSegment()) {
    if (p == 1) return std::make_shared<FeLagrangeO1Segment<S>>();
    if (p == 2) return std::make_shared<FeLagrangeO2Segment<S>>();
    return std::make_shared<FeLagrangeO3Segment<S>>();
  }
  if (re == RefEl::kTria()) {
    if (p == 1) return std::make_shared<FeLagrangeO1Tria<S>>();
    if (p == 2) return std::make_shared<FeLagrangeO2Tria<S>>();
    return std::make_shared<FeLagrangeO3Tria<S>>();
  }
  if (p == 1) return std::make_shared<FeLagrangeO1Quad<S>>();
  if (p == 2) return std::make_shared<FeLagrangeO2Quad<S>>();
  return std::make_shared<FeLagrangeO3Quad<S>>();
}
std::vector<std::array<int, 2>> Powers(RefEl re, int p) {
  std::vector<std::array<int, 2>> r;
  const int dim = re.Dimension();
  for (int a = 0; a <= p; ++a)
    for (int b = 0; b <= (dim == 1 ? 0 : re == RefEl::kTria() ? p - a : p); ++b) r.push_back({a, b});
  return r;
}
double Pw(double x, int k) {
  double r = 1;
  for (int i = 0; i < k; ++i) r *= x;
  return r;
}
Vec Mono(const std::vector<std::array<int, 2>> &P, const Vec &x) {
  Vec r(P.size());
  for (std::size_t k = 0; k < P.size(); ++k) r(k) = Pw(x(0), P[k][0]) * (x.size() > 1 ? Pw(x(1), P[k][1]) : 1.0);
  return r;
}
Mat DMono(const std::vector<std::array<int, 2>> &P, const Vec &x) {
  Mat r(P.size(), x.size());
  for (std::size_t k = 0; k < P.size(); ++k) {
    const double y = x.size() > 1 ? Pw(x(1), P[k][1]) : 1.0;
    r(k, 0) = P[k][0] == 0 ? 0.0 : P[k][0] * Pw(x(0), P[k][0] - 1) * y;
    if (x.size() > 1) r(k, 1) = P[k][1] == 0 ? 0.0 : P[k][1] * Pw(x(1), P[k][1] - 1) * Pw(x(0), P[k][0]);
  }
  return r;
}
/// dof layout: number of shape functions of the interior of sub-entities
int NInt(RefEl re, int codim, int p) {
  const int dim = static_cast<int>(re.Dimension()) - codim;
  if (dim == 0) return 1;
  if (dim == 1) return p - 1;
  return re == RefEl::kTria() ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1);
}
/// expected evaluation nodes of vertices and edges
Mat SkeletonNodes(RefEl re, int p) {
  const Mat C = re.NodeCoords();
  const int nv = C.cols();
  if (re == RefEl::kSegment()) return C;
  Mat N(2, nv + nv * (p - 1));
  N.leftCols(nv) = C;
  for (int e = 0; e < nv; ++e)
    for (int k = 1; k < p; ++k) N.col(nv + e * (p - 1) + k - 1) = C.col(e) + (C.col((e + 1) % nv) - C.col(e)) * k / p;
  return N;
}

template <class S>
void CheckElement(pbt::G &g, const FE<S> &fe, RefEl re, int p) {
  const std::string what = re.ToString() + " degree " + std::to_string(p);
  const int dim = re.Dimension();
  const int nv = re.NumNodes();
  CHECK(fe.RefEl() == re, "refel", what);
  CHECK(static_cast<int>(fe.Degree()) == p, "degree", what);
  CHECK(fe.Dimension() == re.Dimension(), "dimension", what);
  int total = 0;
  for (int c = 0; c <= dim; ++c) {
    CHECK(static_cast<int>(fe.NumRefShapeFunctions(c)) == NInt(re, c, p), "layout", what << " codim " << c << ": " << fe.NumRefShapeFunctions(c));
    for (unsigned s = 0; s < re.NumSubEntities(c); ++s) {
      CHECK(static_cast<int>(fe.NumRefShapeFunctions(c, s)) == NInt(re, c, p), "layout", what << " codim " << c << " sub " << s);
      total += NInt(re, c, p);
    }
  }
  const int n = fe.NumRefShapeFunctions();
  CHECK(n == total, "layout", what << ": " << n << " shape functions, sum over sub-entities " << total);
  const auto P = Powers(re, p);
  CHECK(n == static_cast<int>(P.size()), "dimension", what << ": number of shape functions " << n);
  const Mat N = fe.EvaluationNodes();
  CHECK(N.rows() == dim && N.cols() == n && static_cast<int>(fe.NumEvaluationNodes()) == n, "nodes", what << ": nodes " << N.rows() << "x" << N.cols());
  const Mat sk = SkeletonNodes(re, p);
  CHECK_MAT(Mat(N.leftCols(sk.cols())), sk, 1e-15, "node-position", what << ": nodes of vertices and edges");
  for (int k = sk.cols(); k < n; ++k) {
    const Vec x = N.col(k);
    bool in = x.minCoeff() > 1e-6 && x.maxCoeff() < 1 - 1e-6;
    if (re == RefEl::kTria()) in = in && x.sum() < 1 - 1e-6;
    CHECK(in, "node-position", what << ": interior node " << k << " at " << x.transpose());
  }
  // independent nodal basis from the Vandermonde matrix
  Mat V(n, n);
  for (int k = 0; k < n; ++k) V.col(k) = Mono(P, N.col(k));
  const Mat B = V.inverse();  // rows: coefficients of the nodal basis functions w.r.t. monomials
  CHECK(B.allFinite() && B.cwiseAbs().maxCoeff() < 1e4, "unisolvent", what);
  // a batch of points, some on the boundary and at nodes
  const int m = g.i(1, g.b(0.1) ? 40 : 6);
  Mat X = RandRefPoints(g, re, m);
  for (int i = 0; i < m; ++i) {
    if (g.b(0.15)) X.col(i) = N.col(g.i(0, n - 1));
    else if (dim == 2 && g.b(0.25)) {
      const int e = g.i(0, nv - 1);
      const double t = g.i(0, 64) / 64.0;
      X.col(i) = (1 - t) * re.NodeCoords().col(e) + t * re.NodeCoords().col((e + 1) % nv);
      g.label("on-edge");
    }
  }
  g.desc() << what << " X=" << Str(X);
  const auto val = fe.EvalReferenceShapeFunctions(X);
  const auto grd = fe.GradientsReferenceShapeFunctions(X);
  CHECK(val.rows() == n && val.cols() == m, "shape", what << ": values " << val.rows() << "x" << val.cols());
  CHECK(grd.rows() == n && grd.cols() == dim * m, "shape", what << ": gradients " << grd.rows() << "x" << grd.cols());
  for (int i = 0; i < m; ++i) {
    const Vec ex = B * Mono(P, X.col(i));
    const Mat eg = B * DMono(P, X.col(i));
    for (int k = 0; k < n; ++k) {
      CHECK_NEAR(val(k, i), S(ex(k)), 1e-11, "value", what << ": shape function " << k << " at " << X.col(i).transpose());
      for (int d = 0; d < dim; ++d)
        CHECK_NEAR(grd(k, i * dim + d), S(eg(k, d)), 1e-10, "gradient", what << ": shape function " << k << " direction " << d << " at " << X.col(i).transpose());
    }
    // a batch is evaluated point by point
    const auto v1 = fe.EvalReferenceShapeFunctions(Mat(X.col(i)));
    CHECK_MAT(v1, val.col(i), 1e-14, "batch", what);
  }
  // cardinality, partition of unity
  const auto atn = fe.EvalReferenceShapeFunctions(N);
  for (int k = 0; k < n; ++k)
    for (int l = 0; l < n; ++l) CHECK_NEAR(atn(k, l), S(k == l ? 1.0 : 0.0), 1e-12, "cardinal", what << ": shape function " << k << " at node " << l);
  // nodal interpolation reproduces coefficients
  Eigen::Matrix<S, 1, Eigen::Dynamic> c(n);
  for (int k = 0; k < n; ++k) {
    if constexpr (std::is_same_v<S, Cplx>) c(k) = {g.num(4), g.num(4)};
    else c(k) = g.num(4);
  }
  const Eigen::Matrix<S, 1, Eigen::Dynamic> nodal = c * atn;
  const Eigen::Matrix<S, 1, Eigen::Dynamic> back = fe.NodalValuesToDofs(nodal);
  CHECK(back.size() == n, "reproduce", what);
  for (int k = 0; k < n; ++k) CHECK_NEAR(back(k), c(k), 1e-10, "reproduce", what << " coefficient " << k);
  // traces on the sides
  if (dim == 2) {
    const auto seg = Make<S>(RefEl::kSegment(), p);
    const int q = g.i(1, 4);
    Mat t = RandRefPoints(g, RefEl::kSegment(), q);
    const auto tr = seg->EvalReferenceShapeFunctions(t);
    for (int e = 0; e < nv; ++e) {
      const int a = re.SubSubEntity2SubEntity(1, e, 1, 0);
      const int b = re.SubSubEntity2SubEntity(1, e, 1, 1);
      const Vec pa = re.NodeCoords().col(a);
      const Vec pb = re.NodeCoords().col(b);
      Mat Y(2, q);
      for (int i = 0; i < q; ++i) Y.col(i) = (1 - t(0, i)) * pa + t(0, i) * pb;
      const auto v = fe.EvalReferenceShapeFunctions(Y);
      for (int k = 0; k < n; ++k) {
        int row = -1;  // shape function of the segment
        if (k == a) row = 0;
        else if (k == b) row = 1;
        else if (k >= nv && k < nv + nv * (p - 1) && (k - nv) / (p - 1) == e) row = 2 + (k - nv) % (p - 1);
        for (int i = 0; i < q; ++i)
          CHECK_NEAR(v(k, i), (row < 0 ? S(0) : tr(row, i)), 1e-11, "trace", what << ": shape function " << k << " on side " << e << " at t=" << t(0, i));
      }
    }
  } else {
    const auto v = fe.EvalReferenceShapeFunctions(re.NodeCoords());
    for (int k = 0; k < n; ++k)
      for (int e = 0; e < 2; ++e) CHECK_NEAR(v(k, e), S(k == e ? 1 : 0), 1e-13, "trace", what);
  }
}

template <class S>
void Lagr(pbt::G &g) {
  const RefEl re = g.pick(std::vector<RefEl>{RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
  const int p = g.i(1, 3);
  const auto fe = Make<S>(re, p);
  g.label(re.ToString() + "-" + std::to_string(p));
  g.nontrivial(p >= 2 || re == RefEl::kQuad());
  CheckElement<S>(g, *fe, re, p);
}
template <class S>
void Pre(pbt::G &g) {
  const RefEl re = g.pick(std::vector<RefEl>{RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
  const int p = g.i(1, 3);
  std::shared_ptr<FE<S>> fe;
  const bool hier = g.b(0.3);
  lf::quad::QuadRuleCache cache;
  std::vector<unsigned> ed;
  std::vector<lf::mesh::Orientation> ori;
  if (!hier) {
    fe = Make<S>(re, p);
  } else {
    for (unsigned k = 0; k < re.NumSubEntities(1); ++k) {
      ed.push_back(g.i(1, 4));
      ori.push_back(g.b() ? lf::mesh::Orientation::positive : lf::mesh::Orientation::negative);
    }
    if (re == RefEl::kSegment()) fe = std::make_shared<lf::fe::FeHierarchicSegment<S>>(p, cache);
    else if (re == RefEl::kTria())
      fe = std::make_shared<lf::fe::FeHierarchicTria<S>>(p, std::array<unsigned, 3>{ed[0], ed[1], ed[2]}, cache, ori);
    else fe = std::make_shared<lf::fe::FeHierarchicQuad<S>>(p, std::array<unsigned, 4>{ed[0], ed[1], ed[2], ed[3]}, cache, ori);
    g.label("hierarchic");
  }
  const int deg = g.i(0, 8);
  const auto qr = g.b(0.2) ? lf::quad::make_QuadRuleNodal(re) : lf::quad::make_QuadRule(re, deg);
  g.desc() << re.ToString() << " degree " << p << " rule with " << qr.NumPoints() << " points";
  g.nontrivial(qr.NumPoints() > 1);
  using PreT = lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S>;
  PreT empty;
  CHECK(!empty.isInitialized(), "initialized", "default constructed");
  PreT a(fe.get(), qr);
  PreT b(std::move(a));
  if (g.b()) {
    PreT tmp(fe.get(), lf::quad::make_QuadRule(re, deg + 3));
    tmp = std::move(b);
    PreT c2(std::move(tmp));
    b = std::move(c2);
    g.label("moved");
  }
  CHECK(b.isInitialized(), "initialized", "");
  CHECK(b.Qr().Points() == qr.Points() && b.Qr().Weights() == qr.Weights() && b.Qr().Degree() == qr.Degree() && b.Qr().RefEl() == re, "rule", "");
  CHECK_MAT(b.PrecompReferenceShapeFunctions(), fe->EvalReferenceShapeFunctions(qr.Points()), 0.0, "precomputed", "values");
  CHECK_MAT(b.PrecompGradientsReferenceShapeFunctions(), fe->GradientsReferenceShapeFunctions(qr.Points()), 0.0, "precomputed", "gradients");
  const Mat X = RandRefPoints(g, re, g.i(1, 4));
  CHECK_MAT(b.EvalReferenceShapeFunctions(X), fe->EvalReferenceShapeFunctions(X), 0.0, "forward", "values");
  CHECK_MAT(b.GradientsReferenceShapeFunctions(X), fe->GradientsReferenceShapeFunctions(X), 0.0, "forward", "gradients");
  CHECK_MAT(b.EvaluationNodes(), fe->EvaluationNodes(), 0.0, "forward", "nodes");
  CHECK(b.RefEl() == re && b.Degree() == fe->Degree() && b.NumRefShapeFunctions() == fe->NumRefShapeFunctions() &&
            b.NumEvaluationNodes() == fe->NumEvaluationNodes(),
        "forward", "numbers");
  for (unsigned c = 0; c <= re.Dimension(); ++c)
    for (unsigned s = 0; s < re.NumSubEntities(c); ++s)
      CHECK(b.NumRefShapeFunctions(c, s) == fe->NumRefShapeFunctions(c, s), "forward", "layout " << c << " " << s);
  Eigen::Matrix<S, 1, Eigen::Dynamic> nv(fe->NumEvaluationNodes());
  for (Eigen::Index k = 0; k < nv.size(); ++k) nv(k) = g.num(3);
  CHECK_MAT(b.NodalValuesToDofs(nv), fe->NodalValuesToDofs(nv), 0.0, "forward", "NodalValuesToDofs");
}
}  // namespace

PBT_SUB("lagrange-real", 60, 1000, "element type x degree 1..3 against an independent nodal basis at random points; non-trivial: degree >= 2 or quadrilateral") { Lagr<double>(g); }
PBT_SUB("lagrange-complex", 20, 300, "as lagrange-real with complex scalar type") { Lagr<Cplx>(g); }
PBT_SUB("point", 5, 20, "FePoint; always non-trivial") {
  g.nontrivial();
  const int p = g.i(0, 5);
  const auto fe = Make<double>(RefEl::kPoint(), p);
  CHECK(fe->RefEl() == RefEl::kPoint() && static_cast<int>(fe->Degree()) == p && fe->NumRefShapeFunctions() == 1 &&
            fe->NumRefShapeFunctions(0, 0) == 1 && fe->NumEvaluationNodes() == 1,
        "point", "");
  CHECK(fe->EvaluationNodes().rows() == 0 && fe->EvaluationNodes().cols() == 1, "point", "nodes");
  const int m = g.i(1, 5);
  CHECK_MAT(fe->EvalReferenceShapeFunctions(Mat(0, m)), Mat(Mat::Ones(1, m)), 0.0, "point", "");
  Eigen::Matrix<double, 1, Eigen::Dynamic> v(1);
  v(0) = g.num(3);
  CHECK_MAT(fe->NodalValuesToDofs(v), v, 0.0, "point", "");
}
PBT_SUB("precomputed", 40, 600, "PrecomputedScalarReferenceFiniteElement for Lagrangian and hierarchic elements with random rules, after moves; non-trivial: rule with several points") {
  if (g.b(0.7)) Pre<double>(g);
  else Pre<Cplx>(g);
}
