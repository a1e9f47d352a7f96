// C01: shape maps, Jacobians, inverse Gramians, volume elements of all geometry classes
#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;

static void CheckShape(pbt::G &g, const Shape &s) {
  const auto &geo = *s.geo;
  const int dg = s.dimG();
  const int dl = s.dimL();
  const double cs = CoordScale(s.nodes);
  CHECK(geo.RefEl() == s.type, "type", s.kind);
  CHECK(geo.DimGlobal() == static_cast<unsigned>(dg), "DimGlobal", s.kind);
  CHECK(geo.DimLocal() == static_cast<unsigned>(dl), "DimLocal", s.kind);
  CHECK(geo.isAffine() == s.affine, "isAffine", s.kind);
  const int n = g.i(1, 5);
  Mat P = RandRefPoints(g, s.type, n);
  if (g.b(0.15) && n > 1) P.col(1) = P.col(0);
  g.desc() << "points [" << Str(P) << "]";
  g.nontrivial(s.kind != "Point" && n >= 2);
  // the map itself
  Mat X(dg, n);
  for (int k = 0; k < n; ++k) X.col(k) = s.map(P.col(k));
  const Mat got = geo.Global(P);
  CHECK_MAT(got, X, 1e-12 * cs, "Global", s.kind);
  // corners
  const Mat rc = s.type.NodeCoords();
  Mat C(dg, rc.cols());
  for (int k = 0; k < rc.cols(); ++k) C.col(k) = s.nodes.col(k);
  CHECK_MAT(lf::geometry::Corners(geo), C, 1e-12 * cs, "Corners", s.kind);
  if (dl > 0 && s.order == 2) CHECK_MAT(geo.Global(Ref(s.type, 2).nodes), s.nodes, 1e-12 * cs, "all nodes", s.kind);
  // Jacobians
  const Mat J = geo.Jacobian(P);
  CHECK(J.rows() == dg && J.cols() == dl * n, "Jacobian shape", s.kind << " " << J.rows() << "x" << J.cols());
  const Vec I = geo.IntegrationElement(P);
  CHECK(I.size() == n, "IntegrationElement shape", s.kind);
  if (dl == 0) {
    for (int k = 0; k < n; ++k) CHECK_NEAR(I(k), 1.0, 0.0, "IntegrationElement", s.kind);
    CHECK_NEAR(lf::geometry::Volume(geo), 1.0, 0.0, "Volume", s.kind);
    return;
  }
  const Mat JIG = geo.JacobianInverseGramian(P);
  CHECK(JIG.rows() == dg && JIG.cols() == dl * n, "JacobianInverseGramian shape", s.kind);
  for (int k = 0; k < n; ++k) {
    const Mat Jr = s.jac(P.col(k));
    const double jn = Jr.cwiseAbs().maxCoeff();
    CHECK_MAT(J.block(0, k * dl, dg, dl), Jr, 1e-12 * cs + 1e-12 * jn, "Jacobian", s.kind << " at " << Str(P.col(k)));
    // reference J (J^T J)^{-1} = (J^+)^T via QR in extended precision
    using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
    const LM Jl = Jr.cast<long double>();
    const LM Gm = Jl.transpose() * Jl;
    const double vol = std::sqrt(std::abs(static_cast<double>(Gm.determinant())));
    Eigen::JacobiSVD<Mat> svd(Jr);
    const double smin = svd.singularValues()(dl - 1);
    const double smax = svd.singularValues()(0);
    const double cond = smin > 0 ? smax / smin : 1e300;
    CHECK_NEAR(I(k), vol, 1e-11 * (smax + cs * 1e-2) * (dl == 2 ? smax + cs * 1e-2 : 1.0) * (1 + cond * 0.1), "IntegrationElement",
               s.kind << " at " << Str(P.col(k)));
    if (cond > 1e4 || cs / smin > 1e6) {
      g.label("ill-conditioned Jacobian skipped");
      continue;
    }
    const LM Ginv = Gm.inverse();
    const Mat ref = (Jl * Ginv).cast<double>();
    CHECK_MAT(JIG.block(0, k * dl, dg, dl), ref, 1e-12 * ref.cwiseAbs().maxCoeff() * (cond * cond + cond * cs / smax + 10),
              "JacobianInverseGramian", s.kind << " at " << Str(P.col(k)));
    // one at a time
    const Mat one = P.col(k);
    CHECK_MAT(geo.Global(one), got.col(k), 1e-13 * cs, "batch Global", s.kind);
    CHECK_MAT(geo.Jacobian(one), J.block(0, k * dl, dg, dl), 1e-13 * cs, "batch Jacobian", s.kind);
    CHECK_MAT(geo.JacobianInverseGramian(one), JIG.block(0, k * dl, dg, dl), 1e-12 * ref.cwiseAbs().maxCoeff() * cond,
              "batch JacobianInverseGramian", s.kind);
    CHECK_NEAR(geo.IntegrationElement(one)(0), I(k), 1e-12 * std::abs(I(k)), "batch IntegrationElement", s.kind);
  }
  // volume
  Mat q;
  Vec w;
  if (s.exact_vol) {
    RefQuad(s.type, 3, q, w);
    double v = 0;
    for (int k = 0; k < w.size(); ++k) {
      const Mat Jr = s.jac(q.col(k));
      v += w(k) * std::sqrt(std::abs((Jr.transpose() * Jr).determinant()));
    }
    CHECK_NEAR(lf::geometry::Volume(geo), v, 1e-9 * std::pow(cs, dl) * 1e-2 + 1e-9 * v, "Volume", s.kind);
  } else {
    RefQuad(s.type, 1, q, w);
    double rv = s.type == RefEl::kTria() ? 0.5 : 1.0;
    Vec c = s.type == RefEl::kTria() ? Vec(Vec::Constant(2, 1.0 / 3)) : Vec(Vec::Constant(dl, 0.5));
    const Mat Jr = s.jac(c);
    const double v = rv * std::sqrt(std::abs((Jr.transpose() * Jr).determinant()));
    // documented as a one point approximation
    CHECK_NEAR(lf::geometry::Volume(geo), v, 1e-8 * std::pow(cs, dl) * 1e-2 + 1e-9 * v, "Volume (one point rule)", s.kind);
  }
  // a copy as sub-geometry of codimension 0 describes the same map
  auto cp = geo.SubGeometry(0, 0);
  CHECK(cp && cp->RefEl() == s.type, "SubGeometry(0,0)", s.kind);
  CHECK_MAT(cp->Global(P), got, 1e-13 * cs, "SubGeometry(0,0)", s.kind);
  CHECK(cp->isAffine() == s.affine, "SubGeometry(0,0)", s.kind);
}

PBT_SUB("shape", 120000, 3000000,
        "random shape class, dimension, scale, anisotropy, orientation, node perturbation; 1..5 local points; non-trivial: "
        "not a point shape and at least 2 evaluation points") {
  const int kind = static_cast<int>(g.raw(kNumKinds));
  Shape s = RandShape(g, kind);
  CheckShape(g, s);
}

PBT_SUB("affine_invariance", 30000, 600000,
        "shape S and its image under an invertible affine map A; Global, Jacobian and volume element must transform accordingly; "
        "non-trivial: 2D shape") {
  const int kind = 1 + static_cast<int>(g.raw(kNumKinds - 1));
  Shape s = RandShape(g, kind, g.b(0.3) ? 3 : 2);
  const int dg = s.dimG();
  Mat A = Mat::Identity(dg, dg) * g.r(0.5, 2.0);
  for (int i = 0; i < dg; ++i)
    for (int j = 0; j < dg; ++j) A(i, j) += g.r(0, 0.15) * (g.b() ? 1 : -1);
  if (g.b()) A.col(0) = -A.col(0);
  Vec t(dg);
  for (int k = 0; k < dg; ++k) t(k) = g.num() * s.size;
  Mat Y = A * s.nodes;
  Y.colwise() += t;
  std::unique_ptr<lf::geometry::Geometry> h;
  using namespace lf::geometry;
  switch (kind) {
    case kSegO1: h = std::make_unique<SegmentO1>(Y); break;
    case kSegO2: h = std::make_unique<SegmentO2>(Y); break;
    case kTriaO1: h = std::make_unique<TriaO1>(Y); break;
    case kTriaO2: h = std::make_unique<TriaO2>(Y); break;
    case kQuadO1: h = std::make_unique<QuadO1>(Y); break;
    case kPara: h = std::make_unique<Parallelogram>(Y); break;
    case kPara3: h = std::make_unique<Parallelogram>(Vec(Y.col(0)), Vec(Y.col(1)), Vec(Y.col(3))); break;
    default: h = std::make_unique<QuadO2>(Y); break;
  }
  const int dl = s.dimL();
  g.nontrivial(dl == 2);
  Mat P = RandRefPoints(g, s.type, 3);
  Mat E = A * s.geo->Global(P);
  E.colwise() += t;
  const double cs = CoordScale(Y) + CoordScale(s.nodes) * A.cwiseAbs().maxCoeff() * dg;
  CHECK_MAT(h->Global(P), E, 1e-12 * cs, "Global under affine map", s.kind);
  CHECK_MAT(h->Jacobian(P), A * s.geo->Jacobian(P), 1e-11 * cs, "Jacobian under affine map", s.kind);
  if (dl == dg) {
    const Vec v = s.geo->IntegrationElement(P) * std::abs(A.determinant());
    CHECK_MAT(h->IntegrationElement(P), v, 1e-10 * std::pow(cs, dl), "volume element under affine map", s.kind);
  }
}
