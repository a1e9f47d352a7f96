// Random entity shapes together with an independent description of their parametrisation.
#ifndef VERIF_SHAPES_H
#define VERIF_SHAPES_H
#include <lf/base/base.h>
#include <lf/geometry/geometry.h>

#include <Eigen/Dense>
#include <memory>

#include "engine/pbt.h"

namespace gen {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

/// Lagrange interpolation on a reference element, built from monomials and a Vandermonde solve
struct RefLag {
  Mat nodes;                               // d x n
  std::vector<std::pair<int, int>> mono;   // exponents
  Mat inv;                                 // n x n; column j = monomial coefficients of basis j
  RefLag() = default;
  RefLag(Mat nd, std::vector<std::pair<int, int>> mo) : nodes(std::move(nd)), mono(std::move(mo)) {
    const int n = nodes.cols();
    Mat V(n, n);
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < n; ++k) V(i, k) = M(k, nodes.col(i));
    inv = V.inverse();
  }
  static double P(double x, int e) { return e == 0 ? 1.0 : (e == 1 ? x : (e == 2 ? x * x : std::pow(x, e))); }
  double M(int k, const Vec &x) const {
    double v = P(x(0), mono[k].first);
    if (x.size() > 1) v *= P(x(1), mono[k].second);
    return v;
  }
  Vec DM(int k, const Vec &x) const {
    Vec g(x.size());
    const int a = mono[k].first;
    const int b = mono[k].second;
    const double y = x.size() > 1 ? x(1) : 1.0;
    g(0) = a == 0 ? 0.0 : a * P(x(0), a - 1) * (x.size() > 1 ? P(y, b) : 1.0);
    if (x.size() > 1) g(1) = b == 0 ? 0.0 : b * P(y, b - 1) * P(x(0), a);
    return g;
  }
  Vec eval(const Vec &x) const {
    const int n = nodes.cols();
    Vec m(n);
    for (int k = 0; k < n; ++k) m(k) = M(k, x);
    return inv.transpose() * m;
  }
  Mat grad(const Vec &x) const {  // n x d
    const int n = nodes.cols();
    Mat m(n, x.size());
    for (int k = 0; k < n; ++k) m.row(k) = DM(k, x).transpose();
    return inv.transpose() * m;
  }
};

inline const RefLag &Ref(lf::base::RefEl t, int order) {
  static const RefLag s1((Mat(1, 2) << 0, 1).finished(), {{0, 0}, {1, 0}});
  static const RefLag s2((Mat(1, 3) << 0, 1, 0.5).finished(), {{0, 0}, {1, 0}, {2, 0}});
  static const RefLag t1((Mat(2, 3) << 0, 1, 0, 0, 0, 1).finished(), {{0, 0}, {1, 0}, {0, 1}});
  static const RefLag t2((Mat(2, 6) << 0, 1, 0, .5, .5, 0, 0, 0, 1, 0, .5, .5).finished(),
                         {{0, 0}, {1, 0}, {0, 1}, {2, 0}, {1, 1}, {0, 2}});
  static const RefLag q1((Mat(2, 4) << 0, 1, 1, 0, 0, 0, 1, 1).finished(), {{0, 0}, {1, 0}, {0, 1}, {1, 1}});
  static const RefLag q2((Mat(2, 8) << 0, 1, 1, 0, .5, 1, .5, 0, 0, 0, 1, 1, 0, .5, 1, .5).finished(),
                         {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}});
  if (t == lf::base::RefEl::kSegment()) return order == 1 ? s1 : s2;
  if (t == lf::base::RefEl::kTria()) return order == 1 ? t1 : t2;
  return order == 1 ? q1 : q2;
}

struct Shape {
  std::string kind;
  lf::base::RefEl type = lf::base::RefEl::kPoint();
  int order = 1;
  bool affine = true;
  bool exact_vol = true;  // one-point volume is exact
  Mat nodes;              // world dim x number of defining nodes
  double size = 1.0;
  std::unique_ptr<lf::geometry::Geometry> geo;
  int dimG() const { return nodes.rows(); }
  int dimL() const { return static_cast<int>(type.Dimension()); }
  Vec map(const Vec &x) const {
    if (dimL() == 0) return nodes.col(0);
    return nodes * Ref(type, order).eval(x);
  }
  Mat jac(const Vec &x) const {
    if (dimL() == 0) return Mat(dimG(), 0);
    return nodes * Ref(type, order).grad(x);
  }
};

/// random point of a reference element: corners, edge points or interior
inline Vec RandRefPoint(pbt::G &g, lf::base::RefEl t) {
  const int d = static_cast<int>(t.Dimension());
  Vec x(d);
  if (d == 0) return x;
  auto coord = [&]() -> double {
    switch (g.raw(4)) {
      case 0: return g.i(0, 6) / 6.0;
      default: return g.r(0.0, 1.0);
    }
  };
  for (int k = 0; k < d; ++k) x(k) = coord();
  if (t == lf::base::RefEl::kTria() && x(0) + x(1) > 1.0) {
    x(0) = 1.0 - x(0);
    x(1) = 1.0 - x(1);
    if (x(0) + x(1) > 1.0) x(1) = std::max(0.0, 1.0 - x(0));
  }
  return x;
}
inline Mat RandRefPoints(pbt::G &g, lf::base::RefEl t, int n) {
  Mat p(t.Dimension(), n);
  for (int k = 0; k < n; ++k) p.col(k) = RandRefPoint(g, t);
  return p;
}

/// orthonormal columns, dimG x d, random
inline Mat RandFrame(pbt::G &g, int dimG, int d) {
  if (dimG == d && g.b(0.4)) return Mat::Identity(dimG, d);
  Mat A(dimG, d);
  for (int i = 0; i < dimG; ++i)
    for (int j = 0; j < d; ++j) A(i, j) = g.r(-1, 1) + (i == j ? 0.3 : 0.0);
  Eigen::HouseholderQR<Mat> qr(A);
  Mat Q = qr.householderQ() * Mat::Identity(dimG, d);
  return Q;
}

inline std::string Str(const Mat &m) {
  std::ostringstream o;
  o << m.format(Eigen::IOFormat(6, Eigen::DontAlignCols, ",", ";"));
  return o.str();
}

/// base planar polygons: well shaped but arbitrary; either orientation
inline Mat RandBaseTria(pbt::G &g) {
  Mat c(2, 3);
  c << 0, 1, g.r(-0.3, 1.2), 0, 0, g.r(0.3, 1.5);
  return c;
}
inline Mat RandBaseQuad(pbt::G &g) {
  Mat c(2, 4);
  c << 0, 1, 1, 0, 0, 0, 1, 1;
  for (int k = 0; k < 4; ++k)
    for (int l = 0; l < 2; ++l) c(l, k) += g.r(0, 0.28) * (g.b() ? -1 : 1);
  return c;
}

enum Kind { kPoint, kSegO1, kSegO2, kTriaO1, kTriaO2, kQuadO1, kPara, kPara3, kQuadO2, kNumKinds };

/// A random admissible shape of the given kind
inline Shape RandShape(pbt::G &g, int kind, int force_dim = 0, bool allow_3d_warp = true) {
  using namespace lf::geometry;
  Shape s;
  const int dl = kind == kPoint ? 0 : (kind <= kSegO2 ? 1 : 2);
  int dg = force_dim ? force_dim : (dl == 2 ? (g.b(0.3) ? 3 : 2) : (dl == 1 ? 1 + static_cast<int>(g.raw(3)) : 1 + static_cast<int>(g.raw(3))));
  // embedding: x -> t + scale * F * D * y
  const double scales[] = {1.0, 1.0, 0.01, 100.0, 1e-4, 1e4};
  const double sc = scales[g.raw(6)];
  s.size = sc;
  Vec t(dg);
  for (int k = 0; k < dg; ++k) t(k) = g.num(3.0) * sc;
  if (dl == 0) {
    s.kind = "Point";
    s.nodes = t;
    s.geo = std::make_unique<Point>(t);
    return s;
  }
  Mat F = RandFrame(g, dg, dl);
  Mat D = Mat::Identity(dl, dl);
  if (g.b(0.3)) D(0, 0) = g.r(1.0, 20.0);
  if (dl == 2 && g.b(0.3)) D(0, 1) = g.r(-1.0, 1.0);
  if (g.b(0.4)) D(0, 0) = -D(0, 0);
  Mat base;
  if (kind == kSegO1 || kind == kSegO2) {
    s.type = lf::base::RefEl::kSegment();
    base = (Mat(1, 2) << 0, 1).finished();
  } else if (kind == kTriaO1 || kind == kTriaO2) {
    s.type = lf::base::RefEl::kTria();
    base = RandBaseTria(g);
  } else {
    s.type = lf::base::RefEl::kQuad();
    if (kind == kPara || kind == kPara3) {
      base = (Mat(2, 4) << 0, 1, 1, 0, 0, 0, 1, 1).finished();
      const double sh = g.r(-0.5, 0.5);
      base.row(0) += sh * base.row(1);
    } else {
      base = RandBaseQuad(g);
    }
  }
  const int nc = base.cols();
  auto edgemids = [&](const Mat &c) {
    const int ne = nc == 2 ? 1 : nc;
    Mat m(c.rows(), ne);
    for (int e = 0; e < ne; ++e) m.col(e) = 0.5 * (c.col(e) + c.col((e + 1) % nc));
    return m;
  };
  const bool o2 = kind == kSegO2 || kind == kTriaO2 || kind == kQuadO2;
  Mat ref = base;
  if (o2) {
    Mat mids = edgemids(base);
    if (!g.b(0.1)) {  // curved, sometimes with straight edges but shifted midpoints
      const double amp = kind == kQuadO2 ? 0.1 : 0.12;
      for (int e = 0; e < mids.cols(); ++e)
        for (int l = 0; l < mids.rows(); ++l) mids(l, e) += g.r(0, amp) * (g.b() ? -1 : 1);
    }
    Mat all(base.rows(), nc + mids.cols());
    all << base, mids;
    ref = all;
    s.order = 2;
    s.affine = false;
    s.exact_vol = false;
  }
  Mat X = sc * (F * (D * ref));
  if (dg > dl && (o2 || kind == kQuadO1) && allow_3d_warp && g.b(0.6)) {  // out of plane
    for (int k = 0; k < X.cols(); ++k)
      for (int l = 0; l < dg; ++l) X(l, k) += sc * g.r(-0.08, 0.08);
  }
  X.colwise() += t;
  s.nodes = X;
  switch (kind) {
    case kSegO1: s.kind = "SegmentO1"; s.geo = std::make_unique<SegmentO1>(X); break;
    case kSegO2: s.kind = "SegmentO2"; s.geo = std::make_unique<SegmentO2>(X); break;
    case kTriaO1: s.kind = "TriaO1"; s.geo = std::make_unique<TriaO1>(X); break;
    case kTriaO2: s.kind = "TriaO2"; s.geo = std::make_unique<TriaO2>(X); break;
    case kQuadO1: s.kind = "QuadO1"; s.geo = std::make_unique<QuadO1>(X); s.affine = false; s.exact_vol = dg == 2; break;
    case kPara: s.kind = "Parallelogram"; s.geo = std::make_unique<Parallelogram>(X); break;
    case kPara3:
      s.kind = "Parallelogram(p0,p1,p2)";
      s.geo = std::make_unique<Parallelogram>(Vec(X.col(0)), Vec(X.col(1)), Vec(X.col(3)));
      break;
    case kQuadO2: s.kind = "QuadO2"; s.geo = std::make_unique<QuadO2>(X); break;
    default: break;
  }
  g.desc() << s.kind << " in R^" << dg << " nodes [" << Str(X) << "]; ";
  g.label(s.kind + " R" + std::to_string(dg));
  return s;
}

/// largest absolute coordinate plus size: scale for absolute tolerances
inline double CoordScale(const Mat &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 1.0; }

/// integral of the volume element over the reference element by high order tensor Gauss (own nodes)
inline void GaussNodes(int n, std::vector<double> &x, std::vector<double> &w) {
  x.assign(n, 0);
  w.assign(n, 0);
  for (int i = 0; i < n; ++i) {  // Newton on Legendre polynomials
    double z = std::cos(M_PI * (i + 0.75) / (n + 0.5));
    double dp = 1;
    for (int it = 0; it < 100; ++it) {
      double p0 = 1;
      double p1 = z;
      for (int k = 2; k <= n; ++k) {
        const double p2 = ((2.0 * k - 1) * z * p1 - (k - 1.0) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      if (n == 0) p1 = 1;
      dp = n * (z * p1 - p0) / (z * z - 1);
      const double dz = p1 / dp;
      z -= dz;
      if (std::abs(dz) < 1e-16) break;
    }
    x[n - 1 - i] = 0.5 * (1 + z);
    w[n - 1 - i] = 1.0 / ((1 - z * z) * dp * dp);
  }
}
/// own quadrature on a reference element: points (d x n), weights
inline void RefQuad(lf::base::RefEl t, int n, Mat &p, Vec &w) {
  std::vector<double> x;
  std::vector<double> wt;
  GaussNodes(n, x, wt);
  const int d = static_cast<int>(t.Dimension());
  if (d == 0) {
    p = Mat(0, 1);
    w = Vec::Ones(1);
    return;
  }
  if (d == 1) {
    p.resize(1, n);
    w.resize(n);
    for (int i = 0; i < n; ++i) {
      p(0, i) = x[i];
      w(i) = wt[i];
    }
    return;
  }
  p.resize(2, n * n);
  w.resize(n * n);
  const bool tria = t == lf::base::RefEl::kTria();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const int k = i * n + j;
      if (tria) {
        p(0, k) = x[i];
        p(1, k) = x[j] * (1 - x[i]);
        w(k) = wt[i] * wt[j] * (1 - x[i]);
      } else {
        p(0, k) = x[i];
        p(1, k) = x[j];
        w(k) = wt[i] * wt[j];
      }
    }
}
}  // namespace gen
#endif
