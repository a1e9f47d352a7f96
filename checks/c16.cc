// C16: hierarchic reference elements for all degrees and orientations
#include <lf/fe/hierarchic_fe.h>
#include <lf/quad/gauss_quadrature.h>

#include <cmath>
#include <complex>

#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;
using lf::mesh::Orientation;
using Cplx = std::complex<double>;

namespace {
template <class S>
using FE = lf::fe::ScalarReferenceFiniteElement<S>;
struct Cfg {
  RefEl re = RefEl::kSegment();
  int pi = 1;
  std::vector<unsigned> ed;
  std::vector<Orientation> ori;
  int Max() const {
    int m = std::max(pi, 1);
    for (auto d : ed) m = std::max<int>(m, d);
    return m;
  }
  int Min() const {
    int m = pi;
    for (auto d : ed) m = std::min<int>(m, d);
    return m;
  }
};
Cfg RandCfg(pbt::G &g, int maxp) {
  Cfg c;
  const int t = g.i(0, 5);
  c.re = t == 0 ? RefEl::kSegment() : t <= 3 ? RefEl::kTria() : RefEl::kQuad();
  if (c.re != RefEl::kTria()) maxp = std::min(maxp, 7);
  if (c.re == RefEl::kSegment()) maxp = 2 * maxp;
  c.pi = g.i(1, maxp);
  g.desc() << c.re.ToString() << " interior degree " << c.pi;
  if (c.re != RefEl::kSegment()) {
    const bool uni = g.b(0.2);
    g.desc() << " edges";
    for (unsigned k = 0; k < c.re.NumSubEntities(1); ++k) {
      c.ed.push_back(uni ? c.pi : g.i(1, maxp));
      c.ori.push_back(g.b() ? Orientation::positive : Orientation::negative);
      g.desc() << " " << c.ed.back() << (c.ori.back() == Orientation::positive ? "+" : "-");
    }
    g.nontrivial(!uni);
  } else {
    g.nontrivial(c.pi >= 3);
  }
  g.label(c.re.ToString());
  return c;
}
template <class S>
std::shared_ptr<FE<S>> Make(const Cfg &c, const lf::quad::QuadRuleCache &cache) {
  if (c.re == RefEl::kSegment()) return std::make_shared<lf::fe::FeHierarchicSegment<S>>(c.pi, cache);
  if (c.re == RefEl::kTria())
    return std::make_shared<lf::fe::FeHierarchicTria<S>>(c.pi, std::array<unsigned, 3>{c.ed[0], c.ed[1], c.ed[2]}, cache, c.ori);
  return std::make_shared<lf::fe::FeHierarchicQuad<S>>(c.pi, std::array<unsigned, 4>{c.ed[0], c.ed[1], c.ed[2], c.ed[3]}, cache, c.ori);
}
int NInt(const Cfg &c) {
  if (c.re == RefEl::kSegment()) return c.pi - 1;
  return c.re == RefEl::kTria() ? (c.pi <= 2 ? 0 : (c.pi - 1) * (c.pi - 2) / 2) : (c.pi - 1) * (c.pi - 1);
}
/// barycentric interpolation in Chebyshev points of [0,1]
struct Cheb {
  int n;
  Vec x, w;
  explicit Cheb(int n_) : n(n_), x(n_), w(n_) {
    for (int k = 0; k < n; ++k) {
      const double th = M_PI * (2 * k + 1) / (2.0 * n);
      x(k) = 0.5 * (1 - std::cos(th));
      w(k) = (k % 2 ? -1.0 : 1.0) * std::sin(th);
    }
  }
  template <class V>
  auto Eval(const V &f, double t) const {
    auto num = f(0) * 0.0;
    double den = 0;
    for (int k = 0; k < n; ++k) {
      if (std::abs(t - x(k)) < 1e-15) return f(k) * 1.0;
      num += f(k) * (w(k) / (t - x(k)));
      den += w(k) / (t - x(k));
    }
    return num * (1.0 / den);
  }
  /// differentiation matrix
  Mat D() const {
    Mat d = Mat::Zero(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i != j) {
          d(i, j) = (w(j) / w(i)) / (x(i) - x(j));
          d(i, i) -= d(i, j);
        }
    return d;
  }
};
/// shifted integrated Legendre polynomial by Gauss quadrature of the Legendre recurrence
double LegP(int n, double x) {
  const double t = 2 * x - 1;
  double a = 1, b = t;
  if (n == 0) return 1;
  for (int k = 1; k < n; ++k) {
    const double c = ((2 * k + 1) * t * b - k * a) / (k + 1);
    a = b;
    b = c;
  }
  return b;
}
double ILegP(int n, double x) {
  static const auto rule = lf::quad::GaussLegendre(24);
  double s = 0;
  for (Eigen::Index i = 0; i < std::get<0>(rule).size(); ++i) s += std::get<1>(rule)(i) * LegP(n - 1, x * std::get<0>(rule)(i));
  return s * x;
}
template <class S>
S RandS(pbt::G &g) {
  if constexpr (std::is_same_v<S, Cplx>) return {g.num(2), g.num(2)};
  else return g.num(2);
}

template <class S>
void CheckElement(pbt::G &g, int maxp) {
  const Cfg c = RandCfg(g, maxp);
  const RefEl re = c.re;
  const int dim = re.Dimension();
  const int nv = re.NumNodes();
  const int P = c.Max();
  lf::quad::QuadRuleCache cache;
  const auto fe = Make<S>(c, cache);
  CHECK(fe->RefEl() == re, "refel", "");
  CHECK(static_cast<int>(fe->Degree()) == P, "degree", fe->Degree() << " expected " << P);
  // ---- layout
  int n = nv;
  std::vector<int> off(c.ed.size() + 1, nv);
  for (std::size_t e = 0; e < c.ed.size(); ++e) {
    CHECK(fe->NumRefShapeFunctions(1, e) == c.ed[e] - 1, "layout", "edge " << e << ": " << fe->NumRefShapeFunctions(1, e));
    off[e] = n;
    n += c.ed[e] - 1;
  }
  const int oi = n;
  n += NInt(c);
  CHECK(static_cast<int>(fe->NumRefShapeFunctions(0, 0)) == NInt(c) && static_cast<int>(fe->NumRefShapeFunctions(0)) == NInt(c), "layout",
        "interior " << fe->NumRefShapeFunctions(0, 0));
  for (int v = 0; v < nv; ++v) CHECK(fe->NumRefShapeFunctions(dim, v) == 1, "layout", "vertex");
  CHECK(static_cast<int>(fe->NumRefShapeFunctions()) == n, "layout", "total " << fe->NumRefShapeFunctions() << " expected " << n);
  // ---- evaluation nodes, duality
  const Mat N = fe->EvaluationNodes();
  CHECK(N.rows() == dim && N.cols() == static_cast<Eigen::Index>(fe->NumEvaluationNodes()), "nodes", N.rows() << "x" << N.cols());
  for (Eigen::Index k = 0; k < N.cols(); ++k) {
    const Vec x = N.col(k);
    bool in = x.minCoeff() > -1e-12 && x.maxCoeff() < 1 + 1e-12;
    if (re == RefEl::kTria()) in = in && x.sum() < 1 + 1e-12;
    CHECK(in, "nodes", "evaluation node " << k << " = " << x.transpose() << " outside the reference element");
  }
  const auto VN = fe->EvalReferenceShapeFunctions(N);
  CHECK(VN.rows() == n && VN.cols() == N.cols(), "shape", "");
  Eigen::Matrix<S, 1, Eigen::Dynamic> co(n);
  const bool unit = g.b(0.3);
  const int which = g.i(0, n - 1);
  for (int k = 0; k < n; ++k) co(k) = unit ? S(k == which ? 1.0 : 0.0) : RandS<S>(g);
  const Eigen::Matrix<S, 1, Eigen::Dynamic> nodal = co * VN;
  const Eigen::Matrix<S, 1, Eigen::Dynamic> back = fe->NodalValuesToDofs(nodal);
  CHECK(back.size() == n, "dual", "");
  for (int k = 0; k < n; ++k)
    CHECK_NEAR(back(k), co(k), 1e-9 * std::pow(1.6, P), "dual", "coefficient " << k << " of " << n << " not reproduced from nodal values");
  // ---- shape functions are polynomials with the right gradient, on random lines
  for (int r = 0; r < 2; ++r) {
    Vec a = RandRefPoint(g, re);
    Vec b = RandRefPoint(g, re);
    if (g.b(0.3)) a = re.NodeCoords().col(g.i(0, nv - 1));
    if (g.b(0.3)) b = re.NodeCoords().col(g.i(0, nv - 1));
    bool axis = false;
    if (re == RefEl::kQuad() && g.b(0.6)) {
      const int d = g.i(0, 1);
      b(d) = a(d);
      axis = true;
    }
    if ((a - b).norm() < 0.05) continue;
    const int deg = re == RefEl::kQuad() && !axis ? 2 * P : P;  // degree along the line
    const Cheb ch(deg + 1);
    const Mat D = ch.D();
    Mat X(dim, deg + 3);
    const double t1 = g.i(0, 64) / 64.0;
    for (int k = 0; k <= deg; ++k) X.col(k) = a + ch.x(k) * (b - a);
    X.col(deg + 1) = a + t1 * (b - a);
    X.col(deg + 2) = b;
    const auto val = fe->EvalReferenceShapeFunctions(X);
    const auto grd = fe->GradientsReferenceShapeFunctions(X);
    CHECK(val.rows() == n && val.cols() == deg + 3 && grd.rows() == n && grd.cols() == dim * (deg + 3), "shape", "");
    for (int k = 0; k < n; ++k) {
      Eigen::Matrix<S, Eigen::Dynamic, 1> f = val.row(k).transpose().head(deg + 1);
      CHECK_NEAR(ch.Eval(f, t1), val(k, deg + 1), 1e-9, "polynomial",
                 "shape function " << k << " of " << n << " is no polynomial of degree " << deg << " along the line " << a.transpose() << " -- " << b.transpose());
      CHECK_NEAR(ch.Eval(f, 1.0), val(k, deg + 2), 1e-9, "polynomial", "shape function " << k << " (end point)");
      const Eigen::Matrix<S, Eigen::Dynamic, 1> df = D * f;
      auto dirder = [&](int q) {
        S s = 0;
        for (int d = 0; d < dim; ++d) s += grd(k, q * dim + d) * (b - a)(d);
        return s;
      };
      for (int q = 0; q <= deg; ++q)
        CHECK_NEAR(dirder(q), df(q), 1e-8 * (1 + deg), "gradient", "shape function " << k << " of " << n << " at " << X.col(q).transpose() << " in direction " << (b - a).transpose());
      CHECK_NEAR(dirder(deg + 1), ch.Eval(df, t1), 1e-8 * (1 + deg), "gradient", "shape function " << k << " at " << X.col(deg + 1).transpose());
      CHECK_NEAR(dirder(deg + 2), ch.Eval(df, 1.0), 1e-7 * (1 + deg), "gradient", "shape function " << k << " at end point");
    }
  }
  // ---- traces
  const int q = g.i(1, 3);
  Mat t = RandRefPoints(g, RefEl::kSegment(), q);
  if (dim == 1) {
    const auto v = fe->EvalReferenceShapeFunctions(t);
    const auto v01 = fe->EvalReferenceShapeFunctions((Mat(1, 2) << 0, 1).finished());
    for (int k = 0; k < n; ++k) {
      CHECK_NEAR(v01(k, 0), S(k == 0 ? 1 : 0), 1e-12, "vertex", "shape function " << k);
      CHECK_NEAR(v01(k, 1), S(k == 1 ? 1 : 0), 1e-12, "vertex", "shape function " << k);
      for (int i = 0; i < q; ++i)
        CHECK_NEAR(v(k, i), S(k == 0 ? 1 - t(0, i) : k == 1 ? t(0, i) : ILegP(k, t(0, i))), 1e-12, "segment", "shape function " << k);
    }
  } else {
    for (int e = 0; e < nv; ++e) {
      const int a = e;
      const int b = (e + 1) % nv;
      Mat Y(2, q);
      for (int i = 0; i < q; ++i) Y.col(i) = (1 - t(0, i)) * re.NodeCoords().col(a) + t(0, i) * re.NodeCoords().col(b);
      const auto v = fe->EvalReferenceShapeFunctions(Y);
      for (int k = 0; k < n; ++k)
        for (int i = 0; i < q; ++i) {
          const double s = t(0, i);
          S ex = 0;
          if (k == a) ex = 1 - s;
          else if (k == b) ex = s;
          else if (k >= off[e] && k < off[e] + static_cast<int>(c.ed[e]) - 1) {
            const int l = k - off[e];
            const int m = static_cast<int>(c.ed[e]) - 1;
            // seen from a reversed edge the shape functions appear in reversed order with flipped coordinate
            ex = c.ori[e] == Orientation::positive ? ILegP(l + 2, s) : ILegP(m - 1 - l + 2, 1 - s);
          }
          CHECK_NEAR(v(k, i), ex, 1e-10, "trace", "shape function " << k << " of " << n << " on side " << e << " at parameter " << s);
        }
    }
  }
  (void)oi;
  // ---- the full polynomial space of the smallest degree is contained
  const int pm = c.Min();
  {
    std::vector<std::pair<std::array<int, 2>, double>> q2;
    for (int a = 0; a <= pm; ++a)
      for (int b = 0; b <= (dim == 1 ? 0 : re == RefEl::kTria() ? pm - a : pm); ++b) q2.push_back({{a, b}, g.num(1)});
    auto poly = [&](const Vec &x) {
      double s = 0;
      for (const auto &[e, v] : q2) s += v * LegP(e[0], x(0)) * (dim > 1 ? LegP(e[1], x(1)) : 1.0);
      return s;
    };
    Eigen::Matrix<S, 1, Eigen::Dynamic> nvv(N.cols());
    for (Eigen::Index k = 0; k < N.cols(); ++k) nvv(k) = poly(N.col(k));
    const Eigen::Matrix<S, 1, Eigen::Dynamic> d = fe->NodalValuesToDofs(nvv);
    const Mat X = RandRefPoints(g, re, 3);
    const Eigen::Matrix<S, 1, Eigen::Dynamic> vals = d * fe->EvalReferenceShapeFunctions(X);
    for (int i = 0; i < 3; ++i)
      CHECK_NEAR(vals(i), S(poly(X.col(i))), 1e-9 * std::pow(1.6, P), "reproduce", "polynomial of degree " << pm << " at " << X.col(i).transpose());
  }
}

double Binom(double n, int k) {  // generalised binomial coefficient
  double r = 1;
  for (int i = 0; i < k; ++i) r *= (n - i) / (i + 1);
  return r;
}
double JacobiSum(int n, double a, double b, double x) {  // P_n^{(a,b)}(2x-1)
  double s = 0;
  for (int k = 0; k <= n; ++k) s += Binom(n + a, n - k) * Binom(n + b, k) * std::pow(x - 1, k) * std::pow(x, n - k);
  return s;
}
double JacobiScale(int n, double a, double b, double x) {
  double s = 1;
  for (int k = 0; k <= n; ++k) s += std::abs(Binom(n + a, n - k) * Binom(n + b, k) * std::pow(x - 1, k) * std::pow(x, n - k));
  return s;
}
}  // namespace

PBT_SUB("elements-real", 150, 3000, "element type, interior degree 1..8, independent edge degrees and orientations; non-trivial: degrees not uniform (segment: degree >= 3)") {
  CheckElement<double>(g, 8);
}
PBT_SUB("elements-high", 10, 500, "as elements-real with degrees up to 12 on triangles; non-trivial: degrees not uniform") { CheckElement<double>(g, 12); }
PBT_SUB("elements-complex", 20, 300, "as elements-real with complex scalars and degrees up to 5") { CheckElement<Cplx>(g, 5); }

PBT_SUB("legendre", 100, 2000, "scaled (integrated) Legendre polynomials and derivatives, degree up to 20, random x and scale t; non-trivial: n >= 3 and t not in {0,1}") {
  const int n = g.i(0, g.b(0.3) ? 20 : 7);
  const double t = g.b(0.2) ? 1.0 : g.b(0.15) ? 0.0 : g.i(1, 96) / 64.0;
  const double x = g.b(0.7) ? t * g.i(0, 64) / 64.0 : g.i(-32, 96) / 64.0;
  g.desc() << "n=" << n << " x=" << x << " t=" << t;
  g.nontrivial(n >= 3 && t != 0 && t != 1);
  using namespace lf::fe;
  const double z = std::max(std::abs(2 * x - t), std::abs(t));
  const double mag = 1 + std::pow(2 * z + t, n);
  // homogenised Legendre polynomial by the explicit sum t^n P_n(x/t) = sum C(n,k)^2 (x-t)^k x^{n-k}
  auto P = [&](int m, double xx) {
    double s = 0;
    for (int k = 0; k <= m; ++k) s += Binom(m, k) * Binom(m, k) * std::pow(xx - t, k) * std::pow(xx, m - k);
    return s;
  };
  auto dP = [&](int m, double xx) {
    double s = 0;
    for (int k = 0; k <= m; ++k) {
      const double c = Binom(m, k) * Binom(m, k);
      if (k > 0) s += c * k * std::pow(xx - t, k - 1) * std::pow(xx, m - k);
      if (m - k > 0) s += c * (m - k) * std::pow(xx - t, k) * std::pow(xx, m - k - 1);
    }
    return s;
  };
  auto scale = [&](int m) {
    double s = 1;
    for (int k = 0; k <= m; ++k) s += Binom(m, k) * Binom(m, k) * std::pow(std::abs(x - t), k) * std::pow(std::abs(x), m - k);
    return s;
  };
  const double tol = 1e-13 * (scale(n) + mag);
  CHECK_NEAR(Legendre(n, x, t), P(n, x), tol, "legendre", "");
  CHECK_NEAR(LegendreDx(n, x, t), dP(n, x), tol * (n + 1) * (n + 1) * 4, "legendre-dx", "");
  if (t == 1.0) {
    CHECK(Legendre(n, x) == Legendre(n, x, 1) && LegendreDx(n, x) == LegendreDx(n, x, 1), "default-t", "");
  }
  if (n >= 1) {
    // L_n(x;t) = int_0^x P_{n-1}(s;t) ds
    static const auto rule = lf::quad::GaussLegendre(16);
    double s = 0;
    for (int i = 0; i < 16; ++i) s += std::get<1>(rule)(i) * P(n - 1, x * std::get<0>(rule)(i));
    CHECK_NEAR(ILegendre(n, x, t), s * x, tol * 10, "ilegendre", "");
    CHECK_NEAR(ILegendreDx(n, x, t), P(n - 1, x), tol, "ilegendre-dx", "");
    // homogeneity (degree n for n>=2): x d/dx + t d/dt = n
    if (n >= 2)
      CHECK_NEAR(x * ILegendreDx(n, x, t) + t * ILegendreDt(n, x, t), n * ILegendre(n, x, t), tol * 40 * n, "ilegendre-dt", "Euler relation");
    else CHECK(ILegendreDt(n, x, t) == 0, "ilegendre-dt", "");
    if (t == 1.0) CHECK(ILegendre(n, x) == ILegendre(n, x, 1) && ILegendreDx(n, x) == ILegendreDx(n, x, 1) && ILegendreDt(n, x) == ILegendreDt(n, x, 1), "default-t", "");
  }
}

PBT_SUB("jacobi", 100, 2000, "shifted Jacobi polynomials, integrals and derivatives, degree up to 15; non-trivial: n >= 2 and alpha != 0") {
  using namespace lf::fe;
  const int n = g.i(0, g.b(0.3) ? 15 : 6);
  const double a = g.b(0.6) ? g.i(0, 20) : g.i(-15, 64) / 16.0;
  const double b = g.b(0.4) ? 0.0 : g.b() ? g.i(0, 5) : g.i(-15, 64) / 16.0;
  const double x = g.i(0, 64) / 64.0;
  g.desc() << "n=" << n << " alpha=" << a << " beta=" << b << " x=" << x;
  g.nontrivial(n >= 2 && a != 0);
  const double lead = JacobiScale(n, a, b, 0) + JacobiScale(n, a, b, 1);
  CHECK_NEAR(Jacobi(n, a, b, x), JacobiSum(n, a, b, x), 1e-12 * (JacobiScale(n, a, b, x) + lead), "jacobi", "");
  const double s0 = JacobiScale(n, a, 0, x) + JacobiScale(n, a, 0, 0) + JacobiScale(n, a, 0, 1);
  CHECK_NEAR(Jacobi(n, a, x), JacobiSum(n, a, 0, x), 1e-12 * s0, "jacobi-0", "");
  // derivative of x -> P_n(2x-1) from interpolation in n+1 Chebyshev points
  if (n >= 1) {
    const Cheb ch(n + 1);
    Vec f(n + 1);
    for (int k = 0; k <= n; ++k) f(k) = JacobiSum(n, a, 0, ch.x(k));
    const Vec df = ch.D() * f;
    CHECK_NEAR(JacobiDx(n, a, x), ch.Eval(df, x), 1e-10 * s0 * n * n, "jacobi-dx", "");
    // integral
    static const auto rule = lf::quad::GaussLegendre(12);
    double s = 0;
    for (int i = 0; i < 12; ++i) s += std::get<1>(rule)(i) * JacobiSum(n - 1, a, 0, x * std::get<0>(rule)(i));
    CHECK_NEAR(IJacobi(n, a, x), s * x, 1e-11 * s0, "ijacobi", "");
    CHECK_NEAR(IJacobiDx(n, a, x), JacobiSum(n - 1, a, 0, x), 1e-12 * s0, "ijacobi-dx", "");
  } else {
    CHECK(JacobiDx(n, a, x) == 0, "jacobi-dx", "");
  }
}
