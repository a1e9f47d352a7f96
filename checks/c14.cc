// C14: quadrature rules integrate all polynomials up to their stated degree
#include <lf/quad/gauss_quadrature.h>
#include <lf/quad/quad.h>

#include <boost/math/special_functions/beta.hpp>
#include <cmath>
#include <map>
#include <memory>

#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;
using lf::quad::QuadRule;

namespace {
/// L2(0,1)-orthonormal Legendre polynomials 0..n at x
std::vector<double> OrthoLeg(int n, double x) {
  const double t = 2 * x - 1;
  std::vector<double> p(n + 1);
  p[0] = 1;
  if (n >= 1) p[1] = t;
  for (int k = 1; k < n; ++k) p[k + 1] = ((2 * k + 1) * t * p[k] - k * p[k - 1]) / (k + 1);
  for (int k = 0; k <= n; ++k) p[k] *= std::sqrt(2 * k + 1.0);
  return p;
}
/// classical Jacobi polynomials P_k^{(a,0)}, k = 0..n at t
std::vector<double> Jac(int n, double a, double b, double t) {
  std::vector<double> p(n + 1);
  p[0] = 1;
  if (n >= 1) p[1] = (a - b + (2 + a + b) * t) / 2;
  for (int j = 2; j <= n; ++j) {
    const double s = 2 * j + a + b;
    p[j] = ((s - 1) * (a * a - b * b + s * (s - 2) * t) * p[j - 1] - 2 * (j - 1 + a) * (j - 1 + b) * s * p[j - 2]) /
           (2 * j * (j + a + b) * (s - 2));
  }
  return p;
}

void CheckBasics(const QuadRule &q, RefEl re, int deg, const std::string &what) {
  CHECK(q.RefEl() == re, "refel", what);
  CHECK(static_cast<int>(q.Degree()) >= deg, "degree", what << ": stated degree " << q.Degree() << " requested " << deg);
  CHECK(q.Order() == q.Degree() + 1, "order", what);
  CHECK(q.Points().rows() == re.Dimension() && q.Points().cols() == q.Weights().size() && q.NumPoints() == q.Points().cols() &&
            q.NumPoints() > 0,
        "sizes", what << ": points " << q.Points().rows() << "x" << q.Points().cols() << " weights " << q.Weights().size());
  CHECK(q.Points().allFinite() && q.Weights().allFinite(), "finite", what);
  for (Eigen::Index i = 0; i < q.Points().cols(); ++i) {
    const Vec p = q.Points().col(i);
    const double tol = 1e-13;
    bool in = p.minCoeff() >= -tol && p.maxCoeff() <= 1 + tol;
    if (re == RefEl::kTria()) in = in && p.sum() <= 1 + tol;
    CHECK(in, "outside", what << ": point " << i << " = " << p.transpose() << " outside the reference element");
  }
}

/// exactness for every polynomial of degree <= q.Degree() in the sense of QuadRule::Degree()
void CheckExact(pbt::G &g, const QuadRule &q, const std::string &what) {
  const RefEl re = q.RefEl();
  const int d = static_cast<int>(q.Degree());
  const Mat &P = q.Points();
  const Vec &w = q.Weights();
  const auto n = P.cols();
  const double wabs = w.cwiseAbs().sum();
  const double tol = 2e-13 * (1 + wabs) * (1 + 0.5 * d);
  if (re == RefEl::kSegment()) {
    Vec s = Vec::Zero(d + 1);
    for (Eigen::Index i = 0; i < n; ++i) {
      const auto v = OrthoLeg(d, P(0, i));
      for (int k = 0; k <= d; ++k) s(k) += w(i) * v[k];
    }
    for (int k = 0; k <= d; ++k)
      CHECK_NEAR(s(k), (k == 0 ? 1.0 : 0.0), tol, "exact", what << ": degree " << d << ", orthonormal Legendre polynomial " << k);
    for (int k = 0; k <= d; ++k) {
      double m = 0;
      for (Eigen::Index i = 0; i < n; ++i) m += w(i) * std::pow(P(0, i), k);
      CHECK_NEAR(m, 1.0 / (k + 1), tol, "monomial", what << ": x^" << k);
    }
    return;
  }
  const bool tria = re == RefEl::kTria();
  std::vector<std::pair<int, int>> idx;
  for (int a = 0; a <= d; ++a)
    for (int b = 0; b <= (tria ? d - a : d); ++b) idx.emplace_back(a, b);
  const std::size_t maxpoly = std::max<std::size_t>(60, 3000000 / static_cast<std::size_t>(n));
  if (idx.size() > maxpoly) {  // huge rules: a random sample plus extreme indices
    std::vector<std::pair<int, int>> keep;
    for (std::size_t k = 0; k < maxpoly; ++k) keep.push_back(idx[g.raw(idx.size())]);
    for (int a = 0; a <= 5; ++a) {
      keep.emplace_back(a, tria ? d - a : d);
      keep.emplace_back(tria ? d - a : d, a);
      keep.emplace_back(a, 0);
    }
    idx = keep;
    g.label("sampled-polys");
  }
  Vec s = Vec::Zero(idx.size());
  for (Eigen::Index i = 0; i < n; ++i) {
    const double x = P(0, i);
    const double y = P(1, i);
    if (!tria) {
      const auto a = OrthoLeg(d, x);
      const auto b = OrthoLeg(d, y);
      for (std::size_t k = 0; k < idx.size(); ++k) s(k) += w(i) * a[idx[k].first] * b[idx[k].second];
    } else {
      // Dubiner basis: (1-y)^a P_a(2x/(1-y)-1) * P_b^{(2a+1,0)}(2y-1), bounded evaluation through the scaled recurrence
      std::vector<double> A(d + 1);
      const double t = 2 * x + y - 1;
      const double z = (1 - y) * (1 - y);
      A[0] = 1;
      if (d >= 1) A[1] = t;
      for (int k = 1; k < d; ++k) A[k + 1] = ((2 * k + 1) * t * A[k] - k * z * A[k - 1]) / (k + 1);
      int last = -1;
      std::vector<double> B;
      for (std::size_t k = 0; k < idx.size(); ++k) {
        const auto [a, b] = idx[k];
        if (a != last) {
          B = Jac(d - a, 2 * a + 1, 0, 2 * y - 1);
          last = a;
        }
        s(k) += w(i) * A[a] * B[b] * std::sqrt((2 * a + 1.0) * (2 * (a + b) + 2.0));
      }
    }
  }
  for (std::size_t k = 0; k < idx.size(); ++k) {
    const auto [a, b] = idx[k];
    const double ex = a + b == 0 ? (tria ? std::sqrt(2.0) / 2 : 1.0) : 0.0;
    CHECK_NEAR(s(k), ex, tol * (tria ? 4 : 1), "exact", what << ": degree " << d << ", orthonormal polynomial (" << a << "," << b << ")");
  }
  // monomials (barycentric on triangles)
  for (int r = 0; r < 20; ++r) {
    const int a = g.i(0, d);
    const int b = g.i(0, tria ? d - a : d);
    const int c = tria ? g.i(0, d - a - b) : 0;
    double m = 0;
    for (Eigen::Index i = 0; i < n; ++i)
      m += w(i) * std::pow(P(0, i), a) * std::pow(P(1, i), b) * (c == 0 ? 1.0 : std::pow(std::max(0.0, 1 - P(0, i) - P(1, i)), c));
    const double ex = tria ? std::exp(std::lgamma(a + 1.0) + std::lgamma(b + 1.0) + std::lgamma(c + 1.0) - std::lgamma(a + b + c + 3.0))
                           : 1.0 / (a + 1) / (b + 1);
    CHECK_NEAR(m, ex, tol, "monomial", what << ": exponents " << a << " " << b << " " << c);
  }
}
bool SameRule(const QuadRule &a, const QuadRule &b) {
  return a.RefEl() == b.RefEl() && a.Degree() == b.Degree() && a.Points() == b.Points() && a.Weights() == b.Weights();
}
}  // namespace

PBT_SUB("tria-rule", 60, 200, "make_QuadRule on the triangle for every degree 0..50 (tabulated) and beyond (Duffy); non-trivial: degree >= 2") {
  // the first draws of consecutive cases are independent: drawing from a small range visits every table
  const int hi = g.b(0.85) ? 50 : 75;
  const int deg = g.i(0, hi);
  g.desc() << "tria degree " << deg;
  g.nontrivial(deg >= 2);
  g.label(deg == 0 || deg > 50 ? "duffy" : "table");
  const auto q = lf::quad::make_QuadRule(RefEl::kTria(), deg);
  CheckBasics(q, RefEl::kTria(), deg, "tria rule " + std::to_string(deg));
  CheckExact(g, q, "tria rule " + std::to_string(deg));
}

PBT_SUB("segment-quad-rule", 60, 600, "make_QuadRule on segment/quadrilateral, random degree; non-trivial: degree >= 2") {
  const bool seg = g.b();
  const int deg = seg ? g.i(0, g.b(0.2) ? 300 : 80) : g.i(0, g.b(0.1) ? 60 : 25);
  g.desc() << (seg ? "segment" : "quad") << " degree " << deg;
  g.label(seg ? "segment" : "quad");
  g.nontrivial(deg >= 2);
  const RefEl re = seg ? RefEl::kSegment() : RefEl::kQuad();
  const auto q = lf::quad::make_QuadRule(re, deg);
  CheckBasics(q, re, deg, "rule");
  CheckExact(g, q, "rule");
  CHECK(q.Weights().minCoeff() > 0, "positive", "Gauss weights must be positive");
}

PBT_SUB("named-rules", 10, 40, "nodal and named low-order rules; always non-trivial") {
  struct N {
    const char *name;
    RefEl re;
    int points, degree;
    std::function<QuadRule()> f;
  };
  using namespace lf::quad;
  const RefEl T = RefEl::kTria(), Q = RefEl::kQuad(), S = RefEl::kSegment();
  static const std::vector<N> all = {
      {"TriaQR_MidpointRule", T, 1, 1, [] { return make_TriaQR_MidpointRule(); }},
      {"TriaQR_P1O2", T, 1, 1, [] { return make_TriaQR_P1O2(); }},
      {"TriaQR_EdgeMidpointRule", T, 3, 2, [] { return make_TriaQR_EdgeMidpointRule(); }},
      {"TriaQR_P3O3", T, 3, 2, [] { return make_TriaQR_P3O3(); }},
      {"TriaQR_P6O4", T, 6, 3, [] { return make_TriaQR_P6O4(); }},
      {"TriaQR_P7O6", T, 7, 5, [] { return make_TriaQR_P7O6(); }},
      {"QuadQR_MidpointRule", Q, 1, 1, [] { return make_QuadQR_MidpointRule(); }},
      {"QuadQR_P1O2", Q, 1, 1, [] { return make_QuadQR_P1O2(); }},
      {"QuadQR_EdgeMidpointRule", Q, 4, 1, [] { return make_QuadQR_EdgeMidpointRule(); }},
      {"QuadQR_P4O2", Q, 4, 1, [] { return make_QuadQR_P4O2(); }},
      {"QuadQR_P4O4", Q, 4, 3, [] { return make_QuadQR_P4O4(); }},
      {"nodal segment", S, 2, 1, [] { return make_QuadRuleNodal(RefEl::kSegment()); }},
      {"nodal tria", T, 3, 1, [] { return make_QuadRuleNodal(RefEl::kTria()); }},
      {"nodal quad", Q, 4, 1, [] { return make_QuadRuleNodal(RefEl::kQuad()); }}};
  g.nontrivial();
  for (const auto &n : all) {
    const auto q = n.f();
    CheckBasics(q, n.re, n.degree, n.name);
    CHECK(q.NumPoints() == static_cast<unsigned>(n.points), "npoints", n.name << " has " << q.NumPoints() << " points");
    CheckExact(g, q, n.name);
    const std::string nm = n.name;
    // location of the points promised by the name
    if (nm.rfind("nodal", 0) == 0) {
      CHECK_MAT(q.Points(), n.re.NodeCoords(), 0.0, "location", nm);
    }
    if (nm.find("Edge") != std::string::npos) {
      const Mat C = n.re.NodeCoords();
      for (int k = 0; k < n.points; ++k) {
        const Vec mid = 0.5 * (C.col(k) + C.col((k + 1) % n.points));
        double best = 1;
        for (int i = 0; i < n.points; ++i) best = std::min(best, (q.Points().col(i) - mid).norm());
        CHECK(best < 1e-15, "location", nm << ": midpoint of edge " << k << " is no quadrature point");
      }
    }
    if (nm.find("_Midpoint") != std::string::npos) {
      const Vec c = n.re.NodeCoords().rowwise().mean();
      CHECK_MAT(q.Points(), Mat(c), 1e-15, "location", nm);
    }
  }
}

PBT_SUB("gauss-legendre", 60, 400, "GaussLegendre(n), n up to 300; non-trivial: n >= 3") {
  const int n = g.i(1, g.b(0.2) ? 300 : 60);
  g.desc() << "n=" << n;
  g.nontrivial(n >= 3);
  const auto [p, w] = lf::quad::GaussLegendre(n);
  CHECK(p.size() == n && w.size() == n, "size", "");
  for (int i = 0; i < n; ++i) {
    CHECK(p(i) > 0 && p(i) < 1, "open", "point " << i << " = " << p(i));
    CHECK(w(i) > 0, "positive", "weight " << i << " = " << w(i));
    if (i > 0) CHECK(p(i) > p(i - 1), "order", "points " << p(i - 1) << " " << p(i));
    CHECK_NEAR(p(i) + p(n - 1 - i), 1.0, 1e-15, "symmetry", i);
  }
  Vec s = Vec::Zero(2 * n);
  for (int i = 0; i < n; ++i) {
    const auto v = OrthoLeg(2 * n - 1, p(i));
    for (int k = 0; k < 2 * n; ++k) s(k) += w(i) * v[k];
  }
  for (int k = 0; k < 2 * n; ++k) CHECK_NEAR(s(k), (k == 0 ? 1.0 : 0.0), 1e-13 * (4 + n), "exact", "n=" << n << " k=" << k);
}

PBT_SUB("gauss-jacobi", 400, 4000, "GaussJacobi(n, alpha, beta), exponents in (-0.95, 11]; non-trivial: n >= 2 and not both exponents integers") {
  const int n = g.i(1, g.b(0.2) ? 60 : 15);
  auto expo = [&](double lo) {
    return g.b(0.3) ? static_cast<double>(g.i(0, 4)) : g.b(0.3) ? -0.5 + g.i(0, 6) * 0.5 : lo + (g.b(0.3) ? 12 : 2.5) * g.i(0, 1000) / 1000.0;
  };
  double a = expo(-0.95);
  double b = expo(-0.95);
  g.desc() << "n=" << n << " alpha=" << a << " beta=" << b;
  g.nontrivial(n >= 2 && (a != std::floor(a) || b != std::floor(b)));
  const auto [p, w] = lf::quad::GaussJacobi(n, a, b);
  CHECK(p.size() == n && w.size() == n && p.allFinite() && w.allFinite(), "size", "");
  for (int i = 0; i < n; ++i) {
    CHECK(p(i) > -1 && p(i) < 1, "open", "point " << i << " = " << p(i));
    CHECK(w(i) > 0, "positive", "weight " << i << " = " << w(i));
    for (int j = 0; j < i; ++j) CHECK(p(i) != p(j), "distinct", "points " << i << "," << j << " = " << p(i));
  }
  const double m0 = std::pow(2.0, a + b + 1) * boost::math::beta(a + 1, b + 1);
  Vec s = Vec::Zero(2 * n);
  Vec mag = Vec::Zero(2 * n);
  for (int i = 0; i < n; ++i) {
    const auto v = Jac(2 * n - 1, a, b, p(i));
    for (int k = 0; k < 2 * n; ++k) {
      s(k) += w(i) * v[k];
      mag(k) += w(i) * std::abs(v[k]);
    }
  }
  for (int k = 0; k < 2 * n; ++k)
    CHECK_NEAR(s(k), (k == 0 ? m0 : 0.0), 1e-12 * (4 + n) * (mag(k) + m0), "exact", "Jacobi polynomial " << k);
  // reflection x -> -x exchanges the exponents
  const auto [pr, wr] = lf::quad::GaussJacobi(n, b, a);
  std::vector<int> o1(n), o2(n);
  for (int i = 0; i < n; ++i) o1[i] = o2[i] = i;
  std::sort(o1.begin(), o1.end(), [&p = p](int i, int j) { return p(i) < p(j); });
  std::sort(o2.begin(), o2.end(), [&pr = pr](int i, int j) { return pr(i) > pr(j); });
  for (int i = 0; i < n; ++i) {
    CHECK_NEAR(p(o1[i]), -pr(o2[i]), 1e-12, "reflect", "point " << i);
    CHECK_NEAR(w(o1[i]), wr(o2[i]), 1e-9 * m0, "reflect", "weight " << i);
  }
}

PBT_SUB("cache", 60, 400, "history of QuadRuleCache::Get calls with moves; non-trivial: some (element, degree) requested twice and degrees not monotone") {
  auto c = std::make_unique<lf::quad::QuadRuleCache>();
  std::map<std::pair<int, int>, const QuadRule *> seen;
  std::map<std::pair<int, int>, QuadRule> fresh;
  const int steps = g.i(3, 30);
  int lastdeg = -1;
  bool rep = false;
  bool dec = false;
  const RefEl els[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  for (int st = 0; st < steps; ++st) {
    if (g.b(0.1)) {
      if (g.b()) c = std::make_unique<lf::quad::QuadRuleCache>(std::move(*c));
      else {
        auto d = std::make_unique<lf::quad::QuadRuleCache>();
        if (g.b()) (void)d->Get(els[g.i(0, 2)], g.i(0, 10));
        *d = std::move(*c);
        c = std::move(d);
      }
      g.label("move");
      g.desc() << "move; ";
      continue;
    }
    const int e = g.i(0, 2);
    const int deg = g.i(0, g.b(0.1) ? 60 : 12);
    g.desc() << "Get(" << els[e].ToString() << "," << deg << "); ";
    dec = dec || deg < lastdeg;
    lastdeg = deg;
    const QuadRule &q = c->Get(els[e], deg);
    const auto key = std::make_pair(e, deg);
    if (!fresh.count(key)) fresh.emplace(key, lf::quad::make_QuadRule(els[e], deg));
    CHECK(SameRule(q, fresh.at(key)), "fresh", "cached rule differs from make_QuadRule for " << els[e].ToString() << " degree " << deg);
    if (seen.count(key)) {
      rep = true;
      CHECK(seen[key] == &q, "address", "second request returns another object for " << els[e].ToString() << " degree " << deg);
    }
    seen[key] = &q;
    for (const auto &[k, ptr] : seen)
      CHECK(SameRule(*ptr, fresh.at(k)), "stale", "reference to rule for " << els[k.first].ToString() << " degree " << k.second << " changed");
  }
  g.nontrivial(rep && dec);
}
