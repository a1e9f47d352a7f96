// C06: mesh function expressions evaluate to the pointwise expression
#include <lf/mesh/utils/utils.h>

#include <complex>

#include "gen/meshes.h"
using namespace gen;
namespace lmu = lf::mesh::utils;
using lf::mesh::Entity;
using lmu::operator+;
using lmu::operator-;
using lmu::operator*;
using lmu::adjoint;
using lmu::conjugate;
using lmu::squaredNorm;
using lmu::transpose;
using cd = std::complex<double>;
using CM = Eigen::MatrixXcd;

// a type without linear algebra structure that only supports + - * and unary -
struct Odd {
  double a = 0, b = 0;
  Odd() = default;
  Odd(double x, double y) : a(x), b(y) {}
  Odd operator+(const Odd &o) const { return {a + o.a, b - o.b}; }
  Odd operator-(const Odd &o) const { return {a - o.a, b + 2 * o.b}; }
  Odd operator*(const Odd &o) const { return {a * o.b, b + o.a}; }
  Odd operator-() const { return {-b, a}; }
};
enum VKind { kScal, kMat, kArr, kOdd };
template <class T>
struct Tr {
  static constexpr VKind kind = kScal;
  using S = T;
};
template <class S_, int R, int C, int Opt, int MR, int MC>
struct Tr<Eigen::Matrix<S_, R, C, Opt, MR, MC>> {
  static constexpr VKind kind = kMat;
  using S = S_;
};
template <class S_, int R, int C, int Opt, int MR, int MC>
struct Tr<Eigen::Array<S_, R, C, Opt, MR, MC>> {
  static constexpr VKind kind = kArr;
  using S = S_;
};
template <>
struct Tr<Odd> {
  static constexpr VKind kind = kOdd;
  using S = double;
};
template <class S>
S MakeS(double u, double v) {
  if constexpr (std::is_same_v<S, cd>) return {u, v};
  else if constexpr (std::is_integral_v<S>) return static_cast<S>(std::lround(3 * u));
  else return static_cast<S>(u);
}
template <class T>
CM ToC(const T &v) {
  if constexpr (Tr<T>::kind == kOdd) {
    CM m(2, 1);
    m << v.a, v.b;
    return m;
  } else if constexpr (Tr<T>::kind == kScal) {
    CM m(1, 1);
    m(0, 0) = cd(v);
    return m;
  } else {
    CM m(v.rows(), v.cols());
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j) m(i, j) = cd(v(i, j));
    return m;
  }
}

// a mesh function with entity- and point-dependent values of type T; R,C: runtime size
template <class T>
struct TestMF {
  double s[4];
  int R, C;
  std::vector<T> operator()(const Entity &e, const Eigen::MatrixXd &loc) const {
    std::vector<T> r;
    const Mat x = e.Geometry()->Global(loc);
    for (int k = 0; k < loc.cols(); ++k) r.push_back(Value(x.col(k), e.RefEl().Id()));
    return r;
  }
  T Value(const Vec &x, int salt) const {
    auto f = [&](int i, int j, int p) {
      return std::sin(s[0] + s[1] * x(0) + s[2] * x(1) + s[3] * (1 + i + 2.3 * j) + 1.7 * p + 0.1 * salt) * 2.0;
    };
    if constexpr (Tr<T>::kind == kOdd) return Odd(f(0, 0, 0), f(1, 0, 0));
    else if constexpr (Tr<T>::kind == kScal) return MakeS<T>(f(0, 0, 0), f(0, 0, 1));
    else {
      T m;
      if constexpr (T::RowsAtCompileTime == Eigen::Dynamic || T::ColsAtCompileTime == Eigen::Dynamic) m.resize(R, C);
      for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j) m(i, j) = MakeS<typename Tr<T>::S>(f(i, j, 0), f(i, j, 1));
      return m;
    }
  }
};
struct Ctx {
  pbt::G &g;
  HMesh m;
  const Entity *e = nullptr;
  Mat loc;
};
static Ctx MakeCtx(pbt::G &g) {
  MeshOpt o;
  o.max_n = 2;
  o.unit_scale = true;
  o.allow_curved = true;
  Ctx c{g, RandMesh(g, o)};
  const int cod = g.i(0, 2);
  c.e = c.m.mesh->EntityByIndex(cod, g.i(0, static_cast<int>(c.m.mesh->NumEntities(cod)) - 1));
  const int n = g.i(1, 6);
  c.loc = cod == 2 ? Mat(0, n) : RandRefPoints(g, c.e->RefEl(), n);
  g.nontrivial(n > 1);
  return c;
}
template <class T>
TestMF<T> MF(pbt::G &g, int R = 1, int C = 1) {
  TestMF<T> m;
  for (double &x : m.s) x = g.r(-2, 2);
  m.R = R;
  m.C = C;
  return m;
}
static CM MatMul(const CM &a, const CM &b) {
  CM r = CM::Zero(a.rows(), b.cols());
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < b.cols(); ++j)
      for (int k = 0; k < a.cols(); ++k) r(i, j) += a(i, k) * b(k, j);
  return r;
}
template <class A, class B>
CM Ref2(char op, const A &a, const B &b) {
  const CM x = ToC(a);
  const CM y = ToC(b);
  if (op == '+') return x + y;
  if (op == '-') return x - y;
  constexpr VKind ka = Tr<A>::kind;
  constexpr VKind kb = Tr<B>::kind;
  if (ka == kScal) return x(0, 0) * y;
  if (kb == kScal) return y(0, 0) * x;
  if (ka == kMat) return MatMul(x, y);
  return x.cwiseProduct(y);
}
template <>
CM Ref2<Odd, Odd>(char op, const Odd &a, const Odd &b) {
  return ToC(op == '+' ? a + b : (op == '-' ? a - b : a * b));
}
static const char *kKey[] = {"sum", "difference", "product"};
template <class V>
static void Same(const Ctx &c, const V &got, const std::vector<CM> &want, const std::string &key) {
  const double eps = std::is_same_v<typename Tr<typename V::value_type>::S, float> ? 1e-5 : 1e-12;
  CHECK(got.size() == want.size(), key + ": number of values", got.size() << " instead of " << want.size());
  for (size_t k = 0; k < want.size(); ++k) CHECK_MAT(ToC(got[k]), want[k], eps * (1 + want[k].cwiseAbs().maxCoeff()), key, "point " << k);
}
template <bool MUL, class A, class B>
static void Bin(Ctx &c, char op, int R1, int C1, int R2, int C2, const char *what) {
  pbt::G &g = c.g;
  const auto a = MF<A>(g, R1, C1);
  const auto b = MF<B>(g, R2, C2);
  const auto va = a(*c.e, c.loc);
  const auto vb = b(*c.e, c.loc);
  std::vector<CM> want;
  for (size_t k = 0; k < va.size(); ++k) want.push_back(Ref2(op, va[k], vb[k]));
  const std::string key = std::string(kKey[op == '+' ? 0 : (op == '-' ? 1 : 2)]) + " " + what;
  g.label(key);
  if constexpr (MUL) {
    Same(c, (a * b)(*c.e, c.loc), want, key);
  } else {
    if (op == '+') Same(c, (a + b)(*c.e, c.loc), want, key);
    else Same(c, (a - b)(*c.e, c.loc), want, key);
  }
}
#define RM Eigen::RowMajor
using M2 = Eigen::Matrix2d;
using M2R = Eigen::Matrix<double, 2, 2, RM>;
using M23 = Eigen::Matrix<double, 2, 3>;
using M23R = Eigen::Matrix<double, 2, 3, RM>;
using M32 = Eigen::Matrix<double, 3, 2>;
using MX = Eigen::MatrixXd;
using MXR = Eigen::Matrix<double, -1, -1, RM>;
using M2X = Eigen::Matrix<double, 2, -1>;
using MX2 = Eigen::Matrix<double, -1, 2>;
using V2 = Eigen::Vector2d;
using VX = Eigen::VectorXd;
using R2 = Eigen::RowVector2d;
using RX = Eigen::RowVectorXd;
using M2c = Eigen::Matrix2cd;
using M2cR = Eigen::Matrix<cd, 2, 2, RM>;
using V2c = Eigen::Vector2cd;
using MXc = Eigen::MatrixXcd;
using A2 = Eigen::Array22d;
using A2R = Eigen::Array<double, 2, 2, RM>;
using A23 = Eigen::Array<double, 2, 3>;
using A23R = Eigen::Array<double, 2, 3, RM>;
using AX = Eigen::ArrayXXd;
using AXR = Eigen::Array<double, -1, -1, RM>;
using AV = Eigen::Array2d;
using A2c = Eigen::Array22cd;
using M2i = Eigen::Matrix2i;

// element-wise binary operators: identical shapes
PBT_SUB("sum and difference", 60000, 600000,
        "random entity (any codimension) and 1..6 points; operands of 30 combinations of scalar, complex, integer, matrix, array and opaque types, "
        "fixed/dynamic/mixed sizes and both storage orders; oracle: entry-wise loop at every point; non-trivial: at least 2 points") {
  Ctx c = MakeCtx(g);
  const char op = g.b() ? '+' : '-';
  const int n = g.i(1, 4);
  const int m = g.i(1, 4);
#define E(A, B, r, k)                                     \
  case __COUNTER__ - kBase0:                              \
    Bin<false, A, B>(c, op, r, k, r, k, #A " " #B);              \
    break;
  constexpr int kBase0 = __COUNTER__ + 1;
  switch (g.i(0, 33)) {
    E(double, double, 1, 1) E(cd, cd, 1, 1) E(int, int, 1, 1) E(float, float, 1, 1) E(Odd, Odd, 1, 1)
    E(M2, M2, 2, 2) E(M2, M2R, 2, 2) E(M2R, M2, 2, 2) E(M2R, M2R, 2, 2) E(M23, M23R, 2, 3) E(M23R, M23R, 2, 3) E(M23R, MX, 2, 3)
    E(MX, M23R, 2, 3) E(MX, MX, n, m) E(MXR, MX, n, m) E(MX, MXR, n, m) E(M2X, MX, 2, m) E(M2X, M2X, 2, m) E(M2X, M23, 2, 3)
    E(V2, V2, 2, 1) E(V2, VX, 2, 1) E(VX, VX, n, 1) E(R2, R2, 1, 2) E(RX, R2, 1, 2) E(M2c, M2cR, 2, 2) E(V2c, V2c, 2, 1) E(MXc, M2c, 2, 2)
    E(A2, A2, 2, 2) E(A2, A2R, 2, 2) E(A23R, A23R, 2, 3) E(A23, AX, 2, 3) E(AX, AXR, n, m) E(AV, AV, 2, 1) E(M2i, M2i, 2, 2)
    default: break;
  }
}

PBT_SUB("product", 60000, 600000,
        "as above for the product: scalars, matrix products of fixed/dynamic/mixed size, coefficient-wise array products, scalar times "
        "matrix/array in both orders, real times complex, opaque types; non-trivial: at least 2 points") {
  Ctx c = MakeCtx(g);
  const int n = g.i(1, 4);
  const int m = g.i(1, 4);
  const int l = g.i(1, 4);
#define P(A, r1, c1, B, r2, c2)                            \
  case __COUNTER__ - kBase1:                               \
    Bin<true, A, B>(c, '*', r1, c1, r2, c2, #A " " #B);          \
    break;
  constexpr int kBase1 = __COUNTER__ + 1;
  switch (g.i(0, 50)) {
    P(double, 1, 1, double, 1, 1) P(double, 1, 1, cd, 1, 1) P(cd, 1, 1, double, 1, 1) P(cd, 1, 1, cd, 1, 1) P(int, 1, 1, int, 1, 1)
    P(Odd, 1, 1, Odd, 1, 1)
    P(M2, 2, 2, M2, 2, 2) P(M2R, 2, 2, M2R, 2, 2) P(M2, 2, 2, M2R, 2, 2) P(M2, 2, 2, M23, 2, 3) P(M23R, 2, 3, M32, 3, 2) P(M32, 3, 2, M23R, 2, 3)
    P(M2, 2, 2, V2, 2, 1) P(R2, 1, 2, M2R, 2, 2) P(R2, 1, 2, V2, 2, 1) P(V2, 2, 1, R2, 1, 2) P(MX, n, m, MX, m, l) P(MXR, n, m, MX, m, l)
    P(MX, n, 2, M2, 2, 2) P(M2, 2, 2, MX, 2, n) P(M2X, 2, n, MX2, n, 2) P(MX2, n, 2, M2X, 2, m) P(MX2, n, 2, V2, 2, 1) P(RX, 1, n, VX, n, 1)
    P(VX, n, 1, RX, 1, m) P(M2c, 2, 2, V2c, 2, 1) P(M2, 2, 2, V2c, 2, 1) P(M2c, 2, 2, V2, 2, 1)
    P(double, 1, 1, M2, 2, 2) P(double, 1, 1, M23R, 2, 3) P(M23R, 2, 3, double, 1, 1) P(M2, 2, 2, double, 1, 1) P(double, 1, 1, MX, n, m)
    P(MXR, n, m, double, 1, 1) P(double, 1, 1, V2, 2, 1) P(RX, 1, n, double, 1, 1) P(cd, 1, 1, M2c, 2, 2) P(M2cR, 2, 2, cd, 1, 1)
    P(double, 1, 1, M2c, 2, 2)
    P(A2, 2, 2, A2, 2, 2) P(A2, 2, 2, A2R, 2, 2) P(A23R, 2, 3, A23R, 2, 3) P(A23, 2, 3, AX, 2, 3) P(AX, n, m, AXR, n, m) P(A2c, 2, 2, A2c, 2, 2)
    P(double, 1, 1, A23, 2, 3) P(A23R, 2, 3, double, 1, 1) P(double, 1, 1, AX, n, m) P(AV, 2, 1, double, 1, 1) P(AV, 2, 1, AV, 2, 1) P(cd, 1, 1, A2c, 2, 2)
    default: break;
  }
}

template <class T>
static void Un(Ctx &c, int R, int C, const char *what) {
  pbt::G &g = c.g;
  const auto a = MF<T>(g, R, C);
  const auto va = a(*c.e, c.loc);
  const size_t n = va.size();
  std::vector<CM> w(n);
  const std::string ty = std::string(" ") + what;
  g.label(what);
  constexpr VKind K = Tr<T>::kind;
  for (size_t k = 0; k < n; ++k) {
    if constexpr (K == kOdd) w[k] = ToC(-va[k]);
    else w[k] = -ToC(va[k]);
  }
  Same(c, (-a)(*c.e, c.loc), w, "minus" + ty);
  if constexpr (K == kMat || (K == kScal && std::is_arithmetic_v<T>)) {
    for (size_t k = 0; k < n; ++k) {
      const CM z = ToC(va[k]);
      double s = 0;
      for (int i = 0; i < z.size(); ++i) s += std::norm(z(i));
      w[k] = CM::Constant(1, 1, s);
    }
    Same(c, squaredNorm(a)(*c.e, c.loc), w, "squaredNorm" + ty);
  }
  if constexpr (K == kMat || K == kArr) {
    for (size_t k = 0; k < n; ++k) w[k] = ToC(va[k]).transpose();
    Same(c, transpose(a)(*c.e, c.loc), w, "transpose" + ty);
  }
  if constexpr (K == kMat) {
    for (size_t k = 0; k < n; ++k) w[k] = ToC(va[k]).adjoint();
    Same(c, adjoint(a)(*c.e, c.loc), w, "adjoint" + ty);
  }
  if constexpr (K != kOdd && !std::is_integral_v<typename Tr<T>::S>) {
    for (size_t k = 0; k < n; ++k) w[k] = ToC(va[k]).conjugate();
    Same(c, conjugate(a)(*c.e, c.loc), w, "conjugate" + ty);
  }
}
PBT_SUB("unary", 60000, 600000,
        "unary minus, squared norm, transpose, adjoint and conjugate of 24 value types (fixed/dynamic, both storage orders, complex, integer, opaque) "
        "at 1..6 points of a random entity; non-trivial: at least 2 points") {
  Ctx c = MakeCtx(g);
  const int n = g.i(1, 4);
  const int m = g.i(1, 4);
#define U(T, r, k)                         \
  case __COUNTER__ - kBase2:               \
    Un<T>(c, r, k, #T);                    \
    break;
  constexpr int kBase2 = __COUNTER__ + 1;
  switch (g.i(0, 26)) {
    U(double, 1, 1) U(float, 1, 1) U(int, 1, 1) U(cd, 1, 1) U(Odd, 1, 1) U(M2, 2, 2) U(M2R, 2, 2) U(M23, 2, 3) U(M23R, 2, 3) U(MX, n, m) U(MXR, n, m)
    U(M2X, 2, n) U(MX2, n, 2) U(V2, 2, 1) U(VX, n, 1) U(R2, 1, 2) U(RX, 1, n) U(M2c, 2, 2) U(M2cR, 2, 2) U(V2c, 2, 1) U(MXc, n, m) U(A2, 2, 2)
    U(A23R, 2, 3) U(AX, n, m) U(AXR, n, m) U(AV, 2, 1) U(A2c, 2, 2)
    default: break;
  }
}

PBT_SUB("nested expressions and sources", 40000, 400000,
        "constant and global mesh functions, copies, and nested expressions mixing operators, types and sources; oracle: pointwise evaluation; "
        "non-trivial: at least 2 points") {
  Ctx c = MakeCtx(g);
  const Mat X = c.e->Geometry()->Global(c.loc);
  const int n = static_cast<int>(c.loc.cols());
  const auto s1 = MF<double>(g);
  const auto s2 = MF<double>(g);
  const auto v = MF<V2>(g);
  const auto mx = MF<MX>(g, 2, 2);
  const auto mr = MF<M2R>(g);
  const auto z = MF<cd>(g);
  const double cst = g.num();
  const double p0 = g.r(-1, 1);
  const double p1 = g.r(-1, 1);
  lmu::MeshFunctionConstant<double> k(cst);
  Eigen::Matrix2d mk;
  mk << g.num(), g.num(), g.num(), g.num();
  lmu::MeshFunctionConstant<Eigen::Matrix2d> km(mk);
  lmu::MeshFunctionGlobal gl([&](const Eigen::Vector2d &x) { return p0 * x(0) * x(1) + p1; });
  lmu::MeshFunctionGlobal gv([&](const Eigen::Vector2d &x) { return Eigen::Vector2d(x(1) * p0, x(0) - p1); });
  auto &e = *c.e;
  const auto vs1 = s1(e, c.loc);
  const auto vs2 = s2(e, c.loc);
  const auto vv = v(e, c.loc);
  const auto vmx = mx(e, c.loc);
  const auto vmr = mr(e, c.loc);
  const auto vz = z(e, c.loc);
  auto GL = [&](int i) { return p0 * X(0, i) * X(1, i) + p1; };
  auto GV = [&](int i) { return Eigen::Vector2d(X(1, i) * p0, X(0, i) - p1); };
  std::vector<CM> w(n);
  for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, cst);
  Same(c, k(e, c.loc), w, "constant");
  for (int i = 0; i < n; ++i) w[i] = ToC(mk);
  Same(c, km(e, c.loc), w, "constant matrix");
  for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, GL(i));
  Same(c, gl(e, c.loc), w, "global");
  for (int i = 0; i < n; ++i) w[i] = ToC(GV(i));
  Same(c, gv(e, c.loc), w, "global vector");
  const int which = g.i(0, 6);
  g.label("form " + std::to_string(which));
  switch (which) {
    case 0: {
      auto f = -(s1 * s2) + gl * k - s1;
      auto h = f;
      for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, -(vs1[i] * vs2[i]) + GL(i) * cst - vs1[i]);
      Same(c, f(e, c.loc), w, "scalar expression");
      Same(c, h(e, c.loc), w, "copied expression");
      break;
    }
    case 1: {
      auto f = squaredNorm(gv - v) * s1 - k;
      for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, (GV(i) - vv[i]).squaredNorm() * vs1[i] - cst);
      Same(c, f(e, c.loc), w, "norm expression");
      break;
    }
    case 2: {
      auto f = transpose(km * v + gv) * (mr * v);
      for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, (mk * vv[i] + GV(i)).dot(vmr[i] * vv[i]));
      Same(c, f(e, c.loc), w, "bilinear expression");
      break;
    }
    case 3: {
      auto f = (mr + km) * mx - transpose(mx);
      for (int i = 0; i < n; ++i) w[i] = MatMul(ToC(vmr[i]) + ToC(mk), ToC(vmx[i])) - ToC(vmx[i]).transpose();
      Same(c, f(e, c.loc), w, "matrix expression");
      break;
    }
    case 4: {
      auto f = conjugate(z) * z + z * s1;
      for (int i = 0; i < n; ++i) w[i] = CM::Constant(1, 1, std::norm(vz[i]) + vz[i] * vs1[i]);
      Same(c, f(e, c.loc), w, "complex expression");
      break;
    }
    case 5: {
      auto f = (gl * v - gv * k) * s2;
      for (int i = 0; i < n; ++i) w[i] = ToC(Eigen::Vector2d((GL(i) * vv[i] - cst * GV(i)) * vs2[i]));
      Same(c, f(e, c.loc), w, "scaled vectors");
      break;
    }
    default: {
      // user-supplied operators receive the full vectors of values
      auto f = lmu::MeshFunctionBinary(
          [](const std::vector<double> &a, const std::vector<double> &b, int) {
            std::vector<double> r;
            for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - 2 * b[b.size() - 1 - i]);
            return r;
          },
          s1, gl);
      auto h = lmu::MeshFunctionUnary([](const std::vector<double> &a, int) { return std::vector<double>(a.rbegin(), a.rend()); }, f);
      for (int i = 0; i < n; ++i) w[n - 1 - i] = CM::Constant(1, 1, vs1[i] - 2 * GL(n - 1 - i));
      Same(c, h(e, c.loc), w, "user operators");
    }
  }
}
