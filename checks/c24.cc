// C24: VTK output describes the mesh and the data that were written.
#include <lf/io/vtk_writer.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/utils/utils.h>

#include "gen/gmsh.h"
#include "gen/meshcheck.h"
#include "gen/vtk.h"
using namespace gen;
namespace io = lf::io;
namespace {

using Lat = std::vector<std::pair<int, int>>;
/// Lagrange points of a VTK triangle, integer coordinates
void TriLat(int n, int off, Lat &l) {
  if (n < 0) return;
  if (n == 0) {
    l.push_back({off, off});
    return;
  }
  l.push_back({off, off});
  l.push_back({off + n, off});
  l.push_back({off, off + n});
  for (int i = 1; i < n; ++i) l.push_back({off + i, off});
  for (int i = 1; i < n; ++i) l.push_back({off + n - i, off + i});
  for (int i = 1; i < n; ++i) l.push_back({off, off + n - i});
  if (n >= 3) TriLat(n - 3, off + 1, l);
}
Lat QuadLat(int n) {
  Lat l{{0, 0}, {n, 0}, {n, n}, {0, n}};
  for (int i = 1; i < n; ++i) l.push_back({i, 0});
  for (int i = 1; i < n; ++i) l.push_back({n, i});
  for (int i = 1; i < n; ++i) l.push_back({i, n});
  for (int i = 1; i < n; ++i) l.push_back({0, i});
  for (int j = 1; j < n; ++j)
    for (int i = 1; i < n; ++i) l.push_back({i, j});
  return l;
}

/// what a point of the file is: vertex / point of an edge / point of a cell
using Key = std::array<int, 4>;

template <class T>
struct TypeName;
#define TN(T, N)                                \
  template <>                                   \
  struct TypeName<T> {                          \
    static std::string name() { return N; }     \
  };
TN(char, "char")
TN(unsigned char, "unsigned_char")
TN(short, "short")
TN(unsigned short, "unsigned_short")
TN(int, "int")
TN(unsigned, "unsigned_int")
TN(long, "long")
TN(unsigned long, "unsigned_long")
TN(float, "float")
TN(double, "double")

template <class T>
T RandVal(pbt::G &g) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (g.i(0, 5)) {
      case 0: return static_cast<T>(g.i(-3, 3));
      case 1: return static_cast<T>(g.r(-1, 1) * std::pow(10., g.i(-20, 20)));
      case 2: return static_cast<T>(1. + g.r(-1e-4, 1e-4));
      default: return static_cast<T>(g.r(-100, 100));
    }
  } else {
    if (g.b(0.2)) return g.b() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    if (g.b(0.3)) return static_cast<T>(g.raw(0xffffffffu) * 0x9E3779B97F4A7C15ull);
    return static_cast<T>(g.i(0, 100) - (std::is_signed_v<T> ? 50 : 0));
  }
}
template <class V>
V RandVec(pbt::G &g) {
  const int n = V::RowsAtCompileTime == Eigen::Dynamic ? g.i(2, 3) : V::RowsAtCompileTime;
  V v(n);
  for (int k = 0; k < n; ++k) v[k] = RandVal<typename V::Scalar>(g);
  return v;
}
template <class T>
T RandAny(pbt::G &g) {
  if constexpr (std::is_arithmetic_v<T>) return RandVal<T>(g);
  else return RandVec<T>(g);
}

/// data set that is defined on some entities only
template <class T>
class Part : public lf::mesh::utils::MeshDataSet<T> {
 public:
  Part(std::shared_ptr<const lf::mesh::Mesh> m, unsigned codim, std::vector<T> v, std::vector<bool> def)
      : m_(std::move(m)), codim_(codim), v_(std::move(v)), def_(std::move(def)) {}
  const T &operator()(const lf::mesh::Entity &e) const override {
    const unsigned i = m_->Index(e);
    if (e.Codim() != codim_ || !def_[i]) throw std::logic_error("data set read where it is not defined");
    return v_[i];
  }
  bool DefinedOn(const lf::mesh::Entity &e) const override { return e.Codim() == codim_ && def_[m_->Index(e)]; }

 private:
  std::shared_ptr<const lf::mesh::Mesh> m_;
  unsigned codim_;
  std::vector<T> v_;
  std::vector<bool> def_;
};

/// continuous function of the position, one value per component
struct Fct {
  Vec a, b;
  double s = 1;
  double at(const Vec &x, int comp) const { return s * (a[comp] + (1 + comp) * b.head(x.size()).dot(x) + std::sin(b.head(x.size()).dot(x) + comp)); }
};
template <class T>
struct MF {
  const Fct *f;
  int rows = 1;
  std::vector<T> operator()(const lf::mesh::Entity &e, const Mat &loc) const {
    const Mat x = e.Geometry()->Global(loc);
    std::vector<T> r;
    for (int k = 0; k < x.cols(); ++k) {
      if constexpr (std::is_arithmetic_v<T>) {
        r.push_back(static_cast<T>(f->at(x.col(k), 0)));
      } else {
        T v(rows);
        for (int c = 0; c < rows; ++c) v[c] = static_cast<typename T::Scalar>(f->at(x.col(k), c));
        r.push_back(v);
      }
    }
    return r;
  }
};

/// expected array: values[entry] = components
struct Exp {
  std::string name, type;
  int comps = 1;
  bool integral = false;
  std::vector<std::vector<double>> v;    // floating
  std::vector<std::vector<int64_t>> iv;  // integral
  double tol = 0;                        // absolute tolerance for sampled functions (integral: +-1)
};
template <class T>
void Push(Exp &e, const T &x) {
  if constexpr (std::is_arithmetic_v<T>) {
    if constexpr (std::is_integral_v<T>) e.iv.push_back({static_cast<int64_t>(x)});
    else e.v.push_back({static_cast<double>(x)});
  } else {
    std::vector<double> c(3, 0.);
    for (int k = 0; k < x.size(); ++k) c[k] = x[k];
    e.v.push_back(c);
  }
}
template <class T>
Exp NewExp(const std::string &name) {
  Exp e;
  e.name = name;
  if constexpr (std::is_arithmetic_v<T>) {
    e.type = TypeName<T>::name();
    e.integral = std::is_integral_v<T>;
  } else {
    e.type = TypeName<typename T::Scalar>::name();
    e.comps = 3;
  }
  return e;
}
/// expected arrays against the arrays of the file; perm: entry of the file -> entry of the expectation
void Compare(const std::vector<Exp> &ex, const std::vector<vtk::Array> &got, const std::vector<int> &perm, bool binary, const std::string &where) {
  std::map<std::string, const vtk::Array *> m;
  for (auto &a : got) {
    CHECK(!m.count(a.name), "attribute twice", where << " attribute '" << a.name << "' occurs twice");
    m[a.name] = &a;
  }
  CHECK(m.size() == ex.size(), "number of attributes", where << ": " << m.size() << " attributes instead of " << ex.size());
  for (auto &e : ex) {
    CHECK(m.count(e.name), "attribute missing", where << " attribute '" << e.name << "' missing");
    const vtk::Array &a = *m[e.name];
    CHECK(a.type == e.type, "attribute type", where << " attribute '" << e.name << "' of type " << e.type << " declared " << a.type);
    CHECK(a.comps == e.comps, "components", where << " attribute '" << e.name << "' has " << a.comps << " components");
    const size_t n = e.integral ? e.iv.size() : e.v.size();
    CHECK((e.integral ? a.iv.size() : a.v.size()) == n * e.comps, "attribute size", where << " attribute '" << e.name << "': " << a.iv.size() + a.v.size() << " values for " << n << " entries");
    for (size_t k = 0; k < n; ++k) {
      const size_t src = perm.empty() ? k : static_cast<size_t>(perm[k]);
      for (int c = 0; c < e.comps; ++c) {
        if (e.integral) {
          const int64_t x = e.iv[src][c], y = a.iv[k * e.comps + c];
          const bool ok = e.tol > 0 ? std::abs(static_cast<double>(x) - static_cast<double>(y)) <= 1 : x == y;
          CHECK(ok, "attribute value", where << " attribute '" << e.name << "' (" << e.type << (binary ? ", binary" : ", text") << ") entry " << k << ": " << y << " instead of " << x);
        } else {
          const double x = e.v[src][c], y = a.v[k * e.comps + c];
          const double eps = e.type == "float" ? 1e-6 : 1e-14;
          const double tol = e.tol + (binary ? 0. : eps * std::abs(x)) + (e.tol > 0 ? eps * 10 * std::abs(x) : 0.);
          CHECK(std::abs(x - y) <= tol, "attribute value", where << " attribute '" << e.name << "' (" << e.type << (binary ? ", binary" : ", text") << ") entry " << k << " component " << c << ": " << y << " instead of " << x);
        }
      }
    }
  }
}

std::string RandName(pbt::G &g, const std::vector<Exp> &used) {
  static const std::vector<std::string> pool{"u", "v", "velocity", "p_h", "material-id", "a.b", "U", "x0", "rank", "grad(u)"};
  for (;;) {
    std::string s = g.pick(pool);
    if (g.b(0.3)) s += std::to_string(g.i(0, 99));
    bool dup = false;
    for (auto &e : used) dup = dup || e.name == s;
    if (!dup) return s;
  }
}

struct Ctx {
  pbt::G &g;
  HMesh &hm;
  unsigned codim, order;
  io::VtkWriter &w;
  std::vector<Exp> point, cell;
  std::vector<Vec> bary;                     // barycentre images of the cells of the file
  Fct fct;
};

template <class T>
void AddMds(Ctx &c, bool point) {
  pbt::G &g = c.g;
  const unsigned cd = point ? 2 : c.codim;
  const int n = c.hm.mesh->NumEntities(cd);
  std::vector<T> v;
  std::vector<bool> def;
  const double p = g.b(0.4) ? 1. : g.r(0, 1);
  for (int k = 0; k < n; ++k) {
    v.push_back(RandAny<T>(g));
    def.push_back(g.b(p));
  }
  auto &list = point ? c.point : c.cell;
  const std::string name = RandName(g, list);
  Exp e = NewExp<T>(name);
  const bool dflt = g.b(0.5);
  T undef = RandAny<T>(g);
  const bool lfset = p == 1. && g.b(0.5);
  std::shared_ptr<lf::mesh::utils::MeshDataSet<T>> mds;
  if (lfset) {
    auto s = std::make_shared<lf::mesh::utils::CodimMeshDataSet<T>>(c.hm.mesh, cd);
    for (const auto *en : c.hm.mesh->Entities(cd)) (*s)(*en) = v[c.hm.mesh->Index(*en)];
    mds = s;
  } else {
    mds = std::make_shared<Part<T>>(c.hm.mesh, cd, v, def);
  }
  if (dflt) {
    if (point) c.w.WritePointData(name, *mds);
    else c.w.WriteCellData(name, *mds);
    if constexpr (std::is_arithmetic_v<T>) undef = T(0);
    else undef.setZero();
  } else {
    if (point) c.w.WritePointData(name, *mds, undef);
    else c.w.WriteCellData(name, *mds, undef);
  }
  bool some = false;
  for (int k = 0; k < n; ++k) {
    some = some || !def[k];
    Push<T>(e, def[k] ? v[k] : undef);
  }
  if (some) g.label("undefined entities");
  list.push_back(e);
}

template <class T>
void AddFct(Ctx &c, bool point, const std::vector<Vec> &pos) {
  pbt::G &g = c.g;
  auto &list = point ? c.point : c.cell;
  const std::string name = RandName(g, list);
  Exp e = NewExp<T>(name);
  MF<T> mf{&c.fct, 1};
  if constexpr (!std::is_arithmetic_v<T>) mf.rows = T::RowsAtCompileTime == Eigen::Dynamic ? g.i(2, 3) : T::RowsAtCompileTime;
  if (point) c.w.WritePointData(name, mf);
  else c.w.WriteCellData(name, mf);
  double big = 0;
  for (auto &x : pos) {
    if constexpr (std::is_arithmetic_v<T>) {
      Push<T>(e, static_cast<T>(c.fct.at(x, 0)));
      big = std::max(big, std::abs(c.fct.at(x, 0)));
    } else {
      Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, 1> v(mf.rows);
      for (int k = 0; k < mf.rows; ++k) {
        v[k] = static_cast<typename T::Scalar>(c.fct.at(x, k));
        big = std::max(big, std::abs(c.fct.at(x, k)));
      }
      Push(e, v);
    }
  }
  e.tol = (e.type == "float" ? 1e-6 : 1e-9) * std::max(big, 1.);
  list.push_back(e);
}

template <class F>
void ByType(int k, F &&f) {
  switch (k) {
    case 0: return f(std::type_identity<unsigned char>{});
    case 1: return f(std::type_identity<char>{});
    case 2: return f(std::type_identity<unsigned>{});
    case 3: return f(std::type_identity<int>{});
    case 4: return f(std::type_identity<float>{});
    case 5: return f(std::type_identity<double>{});
    case 6: return f(std::type_identity<Eigen::Vector2d>{});
    case 7: return f(std::type_identity<Eigen::Vector2f>{});
    case 8: return f(std::type_identity<Eigen::Vector3d>{});
    case 9: return f(std::type_identity<Eigen::Vector3f>{});
    case 10: return f(std::type_identity<Eigen::VectorXd>{});
    default: return f(std::type_identity<Eigen::VectorXf>{});
  }
}

/// The call is rejected with an LfException and leaves the writer usable
template <class F>
void MustThrow(F &&f, const char *what) {
  bool ok = false;
  try {
    f();
  } catch (const lf::base::LfException &) {
    ok = true;
  }
  CHECK(ok, "invalid name accepted", what << " was not rejected");
}
}  // namespace

PBT_SUB("writer", 60, 600, "a file with at least two cells and one attribute or an order above 1 was written and read back") {
  MeshOpt o;
  o.max_n = 4;
  o.allow_curved = o.allow_3d = o.allow_holes = o.allow_explicit_edges = true;
  HMesh hm = RandMesh(g, o);
  const View V = ReadMesh(*hm.mesh, false);
  const unsigned codim = g.b(0.25) ? 1 : 0;
  const unsigned order = g.b(0.35) ? 1 : g.i(1, 10);
  const bool binary = g.b();
  const int dim = hm.dim;
  g.label(binary ? "binary" : "text");
  g.label("codim " + std::to_string(codim));
  g.label("order " + std::to_string(order));
  if (hm.curved) g.label("curved");
  if (dim == 3) g.label("3d");

  // expected points
  std::vector<std::vector<Key>> cells;
  std::vector<int> types;
  std::map<Key, Vec> pos;
  const int N = order;
  auto edge_key = [&](int a, int b, int i) -> Key {  // i-th point from a
    if (i == 0) return {0, a, 0, 0};
    if (i == N) return {0, b, 0, 0};
    return a < b ? Key{1, a, b, i} : Key{1, b, a, N - i};
  };
  for (int k = 0; k < hm.X.cols(); ++k) pos[{0, k, 0, 0}] = hm.X.col(k);
  std::vector<Vec> bary;
  if (codim == 1) {
    for (auto &e : V.en) {
      std::vector<Key> ks{edge_key(e[0], e[1], 0), edge_key(e[0], e[1], N)};
      const int id = hm.eid.at({std::min(e[0], e[1]), std::max(e[0], e[1])});
      for (int i = 1; i < N; ++i) {
        ks.push_back(edge_key(e[0], e[1], i));
        pos[ks.back()] = hm.EdgeMap(id, e[0], static_cast<double>(i) / N);
      }
      cells.push_back(ks);
      types.push_back(N == 1 ? 3 : 68);
      bary.push_back(hm.EdgeMap(id, e[0], 0.5));
    }
  } else {
    for (size_t c = 0; c < hm.cells.size(); ++c) {
      auto &C = hm.cells[c];
      const bool tri = C.v.size() == 3;
      Lat l;
      if (tri) TriLat(N, 0, l);
      else l = QuadLat(N);
      std::vector<Key> ks;
      for (auto [i, j] : l) {
        Key k;
        if (j == 0) k = edge_key(C.v[0], C.v[1], i);
        else if (i == 0) k = tri ? edge_key(C.v[0], C.v[2], j) : edge_key(C.v[0], C.v[3], j);
        else if (tri && i + j == N) k = edge_key(C.v[1], C.v[2], j);
        else if (!tri && i == N) k = edge_key(C.v[1], C.v[2], j);
        else if (!tri && j == N) k = edge_key(C.v[3], C.v[2], i);
        else k = {2, static_cast<int>(c), i, j};
        ks.push_back(k);
        pos[k] = hm.CellMap(c, (Vec(2) << static_cast<double>(i) / N, static_cast<double>(j) / N).finished());
      }
      cells.push_back(ks);
      types.push_back(N == 1 ? (tri ? 5 : 9) : (tri ? 69 : 70));
      bary.push_back(hm.CellMap(c, tri ? Vec(Eigen::Vector2d(1. / 3, 1. / 3)) : Vec(Eigen::Vector2d(.5, .5))));
    }
  }
  std::vector<Key> keys;
  std::vector<Vec> kpos;
  std::map<Key, int> kidx;
  for (auto &[k, x] : pos) {
    kidx[k] = keys.size();
    keys.push_back(k);
    kpos.push_back(x);
  }

  gmsh::TmpFile tmp("left over from an earlier file, longer than nothing");
  std::vector<Exp> ep, ec, ef;
  {
    io::VtkWriter w(hm.mesh, tmp.path(), codim, order);
    const bool late = g.b();
    if (!late) w.setBinary(binary);
    Ctx c{g, hm, codim, order, w, {}, {}, bary, {}};
    c.fct.a = Vec(3);
    c.fct.b = Vec(3);
    for (int k = 0; k < 3; ++k) {
      c.fct.a[k] = g.r(3, 10);
      c.fct.b[k] = g.r(-1, 1) / std::max(hm.scale, CoordScale(hm.X));
    }
    c.fct.s = g.pick(std::vector<double>{1., 1., 1., 5.});
    const int na = g.i(0, 5);
    for (int k = 0; k < na; ++k) {
      const bool point = g.b();
      const int t = g.i(0, 11);
      const bool fct = g.b(0.5) || (point && order > 1);
      g.label(std::string(point ? "point " : "cell ") + (fct ? "function" : "data set"));
      ByType(t, [&](auto id) {
        using T = typename decltype(id)::type;
        if (!fct) {
          AddMds<T>(c, point);
          if (point) {  // the expectation is indexed by nodes; extend to all points
            Exp &e = c.point.back();
            Exp f = e;
            f.v.clear();
            f.iv.clear();
            for (auto &key : keys) {
              if (e.integral) f.iv.push_back(e.iv[key[1]]);
              else f.v.push_back(e.v[key[1]]);
            }
            e = f;
          }
        } else {
          AddFct<T>(c, point, point ? kpos : bary);
        }
      });
    }
    const int nf = g.b(0.5) ? 0 : g.i(1, 3);
    for (int k = 0; k < nf; ++k) {
      const std::string name = RandName(g, ef);
      const int n = g.i(0, 4);
      auto add = [&](auto x) {
        using T = decltype(x);
        std::vector<T> v;
        Exp e = NewExp<T>(name);
        for (int i = 0; i < n; ++i) {
          v.push_back(RandVal<T>(g));
          Push<T>(e, v.back());
        }
        w.WriteGlobalData(name, v);
        ef.push_back(e);
      };
      const int t = g.i(0, 2);
      if (t == 0) add(int{});
      else if (t == 1) add(float{});
      else add(double{});
      if (n == 0) g.label("empty global data");
    }
    if (g.b(0.3)) {
      g.label("rejected names");
      lf::mesh::utils::CodimMeshDataSet<double> cd(hm.mesh, codim, 1.), nd(hm.mesh, 2, 1.);
      const MF<double> mf{&c.fct, 1};
      if (!c.cell.empty()) {
        MustThrow([&] { w.WriteCellData(c.cell[0].name, cd); }, "duplicate cell data name");
        MustThrow([&] { w.WriteCellData(c.cell[0].name, mf); }, "duplicate cell data name (function)");
      }
      if (!c.point.empty()) {
        if (order == 1) MustThrow([&] { w.WritePointData(c.point[0].name, nd); }, "duplicate point data name");
        MustThrow([&] { w.WritePointData(c.point[0].name, mf); }, "duplicate point data name (function)");
      }
      if (!ef.empty()) MustThrow([&] { w.WriteGlobalData(ef[0].name, std::vector<int>{1, 2}); }, "duplicate global data name");
      const std::string sp = g.pick(std::vector<std::string>{"a b", " a", "a ", " "});
      MustThrow([&] { w.WriteCellData(sp, cd); }, "cell data name with space");
      MustThrow([&] { w.WritePointData(sp, mf); }, "point data name with space");
      MustThrow([&] { w.WriteGlobalData(sp, std::vector<double>{1.}); }, "global data name with space");
    }
    if (late) w.setBinary(binary);
    ep = c.point;
    ec = c.cell;
  }
  g.desc() << "codim " << codim << " order " << order << (binary ? " binary" : " text") << " attributes " << ep.size() << "+" << ec.size() << "+" << ef.size();
  vtk::Out f;
  try {
    f = vtk::ReadFile(tmp.path());
  } catch (const std::exception &e) {
    FAIL("malformed file", "cannot read the file back: " << e.what() << " (codim " << codim << ", order " << order << (binary ? ", binary" : ", text") << ")");
  }
  CHECK(f.binary == binary, "encoding", "the file is " << (f.binary ? "binary" : "text"));
  CHECK(f.cells.size() == cells.size(), "number of cells", f.cells.size() << " cells instead of " << cells.size());
  CHECK(f.points.size() == 3 * pos.size(), "number of points", f.points.size() / 3. << " points instead of " << pos.size());
  CHECK(f.n_point == static_cast<long>(pos.size()) || ep.empty(), "POINT_DATA", "POINT_DATA section missing");
  CHECK(f.n_cell == static_cast<long>(cells.size()) || ec.empty(), "CELL_DATA", "CELL_DATA section missing");
  // connectivity: points of the file <-> points of the mesh
  const double tol = (binary ? 3e-7 : 1e-6) * CoordScale(hm.X);
  std::vector<int> perm(pos.size(), -1);
  std::map<Key, long> where;
  auto match = [&](const Key &k, long idx, const std::string &s) {
    CHECK(idx >= 0 && idx < static_cast<long>(pos.size()), "point index", s << ": point index " << idx << " out of range");
    const auto it = where.find(k);
    CHECK(it == where.end() || it->second == idx, "shared point", s << ": point " << idx << ", but the same point has index " << it->second << " elsewhere");
    CHECK(perm[idx] < 0 || perm[idx] == kidx[k], "point used twice", s << ": point " << idx << " stands for two different points");
    where[k] = idx;
    perm[idx] = kidx[k];
    for (int d = 0; d < 3; ++d) {
      const double x = d < dim ? pos[k][d] : 0.;
      CHECK(std::abs(f.points[3 * idx + d] - x) <= tol, "point position", s << ": coordinate " << d << " is " << f.points[3 * idx + d] << " instead of " << x << " (codim " << codim << ", order " << order << ")");
    }
  };
  for (size_t c = 0; c < cells.size(); ++c) {
    CHECK(f.types[c] == types[c], "cell type", "cell " << c << " has type " << f.types[c] << " instead of " << types[c]);
    CHECK(f.cells[c].size() == cells[c].size(), "cell size", "cell " << c << " has " << f.cells[c].size() << " points instead of " << cells[c].size());
    for (size_t k = 0; k < cells[c].size(); ++k) match(cells[c][k], f.cells[c][k], "cell " + std::to_string(c) + " (" + std::to_string(hm.cells.size()) + " cells) local point " + std::to_string(k));
  }
  // nodes that are not part of any cell of the file
  for (size_t k = 0; k < perm.size(); ++k) CHECK(perm[k] >= 0, "unused point", "point " << k << " belongs to no cell");
  Compare(ep, f.point, perm, binary, "point");
  Compare(ec, f.cell, {}, binary, "cell");
  Compare(ef, f.field, {}, binary, "global");
  if (cells.size() >= 2 && (order > 1 || !ep.empty() || !ec.empty())) g.nontrivial();
}

PBT_SUB("rejects", 15, 100, "a call outside of the documented domain") {
  MeshOpt o;
  o.max_n = 2;
  HMesh hm = RandMesh(g, o);
  gmsh::TmpFile tmp("");
  const int what = g.i(0, 3);
  g.nontrivial();
  auto make = [&](unsigned codim, int order) { io::VtkWriter w(hm.mesh, tmp.path(), codim, static_cast<unsigned char>(order)); };
  if (what == 0) {
    const int order = g.pick(std::vector<int>{0, 11, 12, 200});
    CHECK(pbt::Rejects([&] { make(g.i(0, 1), order); }), "order accepted", "order " << order << " was accepted");
  } else if (what == 1) {
    const unsigned cd = g.i(2, 4);
    CHECK(pbt::Rejects([&] { make(cd, 1); }), "codimension accepted", "codimension " << cd << " was accepted");
  } else if (what == 2) {
    lf::mesh::utils::CodimMeshDataSet<double> d(hm.mesh, 2, 1.);
    CHECK(pbt::Rejects([&] {
            io::VtkWriter w(hm.mesh, tmp.path(), 0, g.i(2, 4));
            w.WritePointData("u", d);
          }),
          "data set accepted", "point data set accepted although the order is not 1");
  } else {
    const int n = g.pick(std::vector<int>{1, 4, 0});
    lf::mesh::utils::CodimMeshDataSet<Eigen::VectorXd> d(hm.mesh, 0, Vec::Zero(n));
    CHECK(pbt::Rejects([&] {
            io::VtkWriter w(hm.mesh, tmp.path(), 0, 1);
            w.WriteCellData("u", d);
          }),
          "vector size accepted", "vectors of size " << n << " accepted");
  }
}

namespace {
template <class T>
void RandScalar(pbt::G &g, io::VtkFile::Attributes &at, std::vector<Exp> &ex, int n) {
  io::VtkFile::ScalarData<T> d;
  d.name = RandName(g, ex);
  Exp e = NewExp<T>(d.name);
  for (int k = 0; k < n; ++k) {
    d.data.push_back(RandVal<T>(g));
    Push<T>(e, d.data.back());
  }
  if (g.b(0.3)) d.lookup_table = "table1";
  ex.push_back(e);
  at.push_back(d);
}
template <class T>
void RandVector(pbt::G &g, io::VtkFile::Attributes &at, std::vector<Exp> &ex, int n) {
  io::VtkFile::VectorData<T> d;
  d.name = RandName(g, ex);
  using V = Eigen::Matrix<T, 3, 1>;
  Exp e = NewExp<V>(d.name);
  for (int k = 0; k < n; ++k) {
    d.data.push_back(RandVec<V>(g));
    Push<V>(e, d.data.back());
  }
  ex.push_back(e);
  at.push_back(d);
}
void RandAttr(pbt::G &g, io::VtkFile::Attributes &at, std::vector<Exp> &ex, int n) {
  const int m = g.i(0, 4);
  for (int k = 0; k < m; ++k) switch (g.i(0, 11)) {
      case 0: RandScalar<char>(g, at, ex, n); break;
      case 1: RandScalar<unsigned char>(g, at, ex, n); break;
      case 2: RandScalar<short>(g, at, ex, n); break;
      case 3: RandScalar<unsigned short>(g, at, ex, n); break;
      case 4: RandScalar<int>(g, at, ex, n); break;
      case 5: RandScalar<unsigned>(g, at, ex, n); break;
      case 6: RandScalar<long>(g, at, ex, n); break;
      case 7: RandScalar<unsigned long>(g, at, ex, n); break;
      case 8: RandScalar<float>(g, at, ex, n); break;
      case 9: RandScalar<double>(g, at, ex, n); break;
      case 10: RandVector<float>(g, at, ex, n); break;
      default: RandVector<double>(g, at, ex, n); break;
    }
}
}  // namespace

PBT_SUB("file", 60, 600, "a VtkFile object with at least one point and cell was written and read back, or an inconsistent one rejected") {
  io::VtkFile f;
  const bool binary = g.b();
  f.format = binary ? io::VtkFile::Format::BINARY : io::VtkFile::Format::ASCII;
  const int n = g.i(1, 8), m = g.i(1, 6);
  f.header = g.b(0.5) ? "" : std::string(g.pick(std::vector<int>{1, 20, 256}), 'h');
  for (int k = 0; k < n; ++k) f.unstructured_grid.points.push_back(RandVec<Eigen::Vector3f>(g));
  for (int k = 0; k < m; ++k) {
    std::vector<unsigned> c;
    const int s = g.i(1, 9);
    for (int i = 0; i < s; ++i) c.push_back(g.i(0, n - 1));
    f.unstructured_grid.cells.push_back(c);
    f.unstructured_grid.cell_types.push_back(static_cast<io::VtkFile::CellType>(g.i(1, 74)));
  }
  std::vector<Exp> ep, ec, ef;
  RandAttr(g, f.point_data, ep, n);
  RandAttr(g, f.cell_data, ec, m);
  const int nf = g.i(0, 3);
  for (int k = 0; k < nf; ++k) {
    const std::string name = RandName(g, ef);
    auto add = [&](auto x) {
      using T = decltype(x);
      std::vector<T> v;
      Exp e = NewExp<T>(name);
      const int s = g.i(0, 4);
      for (int i = 0; i < s; ++i) {
        v.push_back(RandVal<T>(g));
        Push<T>(e, v.back());
      }
      f.field_data.push_back(io::VtkFile::FieldDataArray<T>(name, v));
      ef.push_back(e);
    };
    const int t = g.i(0, 2);
    if (t == 0) add(int{});
    else if (t == 1) add(float{});
    else add(double{});
  }
  g.desc() << n << " points, " << m << " cells, " << ep.size() << "+" << ec.size() << "+" << ef.size() << (binary ? " binary" : " text");
  gmsh::TmpFile tmp("");
  g.nontrivial();
  if (g.b(0.15)) {
    const int what = g.i(0, 4);
    if (what == 0) f.header = "a\nb";
    else if (what == 1) f.header = std::string(257, 'x');
    else if (what == 2) f.unstructured_grid.cell_types.pop_back();
    else if (what == 3) f.point_data.push_back(io::VtkFile::ScalarData<int>("bad", std::vector<int>(n + g.pick(std::vector<int>{-1, 1}), 0)));
    else f.cell_data.push_back(io::VtkFile::VectorData<double>("bad", std::vector<Eigen::Vector3d>(m + g.pick(std::vector<int>{-1, 1}), Eigen::Vector3d::Zero())));
    g.label("inconsistent file");
    MustThrow([&] { io::WriteToFile(f, tmp.path()); }, "inconsistent VtkFile");
    return;
  }
  io::WriteToFile(f, tmp.path());
  vtk::Out r;
  try {
    r = vtk::ReadFile(tmp.path());
  } catch (const std::exception &e) {
    FAIL("malformed file", "cannot read the file back: " << e.what() << (binary ? " (binary)" : " (text)"));
  }
  CHECK(r.binary == binary, "encoding", "the file is " << (r.binary ? "binary" : "text"));
  CHECK(r.title == f.header, "header", "header '" << r.title << "'");
  CHECK(r.points.size() == 3u * n, "number of points", r.points.size());
  for (int k = 0; k < n; ++k)
    for (int d = 0; d < 3; ++d) {
      const double x = f.unstructured_grid.points[k][d], y = r.points[3 * k + d];
      CHECK(std::abs(x - y) <= (binary ? 0. : 1e-6 * std::abs(x)), "point position", "point " << k << " coordinate " << d << ": " << y << " instead of " << x);
    }
  CHECK(static_cast<int>(r.cells.size()) == m, "number of cells", r.cells.size());
  for (int k = 0; k < m; ++k) {
    const auto &c = f.unstructured_grid.cells[k];
    CHECK(std::vector<long>(c.begin(), c.end()) == r.cells[k], "cell points", "cell " << k);
    CHECK(r.types[k] == static_cast<int>(f.unstructured_grid.cell_types[k]), "cell type", "cell " << k);
  }
  Compare(ep, r.point, {}, binary, "point");
  Compare(ec, r.cell, {}, binary, "cell");
  Compare(ef, r.field, {}, binary, "global");
}
