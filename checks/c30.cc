// C30: reference elements describe one consistent cell topology
#include <lf/base/base.h>
#include <lf/base/narrow.h>

#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <limits>
#include <set>

#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;
using lf::base::RefElType;

namespace {
const RefElType kT[4] = {RefElType::kPoint, RefElType::kSegment, RefElType::kTria, RefElType::kQuad};

/// own model: corners of the cell, and every sub-entity as a list of corner numbers
struct Model {
  int dim;
  std::vector<std::vector<double>> corner;
  std::vector<std::vector<std::vector<int>>> sub;  // [codim][index] -> corners
  const char *name;
};
const Model &M(int t) {
  static const Model m[4] = {
      {0, {{}}, {{{0}}}, "NODE"},
      {1, {{0}, {1}}, {{{0, 1}}, {{0}, {1}}}, "EDGE"},
      {2, {{0, 0}, {1, 0}, {0, 1}}, {{{0, 1, 2}}, {{0, 1}, {1, 2}, {2, 0}}, {{0}, {1}, {2}}}, "TRIA"},
      {2, {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{{0, 1, 2, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0}, {1}, {2}, {3}}}, "QUAD"}};
  return m[t];
}
RefEl FromSize(std::size_t n) { return n == 1 ? RefEl::kPoint() : n == 2 ? RefEl::kSegment() : n == 3 ? RefEl::kTria() : RefEl::kQuad(); }
RefEl Named(int t) { return t == 0 ? RefEl::kPoint() : t == 1 ? RefEl::kSegment() : t == 2 ? RefEl::kTria() : RefEl::kQuad(); }

template <RefElType T>
void StaticCoords(const Model &m) {
  const auto &s = RefEl::NodeCoords<T>();
  CHECK(s.size() == m.corner.size(), "static_coords", m.name << ": " << s.size() << " static node coordinates");
  for (std::size_t k = 0; k < s.size(); ++k) {
    CHECK(s[k].size() == m.dim, "static_coords", m.name << " dimension");
    for (int d = 0; d < m.dim; ++d) CHECK(s[k](d) == m.corner[k][d], "static_coords", m.name << " node " << k);
  }
}

void CheckRefEl(RefEl re, int t) {
  const Model &m = M(t);
  CHECK(re == kT[t] && static_cast<RefElType>(re) == kT[t], "type", m.name);
  CHECK(static_cast<int>(re.Dimension()) == m.dim, "dimension", m.name);
  CHECK(re.NumNodes() == m.corner.size(), "num_nodes", m.name);
  CHECK(re.ToString() == m.name, "name", re.ToString() << " for " << m.name);
  std::ostringstream os;
  os << re;
  CHECK(os.str() == m.name, "name", "operator<< gives " << os.str());
  const auto &nc = re.NodeCoords();
  CHECK(nc.rows() == m.dim && nc.cols() == static_cast<int>(m.corner.size()), "coords", m.name << " shape " << nc.rows() << "x" << nc.cols());
  for (int k = 0; k < nc.cols(); ++k)
    for (int d = 0; d < m.dim; ++d) CHECK(nc(d, k) == m.corner[k][d], "coords", m.name << " node " << k);
  switch (t) {
    case 0: StaticCoords<RefElType::kPoint>(m); break;
    case 1: StaticCoords<RefElType::kSegment>(m); break;
    case 2: StaticCoords<RefElType::kTria>(m); break;
    default: StaticCoords<RefElType::kQuad>(m);
  }
  for (int c = 0; c <= m.dim; ++c) CHECK(re.NumSubEntities(c) == m.sub[c].size(), "num_sub", m.name << " codim " << c);
}

/// every corner list reached through (codim, idx) and then (rel_codim, rel_idx)
void CheckPath(RefEl re, int t, int c, int i, int rc, int ri) {
  const Model &m = M(t);
  const RefEl sub = re.SubType(c, i);
  CHECK(sub == FromSize(m.sub[c][i].size()), "sub_type", m.name << " sub-entity " << c << "," << i << " is " << sub.ToString());
  CHECK(static_cast<int>(sub.Dimension()) == m.dim - c, "sub_dim", m.name);
  // expected: sub entity ri of the sub entity, in its own corner numbering
  const Model &sm = M(sub == RefEl::kPoint() ? 0 : sub == RefEl::kSegment() ? 1 : sub == RefEl::kTria() ? 2 : 3);
  CHECK(sub.NumSubEntities(rc) == sm.sub[rc].size(), "num_sub", m.name);
  std::vector<int> want;
  for (int k : sm.sub[rc][ri]) want.push_back(m.sub[c][i][k]);
  const unsigned j = re.SubSubEntity2SubEntity(c, i, rc, ri);
  CHECK(j < m.sub[c + rc].size(), "nested_range", m.name << " (" << c << "," << i << "," << rc << "," << ri << ") -> " << j);
  CHECK(m.sub[c + rc][j] == want, "nested", m.name << ": sub-entity " << ri << " (codim " << rc << ") of sub-entity " << i << " (codim " << c << ") is listed as number " << j);
  CHECK(re.SubType(c + rc, j) == sub.SubType(rc, ri), "nested_type", m.name);
}

using Big = boost::multiprecision::cpp_rational;
template <class T>
Big Exact(T v) {
  if constexpr (std::is_floating_point_v<T>)
    return Big(static_cast<double>(v));
  else if constexpr (std::is_same_v<T, bool>)
    return Big(static_cast<int>(v));
  else
    return Big(static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(v));
}
template <class T>
const char *TName() {
  if (std::is_same_v<T, bool>) return "bool";
  if (std::is_same_v<T, float>) return "float";
  if (std::is_same_v<T, double>) return "double";
  static const char *s[] = {"", "i8", "i16", "", "i32", "", "", "", "i64"}, *u[] = {"", "u8", "u16", "", "u32", "", "", "", "u64"};
  return std::is_signed_v<T> ? s[sizeof(T)] : u[sizeof(T)];
}
/// can the value be represented exactly in TO?
template <class TO>
bool Fits(const Big &v) {
  if constexpr (std::is_floating_point_v<TO>) {
    // nearest TO value, compare exactly (all values here are far from overflow of TO or finite doubles)
    const double d = static_cast<double>(v);
    if (Big(d) != v) return false;
    if constexpr (std::is_same_v<TO, float>) {
      if (std::abs(d) > static_cast<double>(std::numeric_limits<float>::max())) return false;
      volatile float f = static_cast<float>(d);
      return static_cast<double>(f) == d;
    }
    return true;
  } else {
    if (boost::multiprecision::denominator(v) != 1) return false;
    return v >= Exact(std::numeric_limits<TO>::lowest()) && v <= Exact(std::numeric_limits<TO>::max());
  }
}
template <class TO, class FROM>
void CheckNarrow(pbt::G &g, FROM from) {
  const Big v = Exact(from);
  const bool fits = Fits<TO>(v);
  volatile FROM src = from;
  TO got{};
  const bool rej = pbt::Rejects([&] {
    volatile TO r = lf::base::narrow<TO>(static_cast<FROM>(src));
    got = r;
  });
  CHECK(rej == !fits, fits ? "narrow_rejects_valid" : "narrow_accepts_invalid",
        TName<FROM>() << " -> " << TName<TO>() << " value " << v << (rej ? " reported as error" : " accepted"));
  if (!rej) CHECK(Exact(got) == v, "narrow_value", TName<FROM>() << " -> " << TName<TO>() << " value " << v << " became " << Exact(got));
  g.label(fits ? "representable" : "not representable");
  g.label(std::string("from ") + TName<FROM>());
}
template <class FROM>
FROM RandValue(pbt::G &g) {
  // boundary values of every type, offsets around them, small and random values
  static const double fl[] = {0.0, -0.0, 0.5, -0.5, 1.5, 1e-30, 1e10, -1e10, 1e30, 16777216.0, 16777217.0, 9007199254740992.0, 4294967296.0, 0.1};
  const int bit = static_cast<int>(g.i(0, 64));
  const int off = static_cast<int>(g.i(-2, 2));
  switch (g.raw(4)) {
    case 0: {  // around +-2^bit
      const bool neg = g.b();
      if constexpr (std::is_floating_point_v<FROM>) {
        return static_cast<FROM>((neg ? -1 : 1) * std::ldexp(1.0, bit) + off);
      } else {
        const unsigned long long p = bit >= 64 ? 0ULL : (1ULL << bit);
        return static_cast<FROM>((neg ? 0ULL - p : p) + static_cast<unsigned long long>(static_cast<long long>(off)));
      }
    }
    case 1: return static_cast<FROM>(g.i(0, 300) - (std::is_signed_v<FROM> || std::is_floating_point_v<FROM> ? 150 : 0));
    case 2:
      if constexpr (std::is_floating_point_v<FROM>) {
        return static_cast<FROM>(g.pick(std::vector<double>(fl, fl + 14)));
      } else {
        return static_cast<FROM>(g.i(0, 0x7fffffff) * (g.b() ? 1LL : 4294967311LL));
      }
    default:
      if constexpr (std::is_floating_point_v<FROM>) {
        return static_cast<FROM>(std::ldexp(g.r(-1, 1), static_cast<int>(g.i(0, 70)) - 3));
      } else {
        return static_cast<FROM>(g.i(0, 70000) - 35000);
      }
  }
}
template <class FROM>
void NarrowFrom(pbt::G &g) {
  const FROM v = RandValue<FROM>(g);
  g.nontrivial(v != FROM{});
  g.desc() << std::string(TName<FROM>()) + " " + Exact(v).str();
  switch (g.raw(10)) {
    case 0: return CheckNarrow<std::int8_t>(g, v);
    case 1: return CheckNarrow<std::uint8_t>(g, v);
    case 2: return CheckNarrow<std::int16_t>(g, v);
    case 3: return CheckNarrow<std::uint16_t>(g, v);
    case 4: return CheckNarrow<std::int32_t>(g, v);
    case 5: return CheckNarrow<std::uint32_t>(g, v);
    case 6: return CheckNarrow<std::int64_t>(g, v);
    case 7: return CheckNarrow<std::uint64_t>(g, v);
    case 8: return CheckNarrow<float>(g, v);
    default: return CheckNarrow<double>(g, v);
  }
}
}  // namespace

PBT_SUB("topology", 200, 600, "dimension >= 1 and an intermediate sub-entity") {
  const int t = static_cast<int>(g.raw(4));
  const Model &m = M(t);
  // obtain the object through the different ways of construction
  RefEl re = g.b() ? RefEl(kT[t]) : Named(t);
  switch (g.raw(4)) {
    case 1: {
      RefEl o(kT[g.raw(4)]);
      o = re;
      re = o;
      break;
    }
    case 2: {
      RefEl o(kT[g.raw(4)]);
      o = std::move(re);
      RefEl p(std::move(o));
      re = p;
      break;
    }
    case 3: {
      RefEl o(re);
      RefEl &r = o;
      o = r;
      re = RefEl(static_cast<RefElType>(o));
      break;
    }
    default: break;
  }
  CheckRefEl(re, t);
  const int c = static_cast<int>(g.i(0, m.dim));
  const int i = static_cast<int>(g.i(0, static_cast<int>(m.sub[c].size()) - 1));
  const int rc = static_cast<int>(g.i(0, m.dim - c));
  const std::size_t nr = M(m.sub[c][i].size() == 1 ? 0 : m.sub[c][i].size() == 2 ? 1 : m.sub[c][i].size() == 3 ? 2 : 3).sub[rc].size();
  const int ri = static_cast<int>(g.i(0, static_cast<int>(nr) - 1));
  CheckPath(re, t, c, i, rc, ri);
  std::ostringstream d;
  d << m.name << " codim " << c << " idx " << i << " rel " << rc << "," << ri;
  g.desc() << d.str();
  g.label(m.name);
  g.nontrivial(m.dim > 0 && c > 0);
}

PBT_SUB("all_paths", 1, 1, "all sub-entities and nested sub-entities of all four reference elements (exhaustive)") {
  std::set<unsigned> ids;
  int paths = 0;
  for (int t = 0; t < 4; ++t) {
    const RefEl re = Named(t);
    CheckRefEl(re, t);
    ids.insert(re.Id());
    CHECK(RefEl(kT[t]).Id() == re.Id(), "id", "id of " << re);
    const Model &m = M(t);
    for (int c = 0; c <= m.dim; ++c)
      for (int i = 0; i < static_cast<int>(m.sub[c].size()); ++i)
        for (int rc = 0; rc <= m.dim - c; ++rc) {
          const int st = m.sub[c][i].size() == 1 ? 0 : m.sub[c][i].size() == 2 ? 1 : m.sub[c][i].size() == 3 ? 2 : 3;
          for (int ri = 0; ri < static_cast<int>(M(st).sub[rc].size()); ++ri) CheckPath(re, t, c, i, rc, ri), ++paths;
        }
    for (int u = 0; u < 4; ++u) CHECK((Named(u) == re) == (u == t), "equality", "comparison of " << Named(u) << " and " << re);
  }
  CHECK(ids.size() == 4 && *ids.rbegin() - *ids.begin() == 3, "id", "the ids of the four reference elements are not distinct and contiguous");
  g.desc() << std::to_string(paths) + " nested paths";
  g.nontrivial(true);
}

PBT_SUB("invalid", 60, 400, "an argument outside its range") {
  const int t = static_cast<int>(g.raw(4));
  const RefEl re = Named(t);
  const Model &m = M(t);
  std::ostringstream d;
  bool rej = false;
  switch (g.raw(4)) {
    case 0: {
      const unsigned c = m.dim + 1 + g.raw(4);
      d << re << ".NumSubEntities(" << c << ")";
      rej = pbt::Rejects([&] { volatile unsigned n = re.NumSubEntities(c); (void)n; });
      break;
    }
    case 1: {
      const int c = static_cast<int>(g.i(0, m.dim));
      const unsigned i = m.sub[c].size() + g.raw(4);
      d << re << ".SubType(" << c << "," << i << ")";
      rej = pbt::Rejects([&] { volatile unsigned n = re.SubType(c, i).Id(); (void)n; });
      break;
    }
    case 2: {
      const int c = static_cast<int>(g.i(0, m.dim));
      const unsigned i = m.sub[c].size() + g.raw(4);
      d << re << ".SubSubEntity2SubEntity(" << c << "," << i << ",0,0)";
      rej = pbt::Rejects([&] { volatile unsigned n = re.SubSubEntity2SubEntity(c, i, 0, 0); (void)n; });
      break;
    }
    default: {
      const int c = static_cast<int>(g.i(0, m.dim));
      const int i = static_cast<int>(g.i(0, static_cast<int>(m.sub[c].size()) - 1));
      const int st = m.sub[c][i].size() == 1 ? 0 : m.sub[c][i].size() == 2 ? 1 : m.sub[c][i].size() == 3 ? 2 : 3;
      unsigned rc, ri = 0;
      if (g.b()) {
        rc = m.dim - c + 1 + g.raw(3);
      } else {
        rc = static_cast<unsigned>(g.i(0, m.dim - c));
        ri = M(st).sub[rc].size() + g.raw(4);
      }
      d << re << ".SubSubEntity2SubEntity(" << c << "," << i << "," << rc << "," << ri << ")";
      rej = pbt::Rejects([&] { volatile unsigned n = re.SubSubEntity2SubEntity(c, i, rc, ri); (void)n; });
    }
  }
  g.desc() << d.str();
  CHECK(rej, "accepts_invalid", d.str() << " is not reported as an error");
  g.nontrivial(true);
}

PBT_SUB("narrow", 6000, 60000, "value other than 0") {
  switch (g.raw(10)) {
    case 0: NarrowFrom<std::int8_t>(g); break;
    case 1: NarrowFrom<std::uint8_t>(g); break;
    case 2: NarrowFrom<std::int16_t>(g); break;
    case 3: NarrowFrom<std::uint16_t>(g); break;
    case 4: NarrowFrom<std::int32_t>(g); break;
    case 5: NarrowFrom<std::uint32_t>(g); break;
    case 6: NarrowFrom<std::int64_t>(g); break;
    case 7: NarrowFrom<std::uint64_t>(g); break;
    case 8: NarrowFrom<float>(g); break;
    default: NarrowFrom<double>(g);
  }
}
