// C31: diagnostic printing works for every object at every verbosity level
#include <fmt/ostream.h>
#include <lf/assemble/assemble.h>
#include <lf/base/base.h>
#include <lf/fe/fe.h>
#include <lf/geometry/print_info.h>
#include <lf/io/io.h>
#include <lf/mesh/utils/utils.h>
#include <lf/quad/quad.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>

#include <cstring>
#include <iostream>
#include <regex>

#include "gen/fespace.h"
#include "gen/history.h"
#include "gen/meshes.h"
#include "gen/shapes.h"
using namespace gen;
using lf::base::RefEl;

namespace {
const char *Name(RefEl r) { return r == RefEl::kPoint() ? "NODE" : r == RefEl::kSegment() ? "EDGE" : r == RefEl::kTria() ? "TRIA" : "QUAD"; }
int NSub(RefEl r, int codim) { return codim == 0 ? 1 : static_cast<int>(r.NumNodes()); }

std::vector<std::string> Lines(const std::string &s) {
  std::vector<std::string> r;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}
/// all tokens that are numbers
std::vector<double> Nums(const std::string &s) {
  std::vector<double> r;
  std::string tok;
  auto flush = [&] {
    if (!tok.empty()) {
      char *end = nullptr;
      const double v = std::strtod(tok.c_str(), &end);
      if (*end == 0 && (std::isdigit(static_cast<unsigned char>(tok.back())) || tok.back() == '.')) r.push_back(v);
    }
    tok.clear();
  };
  for (char c : s + " ") {
    if (std::isalnum(static_cast<unsigned char>(c)) || std::strchr("_.+-", c)) tok += c;
    else flush();
  }
  return r;
}
std::vector<double> Join(const std::vector<std::string> &l, std::size_t from, std::size_t to) {
  std::vector<double> r;
  for (std::size_t k = from; k < to && k < l.size(); ++k)
    for (double x : Nums(l[k])) r.push_back(x);
  return r;
}
std::string Show(const std::vector<double> &v) {
  std::ostringstream o;
  for (double x : v) o << x << " ";
  return o.str();
}
bool Starts(const std::string &s, const std::string &p) { return s.rfind(p, 0) == 0; }

/// runs a printing function on a fresh stream; nothing may go to std::cout, the state of the stream is unchanged
std::string Print(const std::function<void(std::ostream &)> &f, const char *what, int prec = 6) {
  std::ostringstream o, stray;
  o.precision(prec);
  const auto flags = o.flags();
  auto *old = std::cout.rdbuf(stray.rdbuf());
  try {
    f(o);
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  CHECK(stray.str().empty(), std::string(what) + " stray", "output went to std::cout instead of the given stream: " << stray.str().substr(0, 200));
  CHECK(o.good() && o.precision() == prec && o.flags() == flags, std::string(what) + " stream", "the state of the stream is altered");
  return o.str();
}
/// numbers of a matrix printed row by row
void CheckMatrix(const std::vector<double> &v, const Mat &M, const std::string &key, const std::string &who, int prec = 6, double floor = 0) {
  CHECK(static_cast<long>(v.size()) == M.size(), key, who << ": " << v.size() << " numbers printed for a " << M.rows() << "x" << M.cols() << " matrix: " << Show(v));
  const double tol = M.size() ? 6 * std::pow(10.0, -prec) * std::max(1e-300, M.cwiseAbs().maxCoeff()) + 1e-14 * floor : 0;
  for (int i = 0; i < M.rows(); ++i)
    for (int j = 0; j < M.cols(); ++j) CHECK(std::abs(v[i * M.cols() + j] - M(i, j)) <= tol, key, who << ": printed " << v[i * M.cols() + j] << " for entry (" << i << "," << j << ") = " << M(i, j));
}
std::string Snapshot(const lf::mesh::Mesh &m) {
  std::ostringstream o;
  o.precision(17);
  for (int codim = 2; codim >= 0; --codim) {
    o << m.NumEntities(codim) << ":";
    for (const auto *e : m.Entities(codim)) {
      o << m.Index(*e) << "," << e->RefEl().Id() << "," << e->Geometry()->Global(e->RefEl().NodeCoords());
      for (int c = 1; c <= 2 - codim; ++c)
        for (const auto *s : e->SubEntities(c)) o << "," << m.Index(*s);
      o << ";";
    }
  }
  return o.str();
}
int Level(pbt::G &g) { return g.b(0.7) ? g.pick(std::vector<int>{0, 1, 5, 10, 11, 20, 21, 50, 51, 90, 91, 100, 1000}) : static_cast<int>(g.i(0, 120)); }
bool Contains(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
}  // namespace

PBT_SUB("ref_el", 300, 2000, "level > 0 and dimension > 0") {
  const RefEl re = g.pick(std::vector<RefEl>{RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
  const int lev = Level(g);
  const int dim = static_cast<int>(re.Dimension());
  g.desc() << re << " level " << lev;
  g.nontrivial(lev > 0 && dim > 0);
  const auto l = Lines(Print([&](std::ostream &o) { lf::base::PrintInfo(o, re, lev); }, "ref_el"));
  const std::string who = std::string(Name(re)) + " level " + std::to_string(lev);
  CHECK(l.size() >= 3 && Contains(l[0], Name(re)), "ref_el name", who);
  CHECK(Nums(l[1]) == std::vector<double>{double(dim)}, "ref_el dimension", who << ": " << l[1]);
  CHECK(Nums(l[2]) == std::vector<double>{double(re.NumNodes())}, "ref_el nodes", who << ": " << l[2]);
  std::vector<int> counts(3, -1), listed(3, 0);
  std::vector<char> seen(4, 0);
  int cur = -1;
  for (std::size_t k = 3; k < l.size(); ++k) {
    const auto n = Nums(l[k]);
    if (Contains(l[k], "Codimension")) {
      CHECK(n.size() == 2 && n[0] >= 1 && n[0] <= dim, "ref_el codim", who << ": " << l[k]);
      cur = static_cast<int>(n[0]);
      counts[cur] = static_cast<int>(n[1]);
      CHECK(Contains(l[k], Name(re.SubType(cur, 0))), "ref_el sub type", who << ": " << l[k]);
    } else if (Contains(l[k], "Subentity")) {
      CHECK(cur > 0 && !n.empty(), "ref_el sub", who << ": " << l[k]);
      listed[cur]++;
      CHECK(Contains(l[k], Name(re.SubType(cur, 0))), "ref_el sub type", who << ": " << l[k]);
      if (cur == dim && lev > 20) {
        const int i = static_cast<int>(n[0]);
        CHECK(i >= 0 && i < static_cast<int>(re.NumNodes()) && static_cast<int>(n.size()) == 1 + dim, "ref_el coords", who << ": " << l[k]);
        for (int d = 0; d < dim; ++d) CHECK(n[1 + d] == Ref(re, 1).nodes(d, i), "ref_el coords", who << ": " << l[k]);
        seen[i] = 1;
      }
    }
  }
  for (int c = 1; c <= dim; ++c) {
    CHECK(counts[c] == (lev > 0 ? NSub(re, c) : -1), "ref_el sub-entities", who << " codim " << c << ": " << counts[c]);
    CHECK(listed[c] == (lev > 10 ? NSub(re, c) : 0), "ref_el list", who << " codim " << c << ": " << listed[c] << " listed");
  }
  std::ostringstream o;
  o << re;
  CHECK(o.str() == Name(re), "ref_el operator<<", o.str());
  CHECK(fmt::format("{}", re) == Name(re), "ref_el fmt", Name(re));
}

PBT_SUB("geometry", 400, 4000, "level > 10, dimension > 0") {
  const int kind = static_cast<int>(g.raw(kNumKinds));
  Shape s = RandShape(g, kind);
  const int lev = Level(g);
  g.desc() << s.kind << " level " << lev;
  g.label(s.kind);
  g.nontrivial(lev > 10 && s.dimL() > 0);
  const int prec = g.b() ? 6 : 15;
  const auto txt = Print([&](std::ostream &o) { lf::geometry::PrintInfo(o, *s.geo, lev); }, "geometry", prec);
  const auto l = Lines(txt);
  const std::string who = s.kind + " level " + std::to_string(lev);
  CHECK(!l.empty() && Contains(l[0], Name(s.type)), "geometry type", who);
  if (lev > 10) {
    std::smatch m;
    CHECK(std::regex_search(txt, m, std::regex("world dim. = *([0-9]+)")) && std::stoi(m[1]) == s.dimG(), "geometry world dim", who << ": " << txt);
    CHECK(std::regex_search(txt, m, std::regex("loc dim = *([0-9]+)")) && std::stoi(m[1]) == s.dimL(), "geometry local dim", who << ": " << txt);
    CHECK(Contains(txt, typeid(*s.geo).name()), "geometry class", who);
  }
  if (lev > 90) CheckMatrix(Join(l, 2, l.size()), s.nodes.leftCols(s.type.NumNodes()), "geometry corners", who, prec, CoordScale(s.nodes));
  std::ostringstream o;
  o << *s.geo;
  CHECK(o.str() == Name(s.type), "geometry operator<<", o.str());
}

PBT_SUB("mesh", 60, 900, "level > 10") {
  MeshOpt opt;
  opt.max_n = 3;
  opt.allow_3d = true;
  HMesh hm = RandMesh(g, opt);
  const auto &mesh = *hm.mesh;
  const int lev = Level(g);
  g.nontrivial(lev > 10);
  g.label(lev > 90 ? "level > 90" : lev > 50 ? "level > 50" : lev > 10 ? "level > 10" : "level <= 10");
  g.desc() << "level " << lev << " " << hm.Describe();
  const std::string before = Snapshot(mesh);
  const auto l = Lines(Print([&](std::ostream &o) { lf::mesh::utils::PrintInfo(o, mesh, lev); }, "mesh"));
  const std::string who = "mesh at level " + std::to_string(lev);
  CHECK(!l.empty() && Nums(l[0]) == (std::vector<double>{2., double(hm.dim)}), "mesh dimensions", who << ": " << l[0]);
  if (lev <= 10) {
    CHECK(l.size() == 1, "mesh short", who << " prints " << l.size() << " lines");
  } else {
    std::size_t k = 1;
    for (int codim = 2; codim >= 0; --codim) {
      const int n = static_cast<int>(mesh.NumEntities(codim));
      CHECK(k < l.size() && Nums(l[k]) == (std::vector<double>{double(codim), double(n)}), "mesh number of entities", who << " codim " << codim << ": " << (k < l.size() ? l[k] : "nothing"));
      ++k;
      std::vector<char> seen(n, 0);
      for (int c = 0; c < n; ++c) {
        CHECK(k < l.size() && Starts(l[k], "entity "), "mesh entity list", who << " codim " << codim << ": only " << c << " of " << n << " entities");
        const int idx = std::atoi(l[k].c_str() + 7);
        CHECK(idx >= 0 && idx < n && !seen[idx], "mesh entity index", who << ": " << l[k]);
        seen[idx] = 1;
        const auto *e = mesh.EntityByIndex(codim, idx);
        CHECK(Contains(l[k], std::string("(") + Name(e->RefEl()) + ")"), "mesh entity type", who << ": " << l[k]);
        if (lev > 90) {
          const auto colon = l[k].find("):");
          CHECK(colon != std::string::npos, "mesh entity", l[k]);
          std::vector<double> want;
          for (int rc = 1; rc <= 2 - codim; ++rc)
            for (const auto *s : e->SubEntities(rc)) want.push_back(mesh.Index(*s));
          std::string rest = l[k].substr(colon + 2);
          std::vector<double> got;
          // lists in brackets
          for (std::size_t p = 0; (p = rest.find('[', p)) != std::string::npos;) {
            const auto q = rest.find(']', p);
            CHECK(q != std::string::npos, "mesh sub-entities", rest);
            for (double x : Nums(rest.substr(p + 1, q - p - 1))) got.push_back(x);
            p = q;
          }
          CHECK(got == want, "mesh sub-entities", who << ": " << l[k] << " expected " << Show(want));
        }
        ++k;
        if (lev > 50) {
          Mat C(hm.dim, e->RefEl().NumNodes());
          int j = 0;
          for (const auto *v : e->SubEntities(2 - codim)) C.col(j++) = hm.X.col(mesh.Index(*v));
          // an edge geometry may run against the order of the end nodes only if the mesh is wrong: that is C03's business
          CheckMatrix(Join(l, k, k + hm.dim), C, "mesh coordinates", who + " codim " + std::to_string(codim) + " entity " + std::to_string(idx), 6, hm.X.cwiseAbs().maxCoeff());
          k += hm.dim;
        }
      }
    }
    CHECK(k == l.size(), "mesh trailing", who << " prints " << l.size() - k << " more lines");
  }
  // the mesh is still the same
  CHECK(Snapshot(mesh) == before, "mesh altered", who);
}

PBT_SUB("entity", 150, 1500, "level > 10, dimension > 0") {
  MeshOpt opt;
  opt.max_n = 3;
  opt.allow_3d = true;
  HMesh hm = RandMesh(g, opt);
  const auto &mesh = *hm.mesh;
  for (int rep = 0; rep < 6; ++rep) {
    const int lev = Level(g);
    const int codim = static_cast<int>(g.i(0, 2));
    const auto *e = mesh.EntityByIndex(codim, g.i(0, static_cast<int>(mesh.NumEntities(codim)) - 1));
    const RefEl re = e->RefEl();
    const int dim = 2 - codim;
    g.nontrivial(lev > 10 && dim > 0);
    const auto l = Lines(Print([&](std::ostream &o) { lf::mesh::utils::PrintInfo(o, *e, lev); }, "entity"));
    const std::string who = std::string(Name(re)) + " at level " + std::to_string(lev);
    g.desc() << who << "; ";
    CHECK(!l.empty() && Contains(l[0], std::string(Name(re)) + "/") && Contains(l[0], typeid(*e->Geometry()).name()), "entity name", who << ": " << l[0]);
    std::vector<int> counts(3, -1), listed(3, 0);
    int cur = 0;
    for (std::size_t k = 1; k < l.size(); ++k) {
      const auto n = Nums(l[k]);
      if (Starts(l[k], "Dimension")) {
        CHECK(n == std::vector<double>{double(dim)}, "entity dimension", who << ": " << l[k]);
      } else if (Starts(l[k], "Codimension")) {
        CHECK(n.size() == 2 && n[0] >= 1 && n[0] <= dim, "entity codim", who << ": " << l[k]);
        cur = static_cast<int>(n[0]);
        counts[cur] = static_cast<int>(n[1]);
      } else if (Contains(l[k], "Subentity")) {
        CHECK(cur > 0, "entity sub", who << ": " << l[k]);
        CHECK(n.size() == 1 && n[0] == listed[cur], "entity sub number", who << ": " << l[k]);
        CHECK(Contains(l[k], std::string("(") + Name(re.SubType(cur, 0)) + ")"), "entity sub type", who << ": " << l[k]);
        if (lev > 90 && cur == dim) {
          Mat p = hm.X.col(mesh.Index(*e->SubEntities(dim)[listed[cur]]));
          CheckMatrix(Join(l, k + 1, k + 1 + hm.dim), p, "entity coordinates", who, 6, hm.X.cwiseAbs().maxCoeff());
        }
        listed[cur]++;
      }
    }
    for (int c = 1; c <= dim; ++c) {
      CHECK(counts[c] == (lev > 10 ? NSub(re, c) : -1), "entity sub-entities", who << " codim " << c << ": " << counts[c]);
      CHECK(listed[c] == (lev > 50 ? NSub(re, c) : 0), "entity list", who << " codim " << c << ": " << listed[c] << " listed");
    }
    if (dim == 0 && lev > 90) {
      std::vector<double> all;
      for (std::size_t k = 1; k < l.size(); ++k)
        if (!Starts(l[k], "Dimension"))
          for (double x : Nums(l[k])) all.push_back(x);
      CheckMatrix(all, Mat(hm.X.col(mesh.Index(*e))), "entity coordinates", who, 6, hm.X.cwiseAbs().maxCoeff());
    }
    std::ostringstream o;
    o << *e;
    CHECK(o.str() == Name(re), "entity operator<<", o.str());
    CHECK(fmt::format("{}", *e) == Name(re), "entity fmt", Name(re));
  }
}

PBT_SUB("dofhandler", 80, 900, "level > 0") {
  MeshOpt opt;
  opt.max_n = 3;
  HMesh hm = RandMesh(g, opt);
  const auto &mesh = *hm.mesh;
  using namespace lf::assemble;
  std::unique_ptr<DofHandler> dh;
  const bool dyn = g.b();
  if (dyn) {
    std::vector<unsigned> n[3];
    for (int c = 0; c < 3; ++c)
      for (unsigned k = 0; k < mesh.NumEntities(c); ++k) n[c].push_back(g.raw(3));
    dh = std::make_unique<DynamicFEDofHandler>(hm.mesh, [&](const lf::mesh::Entity &e) { return n[e.Codim()][mesh.Index(e)]; });
  } else {
    const unsigned a = g.raw(3), b = g.raw(3), c = g.raw(3), d = g.raw(3);
    dh = std::make_unique<UniformFEDofHandler>(hm.mesh, UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), a}, {RefEl::kSegment(), b}, {RefEl::kTria(), c}, {RefEl::kQuad(), d}});
  }
  const unsigned ctrl = g.b(0.8) ? g.pick(std::vector<unsigned>{0, 1, 2, 3, 5, 6, 9, 10, 30, 60}) : static_cast<unsigned>(g.i(0, 40));
  g.nontrivial(ctrl > 0 && dh->NumDofs() > 0);
  g.desc() << (dyn ? "dynamic" : "uniform") << " dof handler, " << dh->NumDofs() << " dofs, level " << ctrl;
  const auto l = Lines(Print([&](std::ostream &o) { PrintInfo(o, *dh, ctrl); }, "dofhandler"));
  const std::string who = "dof handler at level " + std::to_string(ctrl);
  CHECK(!l.empty() && Nums(l[0]) == std::vector<double>{double(dh->NumDofs())}, "dofhandler size", who << ": " << (l.empty() ? "" : l[0]));
  std::size_t k = 1;
  if (ctrl > 0 && ctrl % 2 == 0) {
    for (int codim = 0; codim <= 2; ++codim) {
      std::vector<char> seen(mesh.NumEntities(codim), 0);
      for (unsigned c = 0; c < mesh.NumEntities(codim); ++c, ++k) {
        CHECK(k < l.size(), "dofhandler entity list", who << ": codim " << codim << " incomplete");
        const auto n = Nums(l[k]);
        CHECK(n.size() >= 2 && n[0] >= 0 && n[0] < mesh.NumEntities(codim) && !seen[static_cast<int>(n[0])], "dofhandler entity", who << ": " << l[k]);
        seen[static_cast<int>(n[0])] = 1;
        const auto *e = mesh.EntityByIndex(codim, static_cast<unsigned>(n[0]));
        CHECK(Starts(l[k], Name(e->RefEl())), "dofhandler entity type", who << ": " << l[k]);
        std::vector<double> want{n[0], double(dh->NumLocalDofs(*e))};
        for (auto d : dh->GlobalDofIndices(*e)) want.push_back(d);
        if (ctrl % 10 == 0)
          for (auto d : dh->InteriorGlobalDofIndices(*e)) want.push_back(d);
        CHECK(n == want, "dofhandler dofs", who << ": " << l[k] << " expected " << Show(want));
      }
    }
  }
  if (ctrl > 0 && ctrl % 3 == 0) {
    for (unsigned d = 0; d < dh->NumDofs(); ++d, ++k) {
      CHECK(k < l.size(), "dofhandler dof list", who << " incomplete");
      const auto n = Nums(l[k]);
      const auto &e = dh->Entity(d);
      CHECK(n == (std::vector<double>{double(d), double(mesh.Index(e))}) && Contains(l[k], Name(e.RefEl())), "dofhandler dof entity", who << ": " << l[k]);
    }
  }
  CHECK(k == l.size(), "dofhandler trailing", who << ": " << l.size() << " lines, " << k << " expected");
  std::ostringstream o, p;
  o << *dh;
  PrintInfo(p, *dh, 0);
  CHECK(o.str() == p.str() && Nums(o.str()) == std::vector<double>{double(dh->NumDofs())}, "dofhandler operator<<", o.str());
}

PBT_SUB("quad_rule", 200, 2000, "level > 0") {
  const RefEl re = g.pick(std::vector<RefEl>{RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
  const unsigned deg = static_cast<unsigned>(g.i(re == RefEl::kTria() ? 1 : 0, 20));
  const auto q = lf::quad::make_QuadRule(re, deg);
  const int lev = g.b(0.3) ? 0 : static_cast<int>(g.i(1, 100));
  g.nontrivial(lev > 0);
  g.desc() << re << " degree " << deg << " level " << lev;
  const int prec = g.b() ? 6 : 15;
  const auto txt = Print([&](std::ostream &o) { q.PrintInfo(o, lev); }, "quad_rule", prec);
  CHECK(std::atoi(txt.c_str()) == static_cast<int>(q.NumPoints()), "quad_rule size", txt.substr(0, 60));
  if (lev > 0) {
    const auto l = Lines(txt);
    auto n0 = Nums(l[0]);
    CheckMatrix(n0, Mat(q.Weights().transpose()), "quad_rule weights", txt.substr(0, 60), prec);
    CheckMatrix(Join(l, 1, l.size()), q.Points(), "quad_rule points", txt.substr(0, 60), prec);
  }
  std::ostringstream o;
  o << q;
  CHECK(std::atoi(o.str().c_str()) == static_cast<int>(q.NumPoints()), "quad_rule operator<<", o.str());
}

PBT_SUB("coo", 200, 2000, "at least one entry") {
  const int r = static_cast<int>(g.i(0, 9)), c = static_cast<int>(g.i(0, 9));
  const int n = r * c == 0 ? 0 : static_cast<int>(g.i(0, 12));
  std::vector<std::vector<double>> tr;
  auto run = [&](auto scalar) {
    using S = decltype(scalar);
    lf::assemble::COOMatrix<S> A(r, c);
    for (int k = 0; k < n; ++k) {
      const int i = static_cast<int>(g.i(0, r - 1)), j = static_cast<int>(g.i(0, c - 1));
      const double v = static_cast<double>(g.i(-40, 40)) / 8;
      tr.push_back({double(i), double(j), v});
      if constexpr (std::is_same_v<S, double>) {
        A.AddToEntry(i, j, v);
      } else {
        const double im = static_cast<double>(g.i(-3, 3));
        tr.back().push_back(im);
        A.AddToEntry(i, j, S(v, im));
      }
    }
    const auto t1 = Print([&](std::ostream &o) { A.PrintInfo(o); }, "coo");
    const auto t2 = Print([&](std::ostream &o) { o << A; }, "coo");
    CHECK(t1 == t2, "coo operator<<", t1 << " / " << t2);
    CHECK(static_cast<int>(A.triplets().size()) == n && static_cast<int>(A.rows()) == r && static_cast<int>(A.cols()) == c, "coo altered", n);
    return t1;
  };
  const bool cx = g.b(0.3);
  const auto txt = cx ? run(std::complex<double>()) : run(double());
  g.desc() << r << "x" << c << " with " << n << " entries" << (cx ? ", complex" : "");
  g.nontrivial(n > 0);
  const auto l = Lines(txt);
  CHECK(static_cast<int>(l.size()) == n + 1, "coo lines", txt);
  std::smatch m;
  CHECK(std::regex_search(l[0], m, std::regex("^([0-9]+) x ([0-9]+)")) && std::stoi(m[1]) == r && std::stoi(m[2]) == c, "coo size", l[0]);
  for (int k = 0; k < n; ++k) {
    std::string s = l[k + 1];
    const auto p = s.find("->");
    if (p != std::string::npos) s.replace(p, 2, "  ");
    CHECK(Nums(s) == tr[k], "coo entry", l[k + 1] << " expected " << Show(tr[k]));
  }
}

PBT_SUB("fe_space", 60, 600, "always") {
  MeshOpt opt;
  opt.max_n = 2;
  HMesh hm = RandMesh(g, opt);
  auto sp = RandSpace<double>(g, hm.mesh, 1, 4, true);
  const auto &fes = *sp.s;
  g.desc() << sp.name;
  g.nontrivial(true);
  const double dim = fes.LocGlobMap().NumDofs();
  const auto t = Print([&](std::ostream &o) { o << fes; }, "fe_space");
  CHECK(Nums(t) == std::vector<double>{dim}, "fe_space dim", t);
  if (const auto *u = dynamic_cast<const lf::uscalfe::UniformScalarFESpace<double> *>(&fes)) {
    const unsigned ctrl = static_cast<unsigned>(g.raw(8));
    const auto l = Lines(Print([&](std::ostream &o) { PrintInfo(o, *u, ctrl); }, "fe_space"));
    CHECK(!l.empty() && Nums(l[0]) == std::vector<double>{dim}, "fe_space dim", l[0]);
    {
      std::ostringstream o;
      o << *u;
      CHECK(o.str() == l[0] + "\n", "fe_space operator<<", o.str());
    }
    std::size_t k = 1;
    if ((ctrl & lf::uscalfe::kUniformScalarFESpaceOutMesh) != 0) {
      std::ostringstream o;
      lf::mesh::utils::PrintInfo(o, *hm.mesh);
      for (const auto &x : Lines(o.str())) {
        CHECK(k < l.size() && l[k] == x, "fe_space mesh", x);
        ++k;
      }
      while (k < l.size() && l[k].empty()) ++k;
    }
    if ((ctrl & lf::uscalfe::kUniformScalarFESpaceOutDofh) != 0) {
      CHECK(k < l.size() && Nums(l[k]) == std::vector<double>{dim}, "fe_space dof handler", l.size());
      ++k;
    }
    if ((ctrl & lf::uscalfe::kUniformScalarFESpaceOutRsfs) != 0) {
      CHECK(l.size() == k + 4, "fe_space rsfs", l.size());
      const RefEl ty[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
      for (int i = 0; i < 4; ++i) {
        const auto n = Nums(l[k + i]);
        CHECK(n.size() == 1 && n[0] == u->NumRefShapeFunctions(ty[i]), "fe_space rsfs", l[k + i]);
        const auto &m = *u->Mesh();
        for (const auto *e : m.Entities(i < 2 ? 2 - i : 0))
          if (e->RefEl() == ty[i]) CHECK(n[0] == u->LocGlobMap().NumInteriorDofs(*e), "fe_space rsfs", l[k + i]);
      }
    }
  }
  // the shape functions
  const int codim = static_cast<int>(g.i(0, 2));
  const auto *e = hm.mesh->EntityByIndex(codim, g.i(0, static_cast<int>(hm.mesh->NumEntities(codim)) - 1));
  const auto *fe = fes.ShapeFunctionLayout(*e);
  if (fe == nullptr) return;
  const unsigned lev = static_cast<unsigned>(g.raw(3));
  const auto l = Lines(Print([&](std::ostream &o) { PrintInfo(o, *fe, lev); }, "ref_fe"));
  CHECK(!l.empty() && Contains(l[0], typeid(*fe).name()), "ref_fe name", l[0]);
  std::vector<double> n0 = Nums(l[0]);
  CHECK(n0 == (std::vector<double>{double(fe->Degree()), double(fe->NumRefShapeFunctions()), double(fe->NumEvaluationNodes())}), "ref_fe sizes", l[0]);
  if (lev > 0) CheckMatrix(Join(l, 1, l.size()), fe->EvaluationNodes(), "ref_fe nodes", l[0]);
  std::ostringstream o;
  o << *fe;
  CHECK(o.str() == l[0], "ref_fe operator<<", o.str());
}

PBT_SUB("hierarchy", 30, 300, "at least two levels") {
  MeshOpt opt;
  opt.max_n = 2;
  HMesh hm = RandMesh(g, opt);
  auto mh = MakeHierarchy(hm);
  HistOpt ho;
  ho.max_cells = 60;
  const int steps = static_cast<int>(g.raw(4));
  for (int k = 0; k < steps; ++k) {
    RefStep st;
    RandRefine(g, *mh, ho, st);
  }
  const unsigned ctrl = g.b() ? 0 : 2;
  g.nontrivial(mh->NumLevels() > 1);
  g.desc() << mh->NumLevels() << " levels, control " << ctrl;
  const auto l = Lines(Print([&](std::ostream &o) { mh->PrintInfo(o, ctrl); }, "hierarchy"));
  CHECK(!l.empty() && Nums(l[0]) == std::vector<double>{double(mh->NumLevels())}, "hierarchy levels", l[0]);
  std::size_t k = 1;
  for (unsigned lv = 0; lv < mh->NumLevels(); ++lv) {
    const auto &m = *mh->getMesh(lv);
    CHECK(k < l.size() && Starts(l[k], "l=" + std::to_string(lv) + ":"), "hierarchy level", lv);
    if (ctrl == 0) {
      const auto n = Nums(l[k].substr(l[k].find("->") + 2));
      CHECK(n == (std::vector<double>{double(lv), 0, 0, 0, 0, 0}) ||
                n == (std::vector<double>{double(m.NumEntities(0)), double(m.NumEntities(RefEl::kTria())), double(m.NumEntities(RefEl::kQuad())), double(m.NumEntities(1)), double(m.NumEntities(2))}),
            "hierarchy sizes", l[k]);
      CHECK(Contains(l[k], "2D") && Contains(l[k], std::to_string(hm.dim) + "D,"), "hierarchy dimensions", l[k]);
      ++k;
    } else {
      std::ostringstream o;
      lf::mesh::utils::PrintInfo(o, m);
      auto ml = Lines(o.str());
      ml[0] = "l=" + std::to_string(lv) + ": " + ml[0];
      for (const auto &x : ml) {
        CHECK(k < l.size() && l[k] == x, "hierarchy mesh", (k < l.size() ? l[k] : "end") << " expected " << x);
        ++k;
      }
    }
  }
  CHECK(k == l.size(), "hierarchy trailing", l.size() - k);
}

PBT_SUB("factory", 100, 900, "at least one edge or cell geometry") {
  const int dim = g.b(0.3) ? 3 : 2;
  lf::mesh::hybrid2d::MeshFactory f(dim, false);
  const int n = static_cast<int>(g.i(4, 9));
  Mat X(dim, n);
  for (int k = 0; k < n; ++k)
    for (int d = 0; d < dim; ++d) X(d, k) = static_cast<double>(g.i(-20, 20)) / 4;
  for (int k = 0; k < n; ++k) f.AddPoint(Vec(X.col(k)));
  struct Ent { std::vector<unsigned> v; bool geo; };
  std::vector<Ent> ed, ce;
  auto nodes = [&](int m) {
    auto p = g.perm(n);
    std::vector<unsigned> v;
    for (int k = 0; k < m; ++k) v.push_back(p[k]);
    return v;
  };
  auto coords = [&](const std::vector<unsigned> &v) {
    Mat C(dim, v.size());
    for (std::size_t k = 0; k < v.size(); ++k) C.col(k) = X.col(v[k]);
    return C;
  };
  const int ne = static_cast<int>(g.raw(4)), nc = static_cast<int>(g.raw(4));
  for (int k = 0; k < ne; ++k) {
    Ent e{nodes(2), g.b()};
    const std::array<unsigned, 2> a{e.v[0], e.v[1]};
    f.AddEntity(RefEl::kSegment(), a, e.geo ? std::make_unique<lf::geometry::SegmentO1>(coords(e.v)) : nullptr);
    ed.push_back(e);
  }
  for (int k = 0; k < nc; ++k) {
    // a fixed non-degenerate cell shape is used as geometry: the factory only lists it
    Ent e{nodes(g.b() ? 3 : 4), false};
    f.AddEntity(e.v.size() == 3 ? RefEl::kTria() : RefEl::kQuad(), std::span<const unsigned>(e.v), nullptr);
    ce.push_back(e);
  }
  bool anygeo = nc > 0;
  for (const auto &e : ed) anygeo = anygeo || e.geo;
  g.nontrivial(anygeo);
  g.desc() << n << " nodes, " << ne << " edges, " << nc << " cells";
  const auto l = Lines(Print([&](std::ostream &o) { f.PrintLists(o); }, "factory"));
  std::size_t k = 1;
  auto next = [&]() -> std::string {
    CHECK(k < l.size(), "factory incomplete", k);
    return l[k++];
  };
  CHECK(Nums(next()) == std::vector<double>{double(n)}, "factory nodes", n);
  for (int j = 0; j < n; ++j) {
    auto v = Nums(next());
    std::vector<double> w{double(j)};
    for (int d = 0; d < dim; ++d) w.push_back(X(d, j));
    CHECK(v == w, "factory node", Show(v));
  }
  CHECK(Nums(next()) == std::vector<double>{double(ne)}, "factory edges", ne);
  for (int j = 0; j < ne; ++j) {
    const std::string s = next();
    CHECK(Nums(s) == (std::vector<double>{double(j), double(ed[j].v[0]), double(ed[j].v[1])}), "factory edge", s);
    CHECK(Contains(s, "with geometry") == ed[j].geo, "factory edge geometry", s);
  }
  CHECK(Nums(next()) == std::vector<double>{double(nc)}, "factory cells", nc);
  for (int j = 0; j < nc; ++j) {
    const std::string s = next();
    std::vector<double> w{double(j)};
    for (auto v : ce[j].v) w.push_back(v);
    CHECK(Nums(s) == w, "factory cell", s);
  }
  CHECK(k == l.size(), "factory trailing", l.size() - k);
}

PBT_SUB("gmsh_v2", 150, 1500, "at least one element or periodic entity") {
  lf::io::GMshFileV2 f;
  f.VersionNumber = "2.2";
  f.IsBinary = g.b();
  f.DoubleSize = 8;
  std::vector<std::vector<double>> phys, nodes, elem, per;
  const int np = static_cast<int>(g.raw(3)), nn = static_cast<int>(g.raw(5)), ne = static_cast<int>(g.raw(4)), npe = static_cast<int>(g.raw(3));
  for (int k = 0; k < np; ++k) {
    lf::io::GMshFileV2::PhysicalEntity p;
    p.Dimension = static_cast<int>(g.raw(4));
    p.Number = static_cast<int>(g.i(1, 99));
    p.Name = "name";
    f.PhysicalEntities.push_back(p);
    phys.push_back({double(p.Dimension), double(p.Number)});
  }
  for (int k = 0; k < nn; ++k) {
    const unsigned id = static_cast<unsigned>(g.i(1, 500));
    Eigen::Vector3d x(g.i(-9, 9) / 4., g.i(-9, 9) / 4., g.i(-9, 9) / 4.);
    f.Nodes.emplace_back(id, x);
    nodes.push_back({double(id), x(0), x(1), x(2)});
  }
  for (int k = 0; k < ne; ++k) {
    lf::io::GMshFileV2::Element e;
    e.Number = static_cast<unsigned>(g.i(1, 999));
    e.Type = g.pick(std::vector<lf::io::GMshFileV2::ElementType>(lf::io::GMshFileV2::AllElementTypes));
    e.PhysicalEntityNr = static_cast<int>(g.i(0, 9));
    e.ElementaryEntityNr = static_cast<int>(g.i(1, 9));
    for (int j = 0, m = static_cast<int>(g.raw(3)); j < m; ++j) e.MeshPartitions.push_back(static_cast<int>(g.i(1, 9)));
    for (int j = 0, m = static_cast<int>(g.raw(5)); j < m; ++j) e.NodeNumbers.push_back(static_cast<unsigned>(g.i(1, 99)));
    std::vector<double> w{double(e.Number), double(e.PhysicalEntityNr), double(e.ElementaryEntityNr)};
    for (auto p : e.MeshPartitions) w.push_back(p);
    for (auto p : e.NodeNumbers) w.push_back(p);
    f.Elements.push_back(e);
    elem.push_back(w);
  }
  for (int k = 0; k < npe; ++k) {
    lf::io::GMshFileV2::PeriodicEntity p;
    p.Dimension = static_cast<int>(g.raw(3));
    p.ElementarySlaveNr = static_cast<int>(g.i(1, 9));
    p.ElementaryMasterNr = static_cast<int>(g.i(1, 9));
    per.push_back({double(p.Dimension), double(p.ElementarySlaveNr), double(p.ElementaryMasterNr)});
    for (int j = 0, m = static_cast<int>(g.raw(4)); j < m; ++j) {
      p.NodeMapping.emplace_back(static_cast<unsigned>(g.i(1, 99)), static_cast<unsigned>(g.i(1, 99)));
      per.push_back({double(p.NodeMapping.back().first), double(p.NodeMapping.back().second)});
    }
    f.Periodic.push_back(p);
  }
  g.nontrivial(ne + npe > 0);
  g.desc() << np << " names, " << nn << " nodes, " << ne << " elements, " << npe << " periodic entities";
  const auto l = Lines(Print([&](std::ostream &o) { o << f; }, "gmsh_v2"));
  // sections are headed by lines in capitals ending in a colon or parenthesis
  std::vector<std::vector<double>> got[4];
  int sec = -1;
  for (const auto &s : l) {
    if (Starts(s, "PHYSICAL")) sec = 0;
    else if (Starts(s, "NODES")) sec = 1;
    else if (Starts(s, "ELEMENTS")) sec = 2;
    else if (Starts(s, "PERIODIC")) sec = 3;
    else if (sec >= 0 && !s.empty()) got[sec].push_back(Nums(s));
  }
  CHECK(got[0] == phys, "gmsh_v2 names", got[0].size());
  CHECK(got[1] == nodes, "gmsh_v2 nodes", got[1].size());
  CHECK(got[2] == elem, "gmsh_v2 elements", got[2].size());
  CHECK(got[3] == per, "gmsh_v2 periodic", got[3].size() << " lines, expected " << per.size());
  for (std::size_t k = 0, e = 0; k < l.size() && e < f.Elements.size(); ++k) {
    static bool in;
    if (Starts(l[k], "ELEMENTS")) { in = true; continue; }
    if (in) {
      std::ostringstream o;
      o << f.Elements[e].Type;
      CHECK(!o.str().empty() && Contains(l[k], o.str()), "gmsh_v2 element type", l[k]);
      ++e;
    }
    if (e == f.Elements.size()) in = false;
  }
}

namespace {
/// the element types of the Gmsh manual
struct GT { int code; const char *name; int nodes, dim; RefEl re; };
const GT kGT[] = {
    {1, "EDGE2", 2, 1, RefEl::kSegment()}, {2, "TRIA3", 3, 2, RefEl::kTria()}, {3, "QUAD4", 4, 2, RefEl::kQuad()}, {4, "TET4", 4, 3, RefEl::kPoint()},
    {5, "HEX8", 8, 3, RefEl::kPoint()}, {6, "PRISM6", 6, 3, RefEl::kPoint()}, {7, "PYRAMID5", 5, 3, RefEl::kPoint()}, {8, "EDGE3", 3, 1, RefEl::kSegment()},
    {9, "TRIA6", 6, 2, RefEl::kTria()}, {10, "QUAD9", 9, 2, RefEl::kQuad()}, {11, "TET10", 10, 3, RefEl::kPoint()}, {12, "HEX27", 27, 3, RefEl::kPoint()},
    {13, "PRISM18", 18, 3, RefEl::kPoint()}, {14, "PYRAMID14", 14, 3, RefEl::kPoint()}, {15, "POINT", 1, 0, RefEl::kPoint()}, {16, "QUAD8", 8, 2, RefEl::kQuad()},
    {17, "HEX20", 20, 3, RefEl::kPoint()}, {18, "PRISM15", 15, 3, RefEl::kPoint()}, {19, "PYRAMID13", 13, 3, RefEl::kPoint()}, {20, "TRIA9", 9, 2, RefEl::kTria()},
    {21, "TRIA10", 10, 2, RefEl::kTria()}, {22, "TRIA12", 12, 2, RefEl::kTria()}, {23, "TRIA15", 15, 2, RefEl::kTria()}, {24, "TRIA15_5", 15, 2, RefEl::kTria()},
    {25, "TRIA21", 21, 2, RefEl::kTria()}, {26, "EDGE4", 4, 1, RefEl::kSegment()}, {27, "EDGE5", 5, 1, RefEl::kSegment()}, {28, "EDGE6", 6, 1, RefEl::kSegment()},
    {29, "TET20", 20, 3, RefEl::kPoint()}, {30, "TET35", 35, 3, RefEl::kPoint()}, {31, "TET56", 56, 3, RefEl::kPoint()}, {92, "HEX64", 64, 3, RefEl::kPoint()},
    {93, "HEX125", 125, 3, RefEl::kPoint()}};
template <class F>
void CheckType(const GT &t) {
  const auto et = static_cast<typename F::ElementType>(t.code);
  std::ostringstream o;
  o << et;
  CHECK(o.str() == t.name, "gmsh element name", t.name << " printed as " << o.str());
  CHECK(static_cast<int>(lf::io::NumNodes(et)) == t.nodes, "gmsh element nodes", t.name << " has " << lf::io::NumNodes(et) << " nodes");
  CHECK(lf::io::DimOf(et) == t.dim, "gmsh element dimension", t.name << " has dimension " << lf::io::DimOf(et));
  if (t.dim < 3) CHECK(lf::io::RefElOf(et) == t.re, "gmsh element topology", t.name << " is a " << lf::io::RefElOf(et));
}
}  // namespace

PBT_SUB("gmsh_types", 1, 1, "all 33 element types of the Gmsh manual (exhaustive)") {
  std::set<int> codes;
  for (auto e : lf::io::GMshFileV2::AllElementTypes) codes.insert(static_cast<int>(e));
  for (const auto &t : kGT) {
    CheckType<lf::io::GMshFileV2>(t);
    CheckType<lf::io::GMshFileV4>(t);
    codes.erase(t.code);
  }
  CHECK(codes.empty(), "gmsh unknown types", codes.size());
  g.desc() << "33 types, two file versions";
  g.nontrivial(true);
}

PBT_SUB("fmt_matrix", 300, 3000, "at least 2 entries") {
  const int r = static_cast<int>(g.i(1, 5)), c = static_cast<int>(g.i(1, 5));
  Mat M(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) M(i, j) = g.b(0.3) ? static_cast<double>(g.i(-99, 99)) : g.num();
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      if (!std::isfinite(M(i, j))) M(i, j) = 1;
  const int prec = static_cast<int>(g.i(1, 17));
  g.desc() << r << "x" << c << " precision " << prec;
  g.nontrivial(r * c > 1);
  const std::string s = fmt::format(fmt::runtime("pre{:." + std::to_string(prec) + "}post"), M);
  CHECK(Starts(s, "pre") && s.size() > 7 && s.substr(s.size() - 4) == "post", "fmt text", s);
  std::string b = s.substr(3, s.size() - 7);
  const auto l = Lines(b);
  CHECK(static_cast<int>(l.size()) == r, "fmt rows", s);
  for (int i = 0; i < r; ++i) {
    const auto n = Nums(l[i]);
    CHECK(static_cast<int>(n.size()) == c, "fmt columns", l[i]);
    for (int j = 0; j < c; ++j)
      CHECK(std::abs(n[j] - M(i, j)) <= 6 * std::pow(10.0, -prec) * std::abs(M(i, j)), "fmt entry", "precision " << prec << ": " << l[i] << " for " << M(i, j));
  }
  const std::string d = fmt::format("{}", M);
  CHECK(Lines(d).size() == static_cast<std::size_t>(r), "fmt default", d);
}
