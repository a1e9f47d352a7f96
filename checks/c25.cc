// C25: Matlab, Python and TikZ exports list the mesh faithfully.
#include <lf/io/io.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/refinement/refinement.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <regex>

#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
namespace io = lf::io;
namespace {

class TmpDir {
 public:
  TmpDir() {
    std::string t = std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/verifpbt.XXXXXX";
    if (!mkdtemp(t.data())) throw pbt::Discard();
    path = t;
  }
  ~TmpDir() {
    std::error_code ec;
    for (const auto &e : std::filesystem::directory_iterator(path, ec)) ::unlink(e.path().c_str());
    ::rmdir(path.c_str());
  }
  TmpDir(const TmpDir &) = delete;
  std::string path;
  std::vector<std::string> Files() const {
    std::vector<std::string> r;
    for (const auto &e : std::filesystem::directory_iterator(path)) r.push_back(e.path().filename().string());
    std::sort(r.begin(), r.end());
    return r;
  }
};
std::vector<std::string> Lines(const std::string &path) {
  std::ifstream f(path);
  std::vector<std::string> r;
  std::string l;
  while (std::getline(f, l)) r.push_back(l);
  return r;
}
std::vector<double> Numbers(const std::string &s, const std::string &what) {
  std::vector<double> r;
  std::string t;
  auto flush = [&] {
    if (t.empty()) return;
    char *end;
    r.push_back(std::strtod(t.c_str(), &end));
    CHECK(*end == 0, "not a number", what << ": '" << t << "'");
    t.clear();
  };
  for (char c : s) {
    if (c == ',' || c == ' ') flush();
    else t += c;
  }
  flush();
  return r;
}
/// Minimal interpreter for the generated MATLAB functions
struct Matlab {
  std::vector<std::string> outputs;
  std::string name;
  std::map<std::string, std::map<long, std::vector<double>>> rows;  // var(i) = / var(i,:) =
  std::map<std::string, long> zeros;
  explicit Matlab(const std::string &path) {
    const auto ls = Lines(path);
    CHECK(!ls.empty(), "empty file", path << " is empty or missing");
    static const std::regex fn(R"(\s*function\s+\[([A-Za-z,\s]*)\]\s*=\s*(\S+)\(\)\s*)");
    static const std::regex zs(R"(([A-Za-z]+)\s*=\s*zeros\((\d+),\s*(\d+)\))");
    static const std::regex em(R"(([A-Za-z]+)\s*=\s*\[\s*\])");
    static const std::regex sc(R"(([A-Za-z]+)\((\d+)\)\s*=\s*(\S+))");
    static const std::regex rw(R"(([A-Za-z]+)\((\d+),:\)\s*=\s*\[(.*)\])");
    bool first = true;
    for (const auto &raw : ls) {
      std::string l = raw.substr(0, raw.find('%'));
      std::smatch m;
      if (first) {
        if (l.find_first_not_of(" \t") == std::string::npos) continue;
        CHECK(std::regex_match(l, m, fn), "no function", "first line '" << l << "'");
        std::string o = m[1];
        std::replace(o.begin(), o.end(), ',', ' ');
        std::istringstream is(o);
        for (std::string w; is >> w;) outputs.push_back(w);
        name = m[2];
        first = false;
        continue;
      }
      std::istringstream st(l);
      for (std::string s; std::getline(st, s, ';');) {
        const auto a = s.find_first_not_of(" \t");
        if (a == std::string::npos) continue;
        s = s.substr(a, s.find_last_not_of(" \t") - a + 1);
        if (std::regex_match(s, m, zs)) {
          zeros[m[1]] = std::stol(m[2]);
          rows[m[1]];
        } else if (std::regex_match(s, m, em)) {
          rows[m[1]].clear();
        } else if (std::regex_match(s, m, rw)) {
          Put(m[1], std::stol(m[2]), Numbers(m[3], "row"));
        } else if (std::regex_match(s, m, sc)) {
          Put(m[1], std::stol(m[2]), Numbers(m[3], "value"));
        } else {
          CHECK(s == "end", "statement", "cannot interpret '" << s << "'");
        }
      }
    }
  }
  void Put(const std::string &v, long i, std::vector<double> x) {
    CHECK(i >= 1, "index", v << "(" << i << ")");
    CHECK(!rows[v].count(i), "assigned twice", v << "(" << i << ") assigned twice");
    rows[v][i] = std::move(x);
  }
  /// rows 1..n of the given width
  void Shape(const std::string &v, long n, size_t width) const {
    const auto it = rows.find(v);
    const long m = it == rows.end() ? 0 : it->second.size();
    CHECK(m == n && (n == 0 || it->second.rbegin()->first == n), "rows", v << " has " << m << " rows instead of " << n);
    const auto z = zeros.find(v);
    if (z != zeros.end()) CHECK(z->second == n, "rows", v << " allocated with " << z->second << " rows instead of " << n);
    if (it != rows.end())
      for (auto &[i, r] : it->second) CHECK(r.size() == width, "row width", v << " row " << i << " has " << r.size() << " entries");
  }
};
bool Near(double a, double b) { return std::abs(a - b) <= 1e-5 * std::abs(b) + 1e-12; }

void CheckMatlabMesh(const std::string &path, const lf::mesh::Mesh &mesh, const std::string &fname) {
  const Matlab m(path);
  CHECK((m.outputs == std::vector<std::string>{"x", "y", "TRI", "QUAD", "EDS"}), "outputs", "outputs of the function");
  const std::string base = m.name.substr(m.name.rfind('/') == std::string::npos ? 0 : m.name.rfind('/') + 1);
  CHECK(base == fname, "function name", "function '" << base << "' in a file '" << fname << ".m'");
  const long nn = mesh.NumEntities(2), ne = mesh.NumEntities(1);
  m.Shape("x", nn, 1);
  m.Shape("y", nn, 1);
  m.Shape("EDS", ne, 2);
  for (const auto *n : mesh.Entities(2)) {
    const long i = mesh.Index(*n) + 1;
    const Vec p = NodePos(*n);
    CHECK(Near(m.rows.at("x").at(i)[0], p[0]) && Near(m.rows.at("y").at(i)[0], p[1]), "node position", "node " << i - 1 << " at (" << m.rows.at("x").at(i)[0] << "," << m.rows.at("y").at(i)[0] << ") instead of (" << p[0] << "," << p[1] << ")");
  }
  for (const auto *e : mesh.Entities(1)) {
    const auto &r = m.rows.at("EDS").at(mesh.Index(*e) + 1);
    for (int k = 0; k < 2; ++k) CHECK(r[k] == mesh.Index(*e->SubEntities(1)[k]) + 1, "edge", "edge " << mesh.Index(*e) << " end " << k << " is " << r[k]);
  }
  std::map<long, std::vector<double>> cell;
  long nt = 0, nq = 0;
  for (const auto *c : mesh.Entities(0)) (c->RefEl() == lf::base::RefEl::kTria() ? nt : nq)++;
  m.Shape("TRI", nt, 4);
  m.Shape("QUAD", nq, 5);
  for (const char *v : {"TRI", "QUAD"}) {
    if (!m.rows.count(v)) continue;
    for (auto &[i, r] : m.rows.at(v)) {
      const long id = std::lround(r.back());
      CHECK(id >= 0 && id < static_cast<long>(mesh.NumEntities(0)) && !cell.count(id), "cell index", v << " row " << i << ": cell index " << id);
      cell[id] = r;
      const auto *c = mesh.EntityByIndex(0, id);
      CHECK(c->RefEl().NumNodes() + 1 == r.size(), "cell type", "cell " << id << " listed in " << v);
      for (size_t k = 0; k + 1 < r.size(); ++k) CHECK(r[k] == mesh.Index(*c->SubEntities(2)[k]) + 1, "cell node", "cell " << id << " node " << k << " is " << r[k]);
    }
  }
}

void CheckCsv(const std::string &path, const lf::mesh::Mesh &mesh) {
  std::array<std::set<long>, 3> seen;
  for (const auto &l : Lines(path)) {
    if (l.empty()) continue;
    const auto v = Numbers(l, "csv line '" + l + "'");
    CHECK(v.size() >= 2, "csv line", "'" << l << "'");
    const int cd = static_cast<int>(v[0]);
    const long id = std::lround(v[1]);
    CHECK(cd >= 0 && cd <= 2 && v[0] == cd, "csv codimension", "'" << l << "'");
    CHECK(id >= 0 && id < static_cast<long>(mesh.NumEntities(cd)) && seen[cd].insert(id).second, "csv index", "'" << l << "'");
    const auto *e = mesh.EntityByIndex(cd, id);
    if (cd == 2) {
      const Vec p = NodePos(*e);
      CHECK(v.size() == 4 && Near(v[2], p[0]) && Near(v[3], p[1]), "csv point", "'" << l << "' instead of (" << p[0] << "," << p[1] << ")");
    } else {
      const auto sub = e->SubEntities(1);
      CHECK(v.size() == 2 + sub.size(), "csv line length", "'" << l << "'");
      for (size_t k = 0; k < sub.size(); ++k) CHECK(v[2 + k] == mesh.Index(*sub[k]), "csv subentity", "'" << l << "': entry " << k << " should be " << mesh.Index(*sub[k]));
    }
  }
  for (int cd = 0; cd < 3; ++cd) CHECK(seen[cd].size() == mesh.NumEntities(cd), "csv entities", seen[cd].size() << " entities of codimension " << cd << " instead of " << mesh.NumEntities(cd));
}

std::string RandFile(pbt::G &g, const std::string &ext) {
  static const std::vector<std::string> pool{"mesh", "m", "ab", "team", "mm", "a1m", "hybrid_mesh", "x.y", "c", "s", "Mesh0", "csv", "mcsv", "zm"};
  std::string s = g.pick(pool);
  if (g.b(0.4)) s += ext;
  return s;
}
/// documented name of the file
std::string Full(const std::string &s, const std::string &ext) { return s.size() >= ext.size() && s.compare(s.size() - ext.size(), ext.size(), ext) == 0 ? s : s + ext; }

HMesh Mesh_(pbt::G &g, bool many = true) {
  MeshOpt o;
  o.max_n = many && g.b(0.2) ? 9 : 4;
  o.allow_curved = o.allow_3d = o.allow_holes = o.allow_explicit_edges = true;
  return RandMesh(g, o);
}
struct Cwd {
  std::filesystem::path old = std::filesystem::current_path();
  explicit Cwd(const std::string &p) { std::filesystem::current_path(p); }
  ~Cwd() { std::filesystem::current_path(old); }
};
}  // namespace

PBT_SUB("matlab", 40, 400, "a mesh of at least two cells") {
  HMesh hm = Mesh_(g);
  const std::string f = RandFile(g, ".m");
  TmpDir d;
  g.desc() << "file '" << f << "'";
  if (hm.cells.size() >= 2) g.nontrivial();
  if (f == "x.y") g.label("dot in the name");
  {
    Cwd c(d.path);
    const bool rel = g.b();
    io::writeMatlab(*hm.mesh, rel ? f : d.path + "/" + f);
  }
  const auto files = d.Files();
  const std::string full = Full(f, ".m");
  CHECK(files == std::vector<std::string>{full}, "file name", "writeMatlab(\"" << f << "\") writes " << (files.empty() ? "nothing" : files[0]));
  CheckMatlabMesh(d.path + "/" + full, *hm.mesh, full.substr(0, full.size() - 2));
}

PBT_SUB("matplotlib", 40, 400, "a mesh of at least two cells") {
  HMesh hm = Mesh_(g);
  const std::string f = RandFile(g, ".csv");
  TmpDir d;
  g.desc() << "file '" << f << "'";
  if (hm.cells.size() >= 2) g.nontrivial();
  {
    Cwd c(d.path);
    io::writeMatplotlib(*hm.mesh, g.b() ? f : d.path + "/" + f);
  }
  const auto files = d.Files();
  const std::string full = Full(f, ".csv");
  CHECK(files == std::vector<std::string>{full}, "file name", "writeMatplotlib(\"" << f << "\") writes " << (files.empty() ? "nothing" : files[0]));
  CheckCsv(d.path + "/" + full, *hm.mesh);
}

PBT_SUB("hierarchy", 20, 200, "a hierarchy of at least two levels") {
  MeshOpt o;
  o.max_n = 3;
  o.allow_curved = true;
  HMesh hm = RandMesh(g, o);
  HistOpt ho;
  ho.max_steps = 3;
  ho.max_cells = 60;
  std::vector<RefStep> steps;
  auto mh = MakeHierarchy(hm);
  const int n = g.i(0, 3);
  for (int k = 0; k < n; ++k) {
    RefStep s;
    if (!RandRefine(g, *mh, ho, s)) break;
  }
  g.desc() << " levels " << mh->NumLevels();
  g.label("levels " + std::to_string(mh->NumLevels()));
  if (mh->NumLevels() > 1) g.nontrivial();
  TmpDir d;
  const std::string base = g.pick(std::vector<std::string>{"h", "mesh", "team", "a.m", "ref1"});
  {
    Cwd c(d.path);
    if (g.b(0.7)) {
      lf::refinement::WriteMatlab(*mh, base);
    } else {
      for (unsigned l = 0; l < mh->NumLevels(); ++l) {
        io::writeMatlab(*mh->getMesh(l), base + "_L" + std::to_string(l));
        lf::refinement::WriteMatlabLevel(*mh, l, base + "_L" + std::to_string(l) + "_pi" + (g.b() ? ".m" : ""));
      }
      g.label("single levels");
    }
  }
  std::vector<std::string> exp;
  for (unsigned l = 0; l < mh->NumLevels(); ++l) {
    exp.push_back(base + "_L" + std::to_string(l) + ".m");
    exp.push_back(base + "_L" + std::to_string(l) + "_pi.m");
  }
  std::sort(exp.begin(), exp.end());
  CHECK(d.Files() == exp, "files", "files of the hierarchy: " << d.Files().size() << " instead of " << exp.size());
  auto num = [](unsigned i) { return i == lf::base::kIdxNil ? -1. : static_cast<double>(i); };
  for (unsigned l = 0; l < mh->NumLevels(); ++l) {
    const std::string stem = base + "_L" + std::to_string(l);
    const auto &mesh = *mh->getMesh(l);
    CheckMatlabMesh(d.path + "/" + stem + ".m", mesh, stem);
    const Matlab m(d.path + "/" + stem + "_pi.m");
    CHECK((m.outputs == std::vector<std::string>{"PTPAR", "EDPAR", "CELLPAR"}), "outputs", "outputs of the parent function");
    const std::array<std::string, 3> nm{"CELLPAR", "EDPAR", "PTPAR"};
    for (int cd = 0; cd < 3; ++cd) {
      m.Shape(nm[cd], mesh.NumEntities(cd), cd == 0 ? 3 : 2);
      const auto &pi = mh->ParentInfos(l, cd);
      for (unsigned k = 0; k < mesh.NumEntities(cd); ++k) {
        const auto &r = m.rows.at(nm[cd]).at(k + 1);
        CHECK(r[0] == num(pi[k].parent_index) && r[1] == num(pi[k].child_number), "parent info", "level " << l << " " << nm[cd] << " " << k << ": [" << r[0] << "," << r[1] << "] instead of [" << num(pi[k].parent_index) << "," << num(pi[k].child_number) << "]");
        if (cd == 0) CHECK(r[2] == num(mh->RefinementEdges(l)[k]), "refinement edge", "level " << l << " cell " << k << ": " << r[2]);
      }
    }
  }
}

namespace {
struct Draw {
  std::vector<Eigen::Vector2d> p;
  std::vector<std::pair<int, std::string>> lab;  // number of coordinates before the label, text
  bool cycle = false, arrow = false, used = false;
  std::string src;
};
Draw ParseDraw(const std::string &s) {
  Draw d;
  d.src = s;
  size_t i = 5;  // behind \draw
  auto ws = [&] {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i;
  };
  auto bad = [&](const char *w) { FAIL("TikZ syntax", w << " in '" << s << "'"); };
  auto bracket = [&](char a, char b) -> std::string {
    if (s[i] != a) bad("missing bracket");
    const size_t e = s.find(b, i);
    if (e == std::string::npos) bad("missing bracket");
    std::string r = s.substr(i + 1, e - i - 1);
    i = e + 1;
    return r;
  };
  ws();
  if (i < s.size() && s[i] == '[') d.arrow = bracket('[', ']').find("->") != std::string::npos;
  bool sep = true;
  for (;;) {
    ws();
    if (i >= s.size()) break;
    if (s[i] == '(') {
      if (!sep) bad("two coordinates without --");
      const auto v = Numbers(bracket('(', ')'), "coordinate");
      if (v.size() != 2) bad("coordinate");
      d.p.push_back({v[0], v[1]});
      sep = false;
    } else if (s.compare(i, 2, "--") == 0) {
      i += 2;
      if (sep) bad("--");
      sep = true;
    } else if (s.compare(i, 4, "node") == 0) {
      i += 4;
      ws();
      if (s[i] == '[') bracket('[', ']');
      ws();
      d.lab.push_back({static_cast<int>(d.p.size()) * 2 - (sep ? 0 : 1), bracket('{', '}')});
    } else if (s.compare(i, 5, "cycle") == 0) {
      i += 5;
      if (!sep) bad("cycle");
      d.cycle = true;
      sep = false;
    } else {
      bad("unexpected text");
    }
  }
  return d;
}
}  // namespace

PBT_SUB("tikz", 60, 600, "at least two entities selected and at least one flag set") {
  HMesh hm = Mesh_(g);
  const auto &mesh = *hm.mesh;
  unsigned flags = g.raw(128);
  const int how = g.i(0, 4);
  std::map<const lf::mesh::Entity *, bool> sel;
  unsigned nsel = 0;
  const double p = how == 1 ? g.r(0, 1) : 1;
  const int only = how == 2 ? g.i(0, 2) : -1;
  for (int cd = 0; cd < 3; ++cd)
    for (const auto *e : mesh.Entities(cd)) {
      sel[e] = (only < 0 || only == cd) && g.b(p);
      nsel += sel[e];
    }
  if (nsel >= 2 && flags) g.nontrivial();
  TmpDir d;
  const std::string f = d.path + "/m.tex";
  bool ok;
  if (how == 3) {
    for (auto &q : sel) q.second = true;
    ok = io::writeTikZ(mesh, f, static_cast<io::TikzOutputCtrl>(flags));
    g.label("without selector");
  } else if (how == 4 && g.b(0.3)) {
    for (auto &q : sel) q.second = true;
    flags = 7;
    ok = io::writeTikZ(mesh, f);
    g.label("default flags");
  } else {
    ok = io::writeTikZ(mesh, f, [&](const lf::mesh::Entity &e) -> bool { return sel.at(&e); }, static_cast<io::TikzOutputCtrl>(flags));
  }
  g.desc() << "flags " << flags << " selected " << nsel;
  CHECK(ok, "return value", "writeTikZ() returns false");
  {
    const bool r = io::writeTikZ(mesh, d.path + "/nodir/m.tex", [](const lf::mesh::Entity &) { return true; }, static_cast<io::TikzOutputCtrl>(flags));
    CHECK(!r, "return value", "writeTikZ() returns true although the file cannot be written");
  }
  const bool RC = flags & 1, CN = flags & 2, VN = flags & 4, NN = flags & 8, EN = flags & 16, AT = flags & 32, WP = flags & 64;
  // split into statements
  std::string body;
  for (auto &l : Lines(f)) {
    const auto q = l.find('%');
    body += l.substr(0, q) + "\n";
  }
  auto count = [&](const std::string &w) {
    int n = 0;
    for (size_t q = body.find(w); q != std::string::npos; q = body.find(w, q + 1)) ++n;
    return n;
  };
  CHECK(count("\\documentclass") == (WP ? 1 : 0) && count("\\begin{document}") == (WP ? 1 : 0) && count("\\end{document}") == (WP ? 1 : 0), "preamble", "document environment with flags " << flags);
  CHECK(count("\\begin{tikzpicture}") == 1 && count("\\end{tikzpicture}") == 1, "picture", "tikzpicture environment");
  const size_t b0 = body.find("\\begin{tikzpicture}"), b1 = body.find("\\end{tikzpicture}");
  CHECK(b0 < b1, "picture", "tikzpicture environment");
  if (WP) CHECK(body.find("\\documentclass") < body.find("\\begin{document}") && body.find("\\begin{document}") < b0 && b1 < body.find("\\end{document}"), "preamble", "order of the environments");
  std::vector<Draw> draws;
  for (size_t q = body.find("\\draw", b0); q != std::string::npos && q < b1;) {
    const size_t e = body.find(';', q);
    CHECK(e != std::string::npos && e < b1, "TikZ syntax", "unterminated command");
    draws.push_back(ParseDraw(body.substr(q, e - q)));
    q = body.find("\\draw", q + 1);
    CHECK(q > e, "TikZ syntax", "unterminated command");
  }
  // expectations
  auto near2 = [&](const Eigen::Vector2d &a, const Eigen::Vector2d &b) { return (a - b).norm() <= 2e-5 * std::max(std::abs(b[0]), std::abs(b[1])) + 2e-5 * hm.scale; };
  auto xy = [&](const lf::mesh::Entity &e) {
    const Mat m = e.Geometry()->Global(e.RefEl().NodeCoords());
    return Mat(m.topRows(2));
  };
  auto find = [&](const std::function<bool(const Draw &)> &pr) -> Draw * {
    for (auto &w : draws)
      if (!w.used && pr(w)) {
        w.used = true;
        return &w;
      }
    return nullptr;
  };
  /// scaled copy of the corners about their mean
  auto scaled = [&](const Draw &w, const Mat &X, double lo) {
    if (static_cast<int>(w.p.size()) != X.cols()) return false;
    const Eigen::Vector2d c = X.rowwise().mean();
    double num = 0, den = 0;
    for (int k = 0; k < X.cols(); ++k) {
      num += (w.p[k] - c).dot(X.col(k) - c);
      den += (X.col(k) - c).squaredNorm();
    }
    const double s = den > 0 ? num / den : 1;
    if (!(s >= lo && s <= 1 + 1e-3)) return false;
    for (int k = 0; k < X.cols(); ++k)
      if (!near2(w.p[k], c + s * (X.col(k) - c))) return false;
    return true;
  };
  for (int cd = 0; cd < 3; ++cd)
    for (const auto *e : mesh.Entities(cd)) {
      if (!sel[e]) continue;
      const Mat X = xy(*e);
      const std::string id = std::to_string(mesh.Index(*e));
      const int n = X.cols();
      if (cd == 2) {
        Draw *w = find([&](const Draw &q) { return q.p.size() == 1 && near2(q.p[0], X.col(0)) && q.lab.size() == 1 && (NN ? q.lab[0].second == id : q.lab[0].second.find_first_of("0123456789") == std::string::npos); });
        CHECK(w, "node", "node " << id << " is not drawn at (" << X(0, 0) << "," << X(1, 0) << ")" << (NN ? " with its number" : " without number"));
      } else if (cd == 1) {
        Draw *w = find([&](const Draw &q) { return !q.cycle && q.p.size() == 2 && scaled(q, X, AT ? 0.5 : 0.999); });
        CHECK(w, "edge", "edge " << id << " is not drawn (flags " << flags << ")");
        CHECK(w->arrow == AT, "arrow", "edge " << id << " drawn " << (w->arrow ? "with" : "without") << " an arrow");
        CHECK(static_cast<int>(w->lab.size()) == (EN ? 1 : 0), "edge label", "edge " << id << " has " << w->lab.size() << " labels");
        if (EN) CHECK(w->lab[0].second == id && w->lab[0].first == 2, "edge label", "edge " << id << " labelled " << w->lab[0].second);
      } else if (RC) {
        Draw *w = find([&](const Draw &q) { return q.cycle && scaled(q, X, 0.5); });
        CHECK(w, "cell", "cell " << id << " is not drawn");
        CHECK(static_cast<int>(w->lab.size()) == (VN ? n : 0), "vertex labels", "cell " << id << " has " << w->lab.size() << " vertex labels");
        if (VN)
          for (int k = 0; k < n; ++k) CHECK(w->lab[k].first == 2 * k + 1 && w->lab[k].second == std::to_string(k), "vertex labels", "cell " << id << " vertex " << k << " labelled " << w->lab[k].second);
        if (CN) {
          const Eigen::Vector2d c = X.rowwise().mean();
          Draw *l = find([&](const Draw &q) { return q.p.size() == 1 && near2(q.p[0], c) && q.lab.size() == 1 && q.lab[0].second == id; });
          CHECK(l, "cell label", "cell " << id << " has no label");
        }
      }
    }
  for (auto &w : draws) CHECK(w.used, "extra drawing", "'" << w.src << "' belongs to no selected entity (flags " << flags << ")");
}
