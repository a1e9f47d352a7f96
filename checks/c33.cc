// C33: local refinement does not degrade the shapes of triangles
#include "gen/history.h"
#include "gen/meshcheck.h"
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

namespace {
/// side lengths (ascending) relative to the longest one
using Ratios = std::array<double, 3>;
Ratios RatiosOf(const Vec &a, const Vec &b, const Vec &c) {
  Ratios s{(b - a).norm(), (c - b).norm(), (a - c).norm()};
  std::sort(s.begin(), s.end());
  for (int k = 0; k < 3; ++k) s[k] /= s[2];
  return s;
}
/// all shapes arising from newest-vertex bisection of the triangle a,b,c with refinement edge ab
void Bisections(const Vec &a, const Vec &b, const Vec &c, int depth, std::vector<Ratios> &out) {
  out.push_back(RatiosOf(a, b, c));
  if (depth == 0) return;
  const Vec m = 0.5 * (a + b);
  Bisections(c, a, m, depth - 1, out);
  Bisections(b, c, m, depth - 1, out);
}
double Quality(const Ratios &s) {  // height over the longest side
  const double p = (s[0] + s[1] + 1) / 2;
  return 2 * std::sqrt(std::max(0.0, p * (p - s[0]) * (p - s[1]) * (p - 1)));
}
struct Root {
  std::vector<Ratios> cls;
  double q = 0;
};
void Run(pbt::G &g, const MeshOpt &o, const HistOpt &ho0, int steps, double p_local) {
  const HMesh m = RandMesh(g, o);
  auto mh = MakeHierarchy(m);
  const Mat tc = RefEl::kTria().NodeCoords();
  std::vector<Root> roots;
  const double cs = CoordScale(m.X);
  auto new_root = [&](const lf::mesh::Entity &c, unsigned l, unsigned k) {
    const unsigned e = mh->RefinementEdges(l)[k];
    CHECK(e < 3, "refinement edge", "level " << l << " cell " << k << " edge " << e);
    const Mat x = c.Geometry()->Global(tc);
    double len[3];
    for (int j = 0; j < 3; ++j) len[j] = (x.col((j + 1) % 3) - x.col(j)).norm();
    const double h = std::max({len[0], len[1], len[2]});
    CHECK(len[e] >= h * (1 - 1e-9) - 1e-12 * cs, "first refinement edge is not a longest one", "level " << l << " cell " << k << " edge " << e << " lengths " << len[0] << " " << len[1] << " " << len[2]);
    Root r;
    Bisections(x.col(e), x.col((e + 1) % 3), x.col((e + 2) % 3), 4, r.cls);
    r.q = 1;
    for (const auto &s : r.cls) r.q = std::min(r.q, Quality(s));
    roots.push_back(r);
    return static_cast<int>(roots.size()) - 1;
  };
  std::vector<int> root(m.mesh->NumEntities(0), -1), gen(m.mesh->NumEntities(0), 0);
  for (const auto *c : m.mesh->Entities(0))
    if (c->RefEl() == RefEl::kTria()) root[m.mesh->Index(*c)] = new_root(*c, 0, m.mesh->Index(*c));
  for (int step = 0; step < steps; ++step) {
    RefStep st;
    HistOpt ho = ho0;
    ho.p_uniform = g.b(p_local) ? 0 : 1;
    if (!RandRefine(g, *mh, ho, st)) break;
    const unsigned l = mh->NumLevels() - 1;
    const auto mesh = mh->getMesh(l);
    const auto coarse = mh->getMesh(l - 1);
    std::vector<int> r2(mesh->NumEntities(0), -1), g2(mesh->NumEntities(0), 0);
    for (const auto *c : mesh->Entities(0)) {
      if (c->RefEl() != RefEl::kTria()) continue;
      const unsigned k = mesh->Index(*c);
      const auto *p = mh->ParentEntity(l, *c);
      const unsigned pk = coarse->Index(*p);
      const auto pat = mh->CellChildInfos(l - 1)[pk].ref_pat_;
      if (p->RefEl() == RefEl::kQuad() || pat == RefPat::rp_barycentric) {
        r2[k] = new_root(*c, l, k);
        continue;
      }
      r2[k] = root[pk];
      g2[k] = gen[pk] + (pat == RefPat::rp_copy ? 0 : 1);
      const Mat x = c->Geometry()->Global(tc);
      const Ratios s = RatiosOf(x.col(0), x.col(1), x.col(2));
      const double h = (x.col(1) - x.col(0)).norm();
      bool ok = false;
      for (const auto &t : roots[r2[k]].cls)
        if (std::abs(s[0] - t[0]) + std::abs(s[1] - t[1]) <= 1e-7 + 1e-11 * cs / h) ok = true;
      CHECK(ok, "shape of a descendant is new",
            "level " << l << " cell " << k << " parent pattern " << PatName(pat) << " generation " << g2[k] << " side ratios " << s[0] << " " << s[1] << ": height over longest side " << Quality(s)
                     << ", newest-vertex bisection never drops below " << roots[r2[k]].q);
      if (g2[k] >= 3 && !st.uniform) g.nontrivial();
    }
    root = std::move(r2);
    gen = std::move(g2);
  }
  if (mh->NumLevels() < 3) throw pbt::Discard{};
}
}  // namespace

PBT_SUB("histories", 600, 6000,
        "3..9 steps of local, regular or barycentric refinement of hybrid meshes with straight sides: every triangle is similar to one of the newest-vertex "
        "bisection descendants of the triangle its family started with; non-trivial: a triangle refined at least 3 times, the last step local") {
  MeshOpt o;
  o.max_n = 2;
  o.allow_curved = false;
  HistOpt ho;
  ho.max_cells = 300;
  Run(g, o, ho, g.i(3, 9), 0.75);
}
PBT_SUB("deep", 150, 1500, "as histories, 6..20 local steps with few marked edges on tiny meshes; non-trivial as in histories") {
  MeshOpt o;
  o.max_n = 1;
  o.allow_curved = false;
  HistOpt ho;
  ho.max_cells = 600;
  Run(g, o, ho, g.i(6, 20), 0.95);
}
