// Random refinement histories on random hybrid meshes.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H
#include <lf/refinement/refinement.h>

#include "gen/meshes.h"
#include "gen/patterns.h"

namespace gen {
struct RefStep {
  bool uniform = false;
  RefPat pat = RefPat::rp_regular;
  std::vector<char> marks;  // per edge of the coarser mesh
};
struct HistOpt {
  int max_steps = 4;
  int max_cells = 250;
  double p_uniform = 0.35;
};

inline std::shared_ptr<lf::refinement::MeshHierarchy> MakeHierarchy(const HMesh &m) {
  return std::make_shared<lf::refinement::MeshHierarchy>(m.mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.dim));
}

/// random set of edges of the mesh
inline std::vector<char> RandMarks(pbt::G &g, const lf::mesh::Mesh &mesh, std::string *what) {
  const int ne = static_cast<int>(mesh.NumEntities(1));
  std::vector<char> m(ne, 0);
  switch (g.raw(7)) {
    case 0: *what = "none"; break;
    case 1: {
      *what = "single";
      m[g.i(0, ne - 1)] = 1;
      break;
    }
    case 2: {
      *what = "few";
      const int n = g.i(1, 4);
      for (int k = 0; k < n; ++k) m[g.i(0, ne - 1)] = 1;
      break;
    }
    case 3: {
      *what = "sides of cells";
      const int n = g.i(1, 3);
      for (int k = 0; k < n; ++k) {
        const auto *c = mesh.EntityByIndex(0, g.i(0, static_cast<int>(mesh.NumEntities(0)) - 1));
        const bool all = g.b(0.6);
        for (const auto *e : c->SubEntities(1))
          if (all || g.b()) m[mesh.Index(*e)] = 1;
      }
      break;
    }
    case 4: {
      *what = "fraction";
      const double p = g.r(0.05, 0.9);
      for (auto &x : m) x = g.b(p);
      break;
    }
    case 5: {
      *what = "half plane";
      const double a = g.r(0, 2 * M_PI);
      const auto *e0 = mesh.EntityByIndex(1, g.i(0, ne - 1));
      const Mat h = Mat::Constant(1, 1, 0.5);
      const Vec c = e0->Geometry()->Global(h);
      for (const auto *e : mesh.Entities(1)) {
        const Vec p = Vec(e->Geometry()->Global(h)) - c;
        m[mesh.Index(*e)] = p(0) * std::cos(a) + p(1) * std::sin(a) <= 1e-9 * CoordScale(p);
      }
      break;
    }
    default: *what = "all"; std::fill(m.begin(), m.end(), 1);
  }
  return m;
}

/// performs one random refinement step (false: the mesh would become too large)
inline bool RandRefine(pbt::G &g, lf::refinement::MeshHierarchy &mh, const HistOpt &o, RefStep &st) {
  const unsigned fin = mh.NumLevels() - 1;
  const std::shared_ptr<const lf::mesh::Mesh> mesh = std::as_const(mh).getMesh(fin);
  const int nc = static_cast<int>(mesh->NumEntities(0));
  if (g.b(o.p_uniform)) {
    st.uniform = true;
    st.pat = g.b(0.35) ? RefPat::rp_barycentric : RefPat::rp_regular;
    if (nc * (st.pat == RefPat::rp_regular ? 4 : 6) > o.max_cells) return false;
    if (g.b(0.1)) {  // pending marks must not matter for uniform refinement
      mh.MarkEdges([&](auto &, auto &) { return true; });
      g.desc() << "(pending marks) ";
    }
    mh.RefineRegular(st.pat);
    g.desc() << (st.pat == RefPat::rp_regular ? "regular; " : "barycentric; ");
    return true;
  }
  std::string what;
  st.uniform = false;
  st.marks = RandMarks(g, *mesh, &what);
  int nm = 0;
  for (char c : st.marks) nm += c;
  if (nc + 3 * nm > o.max_cells) return false;
  if (g.b(0.15)) {  // earlier marks are overwritten
    std::string w2;
    const auto old = RandMarks(g, *mesh, &w2);
    mh.MarkEdges([&](const lf::mesh::Mesh &, const lf::mesh::Entity &e) { return old[mesh->Index(e)] != 0; });
  }
  mh.MarkEdges([&](const lf::mesh::Mesh &mm, const lf::mesh::Entity &e) {
    CHECK(&mm == mesh.get(), "marker mesh", "marker must get the finest mesh");
    return st.marks[mm.Index(e)] != 0;
  });
  mh.RefineMarked();
  g.label("marks: " + what);
  g.desc() << "marked{";
  for (size_t k = 0; k < st.marks.size(); ++k)
    if (st.marks[k]) g.desc() << k << " ";
  g.desc() << "}; ";
  return true;
}

/// complete random history
inline std::shared_ptr<lf::refinement::MeshHierarchy> RandHistory(pbt::G &g, const HMesh &m, const HistOpt &o, std::vector<RefStep> *steps = nullptr) {
  auto mh = MakeHierarchy(m);
  const int n = g.i(1, o.max_steps);
  for (int k = 0; k < n; ++k) {
    RefStep st;
    if (!RandRefine(g, *mh, o, st)) break;
    if (steps) steps->push_back(st);
  }
  if (mh->NumLevels() < 2) throw pbt::Discard{};
  return mh;
}
}  // namespace gen
#endif
