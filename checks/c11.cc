// C11: degrees of freedom are numbered once, consistently and completely
#include <lf/assemble/assemble.h>

#include <memory>
#include <set>

#include "gen/meshes.h"
using namespace gen;
using lf::assemble::DofHandler;
using lf::assemble::DynamicFEDofHandler;
using lf::assemble::UniformFEDofHandler;
using lf::base::RefEl;

namespace {
using Idx = std::vector<unsigned>;
struct RefDofs {
  unsigned N = 0;
  std::vector<Idx> interior[3], all[3];  // by codimension and entity index
  std::vector<std::pair<unsigned, unsigned>> owner;
};
/// the documented numbering: nodes, edges, cells in the order of their indices
RefDofs Reference(const lf::mesh::Mesh &mesh, const std::vector<unsigned> n[3], bool orient) {
  RefDofs R;
  for (int codim = 2; codim >= 0; --codim) {
    const unsigned ne = mesh.NumEntities(codim);
    R.interior[codim].resize(ne);
    for (unsigned k = 0; k < ne; ++k)
      for (unsigned j = 0; j < n[codim][k]; ++j) {
        R.interior[codim][k].push_back(R.N++);
        R.owner.push_back({codim, k});
      }
  }
  auto app = [](Idx &a, const Idx &b) { a.insert(a.end(), b.begin(), b.end()); };
  for (int codim = 2; codim >= 0; --codim) {
    R.all[codim].resize(mesh.NumEntities(codim));
    for (const auto *e : mesh.Entities(codim)) {
      Idx &l = R.all[codim][mesh.Index(*e)];
      if (codim < 2)
        for (const auto *v : e->SubEntities(2 - codim)) app(l, R.interior[2][mesh.Index(*v)]);
      if (codim == 0) {
        const auto ed = e->SubEntities(1);
        const auto ve = e->SubEntities(2);
        for (unsigned k = 0; k < ed.size(); ++k) {
          Idx x = R.interior[1][mesh.Index(*ed[k])];
          // traversed backwards: the edge does not start in corner k of the cell
          const bool neg = mesh.Index(*ed[k]->SubEntities(1)[0]) != mesh.Index(*ve[k]);
          if (neg && orient) std::reverse(x.begin(), x.end());
          app(l, x);
        }
      }
      app(l, R.interior[codim][mesh.Index(*e)]);
    }
  }
  return R;
}
Idx ToIdx(std::span<const lf::assemble::gdof_idx_t> s) { return Idx(s.begin(), s.end()); }
std::string IStr(const Idx &x) {
  std::string s;
  for (auto k : x) s += std::to_string(k) + " ";
  return s;
}
void CheckHandler(const DofHandler &d, const std::shared_ptr<const lf::mesh::Mesh> &mesh, const RefDofs &R, const char *who) {
  CHECK(d.Mesh() == mesh, "mesh", who);
  CHECK(d.NumDofs() == R.N, "numdofs", who << ": NumDofs " << d.NumDofs() << " expected " << R.N);
  std::vector<int> seen(R.N, 0);
  for (int codim = 0; codim <= 2; ++codim)
    for (const auto *e : mesh->Entities(codim)) {
      const unsigned k = mesh->Index(*e);
      const Idx in = ToIdx(d.InteriorGlobalDofIndices(*e));
      const Idx al = ToIdx(d.GlobalDofIndices(*e));
      CHECK(d.NumInteriorDofs(*e) == in.size() && d.NumLocalDofs(*e) == al.size(), "counts",
            who << ": codim " << codim << " entity " << k << ": NumInteriorDofs " << d.NumInteriorDofs(*e) << " NumLocalDofs "
                << d.NumLocalDofs(*e) << " lists of " << in.size() << ", " << al.size());
      for (auto x : in) {
        CHECK(x < R.N, "range", who << ": index " << x);
        ++seen[x];
        CHECK(&d.Entity(x) == e, "owner", who << ": unknown " << x << " is interior to codim " << codim << " entity " << k);
      }
      CHECK(al == R.all[codim][k], codim == 0 ? "cell_list" : "list",
            who << ": codim " << codim << " entity " << k << " (" << e->RefEl().ToString() << "): got " << IStr(al) << " expected "
                << IStr(R.all[codim][k]));
      CHECK(in == R.interior[codim][k], "interior_list", who << ": codim " << codim << " entity " << k << ": got " << IStr(in));
    }
  for (unsigned x = 0; x < R.N; ++x) CHECK(seen[x] == 1, "gapless", who << ": unknown " << x << " owned " << seen[x] << " times");
  CHECK(pbt::Rejects([&] { (void)d.Entity(R.N); }) || R.N == 0, "entity_range", who << ": Entity(NumDofs()) is accepted");
}
MeshOpt Opt() {
  MeshOpt o;
  o.allow_curved = false;
  o.allow_3d = true;
  return o;
}
}  // namespace

PBT_SUB("uniform", 120, 3000,
        "random hybrid meshes (permuted numbering, random edge orientation) with a random number of unknowns per entity type "
        "(also none or absent), edge orientation option on/off, also after moving the handler; non-trivial: >=2 cells and >=2 types with unknowns") {
  const HMesh m = RandMesh(g, Opt());
  const std::shared_ptr<const lf::mesh::Mesh> mesh = m.mesh;
  UniformFEDofHandler::dof_map_t map;
  unsigned n[5] = {0, 0, 0, 0, 0};
  const RefEl types[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  int kinds = 0;
  for (int t = 0; t < 4; ++t) {
    n[t] = g.b(0.75) ? static_cast<unsigned>(g.i(1, 4)) : 0;
    kinds += n[t] > 0;
    if (n[t] > 0 || g.b()) map[types[t]] = n[t];
  }
  const bool orient = g.b(0.7);
  g.desc() << "dofs p/s/t/q = " << n[0] << n[1] << n[2] << n[3] << " orient " << orient << "; ";
  g.label(orient ? "orient" : "no orient");
  std::vector<unsigned> num[3];
  for (int c = 0; c <= 2; ++c) num[c].resize(mesh->NumEntities(c));
  for (int c = 0; c <= 2; ++c)
    for (const auto *e : mesh->Entities(c))
      for (int t = 0; t < 4; ++t)
        if (e->RefEl() == types[t]) num[c][mesh->Index(*e)] = n[t];
  const RefDofs R = Reference(*mesh, num, orient);
  UniformFEDofHandler d(mesh, map, orient);
  CheckHandler(d, mesh, R, "uniform");
  if (orient) {
    const UniformFEDofHandler dd(mesh, map);
    CheckHandler(dd, mesh, R, "uniform default");
  }
  if (g.b(0.4)) {
    const UniformFEDofHandler e(std::move(d));
    CheckHandler(e, mesh, R, "moved uniform");
  }
  g.nontrivial(mesh->NumEntities(0) >= 2 && kinds >= 2 && R.N > 0);
}

PBT_SUB("dynamic", 120, 3000,
        "random hybrid meshes with an arbitrary number (0..4) of unknowns for every single entity; non-trivial: >=2 cells and >=3 different counts") {
  const HMesh m = RandMesh(g, Opt());
  const std::shared_ptr<const lf::mesh::Mesh> mesh = m.mesh;
  std::vector<unsigned> num[3];
  std::set<unsigned> vals;
  const double zero = g.b(0.3) ? 0.7 : 0.2;
  for (int c = 0; c <= 2; ++c)
    for (unsigned k = 0; k < mesh->NumEntities(c); ++k) {
      num[c].push_back(g.b(1 - zero) ? static_cast<unsigned>(g.i(1, 4)) : 0);
      vals.insert(num[c].back());
    }
  const RefDofs R = Reference(*mesh, num, true);
  DynamicFEDofHandler d(mesh, [&](const lf::mesh::Entity &e) { return num[e.Codim()][mesh->Index(e)]; });
  CheckHandler(d, mesh, R, "dynamic");
  if (g.b(0.4)) {
    const DynamicFEDofHandler e(std::move(d));
    CheckHandler(e, mesh, R, "moved dynamic");
  }
  g.nontrivial(mesh->NumEntities(0) >= 2 && vals.size() >= 3);
}

PBT_SUB("uniform_equals_dynamic", 60, 1500,
        "the uniform handler and the entity dependent one with the same counts give the same numbering; lists seen from two cells sharing "
        "an edge agree in physical order; non-trivial: an interior edge with >=2 unknowns exists") {
  const HMesh m = RandMesh(g, Opt());
  const std::shared_ptr<const lf::mesh::Mesh> mesh = m.mesh;
  const unsigned np = g.i(0, 2);
  const unsigned ns = g.i(1, 4);
  const unsigned nt = g.i(0, 3);
  const unsigned nq = g.i(0, 4);
  const UniformFEDofHandler u(mesh, {{RefEl::kPoint(), np}, {RefEl::kSegment(), ns}, {RefEl::kTria(), nt}, {RefEl::kQuad(), nq}});
  const DynamicFEDofHandler d(mesh, [&](const lf::mesh::Entity &e) -> unsigned {
    switch (e.RefEl()) {
      case RefEl::kPoint(): return np;
      case RefEl::kSegment(): return ns;
      case RefEl::kTria(): return nt;
      default: return nq;
    }
  });
  CHECK(u.NumDofs() == d.NumDofs(), "same_numdofs", u.NumDofs() << " vs " << d.NumDofs());
  for (int c = 0; c <= 2; ++c)
    for (const auto *e : mesh->Entities(c))
      CHECK(ToIdx(u.GlobalDofIndices(*e)) == ToIdx(d.GlobalDofIndices(*e)), "same_list", "codim " << c << " entity " << mesh->Index(*e));
  // every cell sees the edge unknowns in the order of its own traversal
  bool nt2 = false;
  std::map<unsigned, std::pair<Idx, unsigned>> first;  // edge -> (unknowns, start node)
  for (const auto *c : mesh->Entities(0)) {
    const Idx l = ToIdx(u.GlobalDofIndices(*c));
    const auto ed = c->SubEntities(1);
    for (unsigned k = 0; k < ed.size(); ++k) {
      Idx x(l.begin() + np * ed.size() + k * ns, l.begin() + np * ed.size() + (k + 1) * ns);
      const unsigned start = mesh->Index(*c->SubEntities(2)[k]);
      const unsigned e = mesh->Index(*ed[k]);
      if (first.count(e) == 0) {
        first[e] = {x, start};
        continue;
      }
      nt2 = nt2 || ns > 1;
      if (first[e].second != start) std::reverse(x.begin(), x.end());
      CHECK(x == first[e].first, "shared_edge", "edge " << e << ": " << IStr(x) << " vs " << IStr(first[e].first));
    }
  }
  g.nontrivial(nt2);
}
