// C23: physical groups of a Gmsh file are attached to the right entities.
#include <lf/io/io.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>

#include "gen/gmsh.h"
#include "gen/meshcheck.h"
using namespace gen;
using namespace gmsh;
namespace io = lf::io;

namespace {
std::string List(const std::vector<unsigned> &v) {
  std::string s = "[";
  for (auto x : v) s += std::to_string(x) + " ";
  return s + "]";
}
const std::vector<std::string> &NamePool() {
  static const std::vector<std::string> v{"air", "iron", "a b", "Gamma_1", "gamma_1", "1", "boundary", "Air", "x"};
  return v;
}
/// names and numbers are unique within a dimension, not across dimensions
void RandNames(pbt::G &g, File &f) {
  f.names.clear();
  if (!f.has_names) return;
  const int m = g.i(0, 7);
  for (int k = 0; k < m; ++k) {
    Name n{g.i(0, 2), g.b(0.1) ? g.i(1, 2000000000) : g.i(1, 6), g.pick(NamePool())};
    bool dup = false;
    for (auto &o : f.names) dup = dup || (o.dim == n.dim && (o.nr == n.nr || o.name == n.name));
    if (!dup) f.names.push_back(n);
  }
}
template <class T>
std::optional<T> Try(const std::function<T()> &fn) {
  try {
    return fn();
  } catch (const std::exception &) {
    return std::nullopt;
  }
}

void CheckNames(pbt::G &g, const File &f, const io::GmshReader &r, const std::string &en) {
  std::set<int> nrs{0, 1, 2, 3, 7, 1999};
  std::set<std::string> names(NamePool().begin(), NamePool().end());
  names.insert({"absent", "ai", "iron "});
  for (auto &n : f.names) nrs.insert({n.nr, n.nr + 1});
  for (unsigned codim = 0; codim <= 2; ++codim) {
    std::multiset<std::pair<unsigned, std::string>> exp, got;
    for (auto &n : f.names)
      if (n.dim == 2 - static_cast<int>(codim)) exp.insert({static_cast<unsigned>(n.nr), n.name});
    for (auto &q : r.PhysicalEntities(codim)) got.insert(q);
    CHECK(exp == got, "PhysicalEntities", en << ": codimension " << codim << ", " << got.size() << " instead of " << exp.size() << " groups");
  }
  for (auto &name : names) {
    std::vector<const Name *> m;
    for (auto &n : f.names)
      if (n.name == name) m.push_back(&n);
    if (m.size() > 1) g.label("name in several dimensions");
    const auto any = Try<unsigned>([&] { return r.PhysicalEntityName2Nr(name); });
    if (m.size() == 1)
      CHECK(any && *any == static_cast<unsigned>(m[0]->nr), "number of a name", en << ": '" << name << "' " << (any ? std::to_string(*any) : "error") << ", expected " << m[0]->nr);
    else
      CHECK(!any, "number of an absent or ambiguous name", en << ": '" << name << "' occurs " << m.size() << " times but " << *any << " is returned");
    for (unsigned codim = 0; codim <= 3; ++codim) {
      const auto one = Try<unsigned>([&] { return r.PhysicalEntityName2Nr(name, codim); });
      const Name *hit = nullptr;
      for (auto *n : m)
        if (n->dim == 2 - static_cast<int>(codim)) hit = n;
      if (hit != nullptr)
        CHECK(one && *one == static_cast<unsigned>(hit->nr), "number of a name and codimension", en << ": '" << name << "' codim " << codim << " " << (one ? std::to_string(*one) : "error") << ", expected " << hit->nr);
      else
        CHECK(!one, "number of an absent name and codimension", en << ": '" << name << "' codim " << codim << " gives " << *one);
    }
  }
  for (int nr : nrs) {
    std::vector<const Name *> m;
    for (auto &n : f.names)
      if (n.nr == nr) m.push_back(&n);
    if (m.size() > 1) g.label("number in several dimensions");
    const auto any = Try<std::string>([&] { return r.PhysicalEntityNr2Name(nr); });
    if (m.size() == 1)
      CHECK(any && *any == m[0]->name, "name of a number", en << ": " << nr << " gives '" << any.value_or("error") << "', expected '" << m[0]->name << "'");
    else
      CHECK(!any, "name of an absent or ambiguous number", en << ": " << nr << " occurs " << m.size() << " times but '" << *any << "' is returned");
    for (unsigned codim = 0; codim <= 3; ++codim) {
      const auto one = Try<std::string>([&] { return r.PhysicalEntityNr2Name(nr, codim); });
      const Name *hit = nullptr;
      for (auto *n : m)
        if (n->dim == 2 - static_cast<int>(codim)) hit = n;
      if (hit != nullptr)
        CHECK(one && *one == hit->name, "name of a number and codimension", en << ": " << nr << " codim " << codim << " gives '" << one.value_or("error") << "', expected '" << hit->name << "'");
      else
        CHECK(!one, "name of an absent number and codimension", en << ": " << nr << " codim " << codim << " gives '" << *one << "'");
    }
  }
}

HMesh GenMesh(pbt::G &g) {
  MeshOpt o;
  o.max_n = g.b(0.03) ? 10 : 3;
  o.allow_curved = true;
  o.force_curved = g.b(0.2);
  o.allow_3d = g.b(0.2);
  o.allow_null_geo = false;
  o.unit_scale = true;
  return RandMesh(g, o);
}

void Run(pbt::G &g, const HMesh &hm, const File &f, const Enc &enc) {
  const std::string en = enc.Name();
  // expectation, entities identified by their nodes
  std::map<int, std::vector<unsigned>> cellg, edgeg, nodeg;
  std::vector<int> cellorder, norder;
  for (auto &b : f.elems)
    for (auto &e : b.elems) {
      std::vector<unsigned> ph;
      for (int q : f.ent[b.dim][b.ent].phys) ph.push_back(q);
      std::sort(ph.begin(), ph.end());
      if (b.dim == 2) cellorder.push_back(e.id);
      if (b.dim == 2) cellg[e.id] = ph;
      if (b.dim == 1) edgeg[e.id] = ph;
      if (b.dim == 0 && e.id >= 0) {
        auto &ng = nodeg[e.id];  // a node can be listed in the blocks of several point entities
        ng.insert(ng.end(), ph.begin(), ph.end());
        std::sort(ng.begin(), ng.end());
      }
    }
  for (auto &b : f.nodes)
    for (auto &n : b.nodes)
      if (n.id >= 0) norder.push_back(n.id);
  const std::string content = Encode(g, f, enc);
  if (!enc.bin) g.desc() << content;
  TmpFile tmp(content);
  io::GmshReader r(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(hm.dim), tmp.path());
  const auto mesh = r.mesh();
  CHECK(mesh->NumEntities(2) == norder.size() && mesh->NumEntities(0) == cellorder.size(), "size of the mesh", en);
  int multi = 0;
  for (unsigned c = 0; c <= 2; ++c)
    for (const auto *e : mesh->Entities(c)) {
      const unsigned idx = mesh->Index(*e);
      std::vector<unsigned> exp;
      if (c == 0) {
        exp = cellg.at(cellorder[idx]);
      } else if (c == 2) {
        auto it = nodeg.find(norder[idx]);
        if (it != nodeg.end()) exp = it->second;
      } else {
        const auto s = e->SubEntities(1);
        const int a = norder[mesh->Index(*s[0])], b = norder[mesh->Index(*s[1])];
        auto it = edgeg.find(hm.eid.at({std::min(a, b), std::max(a, b)}));
        if (it != edgeg.end()) exp = it->second;
      }
      if (exp.size() > 1) ++multi;
      std::vector<unsigned> got = r.PhysicalEntityNr(*e);
      if (!enc.v4 && exp.empty() && got == std::vector<unsigned>{0}) got.clear();  // group 0 means: no group
      CHECK(got == exp, "groups of an entity", en << ": codim " << c << " index " << idx << " has groups " << List(got) << ", expected (ascending) " << List(exp));
      for (unsigned q = 1; q <= 10; ++q)
        CHECK(r.IsPhysicalEntity(*e, q) == (std::find(exp.begin(), exp.end(), q) != exp.end()), "IsPhysicalEntity", en << ": codim " << c << " index " << idx << " group " << q);
      for (unsigned q : exp) CHECK(r.IsPhysicalEntity(*e, q), "IsPhysicalEntity", en << ": codim " << c << " index " << idx << " group " << q);
    }
  if (multi > 0) g.label("entities with several groups");
  g.nontrivial(multi > 0 || f.names.size() > 1);
  CheckNames(g, f, r, en);
}
}  // namespace

PBT_SUB("groups and names", 120, 500,
        "random assignment of point, edge and cell elements to geometric entities with zero to three groups, random table of names with coincidences between dimensions; groups of every mesh entity, "
        "membership, lists and all lookups with and without codimension compared with the table. Non-trivial: an entity with several groups or more than one name") {
  const HMesh hm = GenMesh(g);
  Opt o;
  o.points = g.b() ? 0.3 : 0.9;
  File f = RandFile(g, hm, o);
  f.has_names = f.has_names || g.b(0.6);
  RandNames(g, f);
  const Enc enc = g.pick(AllEnc());
  if (g.b(0.4) && f.ent[0].size() > 1) {
    // list a point element again in the block of another point entity, with groups of its own
    ElemBlock nb;
    nb.dim = 0;
    nb.type = 15;
    nb.ent = g.i(0, static_cast<int>(f.ent[0].size()) - 1);
    auto &ph = f.ent[0][nb.ent].phys;
    uint64_t tag = 100000;
    for (auto &b : f.elems)
      if (b.dim == 0 && b.ent != nb.ent)
        for (auto &e : b.elems) {
          bool common = !enc.v4 && (ph.empty() || f.ent[0][b.ent].phys.empty());
          for (int q : f.ent[0][b.ent].phys) common = common || std::find(ph.begin(), ph.end(), q) != ph.end();
          bool twice = false;
          for (auto &x : nb.elems) twice = twice || x.id == e.id;
          for (auto &o : f.elems)
            if (o.dim == 0 && &o != &b)
              for (auto &x : o.elems) twice = twice || x.id == e.id;
          if (common || twice || g.b()) continue;
          Elem c = e;
          c.tag = tag++;
          nb.elems.push_back(c);
        }
    if (!nb.elems.empty()) {
      g.label("point listed for two entities");
      f.elems.insert(f.elems.begin() + g.i(0, static_cast<int>(f.elems.size())), nb);
    }
  }
  g.label(enc.Name());
  g.desc() << hm.Describe() << "\n";
  Run(g, hm, f, enc);
}
