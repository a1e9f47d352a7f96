// Generator of the contents of Gmsh files and encoders for the six encodings (2.2 / 4.1, text, binary of both
// byte orders). Written from the Gmsh file format description, independent of lf::io.
#ifndef VERIF_GMSH_H
#define VERIF_GMSH_H
#include <cinttypes>
#include <cstdio>
#include <unistd.h>

#include "meshes.h"

namespace gmsh {
using namespace gen;

struct Node {
  uint64_t tag = 0;
  double x[3] = {0, 0, 0};
  int id = -1;  // node of the mesh or -1 (auxiliary)
};
struct Elem {
  int type = 0;  // gmsh element type
  uint64_t tag = 0;
  int id = -1;  // cell / edge / node of HMesh
  std::vector<uint64_t> nodes;
};
struct Entity {
  int tag = 0;
  std::vector<int> phys;
  double bb[6] = {0, 0, 0, 0, 0, 0};
  std::vector<int> bounding;
  int parent = -1;  // partitioned: index of parent
  std::vector<int> parts;
};
struct NodeBlock {
  int dim = 2, ent = 1;
  std::vector<Node> nodes;
};
struct ElemBlock {
  int dim = 2;
  int ent = 0;  // index into entities[dim]
  int type = 0;
  std::vector<Elem> elems;
};
struct Name {
  int dim, nr;
  std::string name;
};
struct Periodic {
  int dim, slave, master;
  bool affine = false;
  double m[16];
  std::vector<std::pair<uint64_t, uint64_t>> pairs;
};
struct Ghost {
  uint64_t elem;
  int part;
  std::vector<int> ghost;
};
struct Comment {
  std::string name, body;
};

struct File {
  bool has_names = false, has_periodic = false, has_ghost = false;
  int nparts = 0;  // > 0: partitioned
  std::vector<Name> names;
  std::vector<NodeBlock> nodes;
  std::vector<ElemBlock> elems;
  std::vector<Entity> ent[4];      // referenced by the element blocks
  std::vector<Entity> parent[4];   // contents of $Entities if partitioned
  std::vector<std::pair<int, int>> ghost_ents;
  std::vector<Periodic> periodic;
  std::vector<Ghost> ghosts;
  std::vector<Comment> com[7];     // before names, after names, after entities, after part., after nodes, after elements, after periodic
  const std::vector<Entity> &Listed(int d) const { return nparts > 0 ? parent[d] : ent[d]; }
  uint64_t NumNodes() const {
    uint64_t n = 0;
    for (auto &b : nodes) n += b.nodes.size();
    return n;
  }
};

inline int TypeDim(int t) { return t == 15 ? 0 : (t == 1 || t == 8) ? 1 : 2; }
inline int TypeNodes(int t) {
  switch (t) {
    case 1: return 2;
    case 2: return 3;
    case 3: return 4;
    case 8: return 3;
    case 9: return 6;
    case 10: return 9;
    case 15: return 1;
    case 16: return 8;
  }
  return -1;
}

struct Opt {
  bool comments = true;
  bool partitions = true;
  bool aux = true;       // additional nodes and point elements on them
  bool groups = true;    // several groups per entity
  bool zero_group = true;  // entities without a group
  double points = 0.3;   // probability of a point element per node
};

/// Contents of a file that describes hm.
inline File RandFile(pbt::G &g, const HMesh &hm, const Opt &opt) {
  File f;
  // --- nodes -------------------------------------------------------------------------------------------------
  std::vector<Node> all;
  auto add = [&](const Vec &p, int id) {
    Node n;
    for (int d = 0; d < p.size(); ++d) n.x[d] = p(d);
    n.id = id;
    all.push_back(n);
    return static_cast<int>(all.size()) - 1;
  };
  for (int k = 0; k < hm.X.cols(); ++k) add(hm.X.col(k), k);
  // which edges need a middle node
  std::vector<int> mid(hm.edges.size(), -1);
  auto midnode = [&](int e) {
    if (mid[e] < 0) mid[e] = add(hm.Mid(e), -1);
    return mid[e];
  };
  struct Raw {
    int type, id;
    std::vector<int> nodes;
  };
  std::vector<Raw> raw[3];
  for (size_t c = 0; c < hm.cells.size(); ++c) {
    const auto &C = hm.cells[c];
    Raw r;
    r.id = static_cast<int>(c);
    for (int v : C.v) r.nodes.push_back(v);
    const bool tri = C.v.size() == 3;
    if (C.geo == 2) {
      for (int e : C.e) r.nodes.push_back(midnode(e));
      if (tri) {
        r.type = 9;
      } else if (g.b()) {
        r.type = 16;
      } else {
        r.type = 10;
        Vec ctr = Vec::Zero(hm.dim);
        for (int v : C.v) ctr += 0.25 * hm.X.col(v);
        r.nodes.push_back(add(ctr, -1));
      }
    } else {
      r.type = tri ? 2 : 3;
    }
    raw[2].push_back(r);
  }
  for (size_t k = 0; k < hm.expl.size(); ++k) {
    const auto &x = hm.expl[k];
    const auto &E = hm.edges[x.edge];
    Raw r;
    r.id = x.edge;
    r.nodes = {x.first, x.first == E.a ? E.b : E.a};
    r.type = 1;
    if (x.geo == 2 || E.curved) {
      r.type = 8;
      r.nodes.push_back(midnode(x.edge));
    }
    raw[1].push_back(r);
  }
  const int extra = opt.aux ? g.i(0, 3) : 0;
  for (int k = 0; k < extra; ++k) {
    Vec p = Vec::Zero(hm.dim);
    for (int d = 0; d < hm.dim; ++d) p(d) = g.num(3);
    add(p, -1);
  }
  for (size_t k = 0; k < all.size(); ++k)
    if (g.b(opt.points) && (all[k].id >= 0 || opt.aux)) raw[0].push_back({15, all[k].id, {static_cast<int>(k)}});
  // tags: 0 contiguous, 1 shuffled contiguous, 2 gaps
  const int n = all.size();
  const int tagmode = g.i(0, 2);
  std::vector<int> p = tagmode == 0 ? std::vector<int>() : g.perm(n);
  const int stride = tagmode == 2 ? g.i(1, 50) : 1;
  const int base = tagmode == 2 ? (g.b(0.1) ? g.i(1, 200000) : g.i(1, 5000)) : 1;
  uint64_t tag = base;
  std::vector<uint64_t> bytag;
  for (int k = 0; k < n; ++k) {
    bytag.push_back(tag);
    tag += g.i(1, stride);
  }
  for (int k = 0; k < n; ++k) all[k].tag = bytag[p.empty() ? k : p[k]];
  // --- entities ------------------------------------------------------------------------------------------------
  auto entities = [&](std::vector<Entity> &v, int d, int cnt) {
    std::vector<int> q = g.perm(cnt);
    int t = g.i(1, 3);
    std::vector<int> tags;
    for (int k = 0; k < cnt; ++k) {
      tags.push_back(t);
      t += g.b(0.3) ? g.i(1, 40) : 1;
    }
    for (int k = 0; k < cnt; ++k) {
      Entity e;
      e.tag = tags[q[k]];
      for (double &b : e.bb) b = g.num(3);
      if (d > 0)
        for (int j = g.i(0, 3); j > 0; --j) e.bounding.push_back(g.i(-9, 9));
      v.push_back(e);
    }
  };
  auto groups = [&](Entity &e) {
    const int lo = opt.zero_group ? 0 : 1;
    const int m = g.i(lo, opt.groups ? 3 : 1);
    for (int j = 0; j < m; ++j) {
      const int nr = g.b(0.1) ? g.i(1, 2000000000) : g.i(1, 9);
      if (std::find(e.phys.begin(), e.phys.end(), nr) == e.phys.end()) e.phys.push_back(nr);
    }
  };
  f.nparts = opt.partitions && g.b(0.3) ? g.i(1, 4) : 0;
  for (int d = 0; d < 4; ++d) {
    const int cnt = d == 3 ? (g.b(0.2) ? g.i(0, 2) : 0) : g.i(raw[d].empty() ? 0 : 1, 4);
    entities(f.ent[d], d, cnt);
    for (auto &e : f.ent[d]) groups(e);
    if (f.nparts > 0) {
      entities(f.parent[d], d, g.i(cnt > 0 ? 1 : 0, 3));
      for (auto &e : f.parent[d]) groups(e);
      for (auto &e : f.ent[d]) {
        e.parent = f.parent[d].empty() ? 0 : g.i(0, static_cast<int>(f.parent[d].size()) - 1);
        for (int j = g.i(1, 2); j > 0; --j) e.parts.push_back(g.i(1, f.nparts));
      }
    }
  }
  if (f.nparts > 0)
    for (int j = g.i(0, 2); j > 0; --j) f.ghost_ents.push_back({g.i(1, 50), g.i(1, f.nparts)});
  // --- node blocks -----------------------------------------------------------------------------------------------
  {
    std::vector<int> q = g.b(0.6) ? g.perm(n) : std::vector<int>();
    size_t k = 0;
    while (static_cast<int>(k) < n) {
      NodeBlock b;
      b.dim = g.i(0, 2);
      b.ent = g.i(1, 9);
      const int len = g.b(0.3) ? n : g.i(0, 6);
      for (int j = 0; j < len && static_cast<int>(k) < n; ++j, ++k) b.nodes.push_back(all[q.empty() ? k : q[k]]);
      f.nodes.push_back(b);
      if (f.nodes.size() > 400) break;
    }
    for (; static_cast<int>(k) < n; ++k) f.nodes.back().nodes.push_back(all[q.empty() ? k : q[k]]);
    if (g.b(0.1)) f.nodes.push_back(NodeBlock());
  }
  // --- element blocks ----------------------------------------------------------------------------------------------
  for (int d = 0; d < 3; ++d) {
    std::map<std::pair<int, int>, std::vector<Raw>> parts;  // (entity, type)
    std::vector<Raw> r = raw[d];
    if (g.b(0.6)) {
      std::vector<int> q = g.perm(r.size());
      for (size_t k = 0; k < q.size(); ++k) r[k] = raw[d][q[k]];
    }
    for (auto &x : r) parts[{g.i(0, static_cast<int>(f.ent[d].size()) - 1), x.type}].push_back(x);
    for (auto &kv : parts) {
      size_t k = 0;
      while (k < kv.second.size()) {
        ElemBlock b;
        b.dim = d;
        b.ent = kv.first.first;
        b.type = kv.first.second;
        const size_t len = g.b(0.7) ? kv.second.size() : g.i(1, 5);
        for (size_t j = 0; j < len && k < kv.second.size(); ++j, ++k) {
          Elem e;
          e.type = b.type;
          e.id = kv.second[k].id;
          for (int v : kv.second[k].nodes) e.nodes.push_back(all[v].tag);
          b.elems.push_back(e);
        }
        f.elems.push_back(b);
      }
    }
  }
  if (g.b(0.6)) {
    std::vector<int> q = g.perm(f.elems.size());
    std::vector<ElemBlock> e;
    for (int k : q) e.push_back(f.elems[k]);
    f.elems = e;
  }
  uint64_t et = g.i(1, 3);
  for (auto &b : f.elems)
    for (auto &e : b.elems) {
      e.tag = et;
      et += g.b(0.1) ? g.i(1, 30) : 1;
    }
  // --- further sections -----------------------------------------------------------------------------------------------
  f.has_periodic = g.b(0.3);
  if (f.has_periodic)
    for (int j = g.i(0, 2); j > 0; --j) {
      Periodic q;
      q.dim = g.i(0, 2);
      q.slave = g.i(1, 9);
      q.master = g.i(1, 9);
      q.affine = g.b();
      for (double &v : q.m) v = g.num(2);
      for (int k = g.i(0, 3); k > 0; --k) q.pairs.push_back({all[g.i(0, n - 1)].tag, all[g.i(0, n - 1)].tag});
      f.periodic.push_back(q);
    }
  f.has_ghost = g.b(0.2);
  if (f.has_ghost)
    for (int j = g.i(0, 2); j > 0; --j) {
      Ghost q;
      q.elem = g.i(1, 50);
      q.part = g.i(1, 4);
      for (int k = g.i(0, 3); k > 0; --k) q.ghost.push_back(g.i(1, 4));
      f.ghosts.push_back(q);
    }
  f.has_names = g.b(0.5);
  if (opt.comments)
    for (auto &c : f.com)
      if (g.b(0.2)) {
        const int m = g.i(1, 2);
        for (int k = 0; k < m; ++k) {
          Comment q;
          q.name = g.pick(std::vector<std::string>{"Comments", "NodeData", "ElementData", "Comment x", "InterpolationScheme", "X"});
          q.body = g.pick(std::vector<std::string>{"", "a comment\n", "1\n\"view\"\n1\n0.0\n3\n0 1 2\n", "Nodes EndNodes\n4 5\n\n", "End\n"});
          c.push_back(q);
        }
      }
  return f;
}

// --- encoders -------------------------------------------------------------------------------------------------------

inline void Raw(std::string &o, const void *p, int n, bool big) {
  const char *c = static_cast<const char *>(p);
  if (big)
    for (int k = n - 1; k >= 0; --k) o.push_back(c[k]);
  else
    o.append(c, n);
}
struct Enc {
  bool v4, bin, big;
  std::string Name() const { return std::string(v4 ? "4.1 " : "2.2 ") + (bin ? (big ? "binary big endian" : "binary little endian") : "text"); }
};
inline const std::vector<Enc> &AllEnc() {
  static const std::vector<Enc> v{{false, false, false}, {false, true, false}, {false, true, true}, {true, false, false}, {true, true, false}, {true, true, true}};
  return v;
}

struct Out {
  std::string o;
  bool bin, big;
  pbt::G *g = nullptr;   // random white space (text, version 4 only)
  int style = 0;         // number style
  void I32(int v) { Raw(o, &v, 4, big); }
  void U64(uint64_t v) { Raw(o, &v, 8, big); }
  void F64(double v) { Raw(o, &v, 8, big); }
  void Num(double v) {
    char b[64];
    std::snprintf(b, sizeof b, style == 0 ? "%.17g" : style == 1 ? "%.16e" : "%.16E", v);
    o += b;
  }
  /// binary: raw, text: number and separator
  void D(int v) {
    if (bin) I32(v);
    else o += std::to_string(v), Sep();
  }
  void Q(uint64_t v) {
    if (bin) U64(v);
    else o += std::to_string(v), Sep();
  }
  void F(double v) {
    if (bin) F64(v);
    else Num(v), Sep();
  }
  void Sep() {
    if (g == nullptr) {
      o += ' ';
      return;
    }
    switch (g->i(0, 7)) {
      case 5: o += "  "; break;
      case 6: o += "\n"; break;
      case 7: o += " \t\n"; break;
      default: o += ' ';
    }
  }
  void Nl() {
    if (!bin && (o.empty() || o.back() != '\n')) o += '\n';
  }
};

inline std::string Header(const Enc &e) {
  std::string o = std::string("$MeshFormat\n") + (e.v4 ? "4.1 " : "2.2 ") + (e.bin ? "1" : "0") + " 8\n";
  if (e.bin) {
    int one = 1;
    Raw(o, &one, 4, e.big);
    o += "\n";
  }
  return o + "$EndMeshFormat\n";
}
inline void PutComments(std::string &o, const std::vector<Comment> &c) {
  for (auto &x : c) o += "$" + x.name + "\n" + x.body + "$End" + x.name + "\n";
}
inline void PutNames(std::string &o, const File &f) {
  if (!f.has_names) return;
  o += "$PhysicalNames\n" + std::to_string(f.names.size()) + "\n";
  for (auto &n : f.names) o += std::to_string(n.dim) + " " + std::to_string(n.nr) + " \"" + n.name + "\"\n";
  o += "$EndPhysicalNames\n";
}

inline std::string EncodeV2(pbt::G &g, const File &f, const Enc &e) {
  Out w;
  w.bin = e.bin;
  w.big = e.big;
  w.style = g.i(0, 2);
  std::string &o = w.o;
  o = Header(e);
  PutComments(o, f.com[0]);
  PutNames(o, f);
  if (f.has_names) PutComments(o, f.com[1]);
  o += "$Nodes\n" + std::to_string(f.NumNodes()) + "\n";
  for (auto &b : f.nodes)
    for (auto &n : b.nodes) {
      if (e.bin) {
        w.I32(static_cast<int>(n.tag));
        for (double x : n.x) w.F64(x);
      } else {
        o += std::to_string(n.tag);
        for (double x : n.x) o += ' ', w.Num(x);
        o += '\n';
      }
    }
  if (e.bin && g.b(0.7)) o += '\n';
  o += "$EndNodes\n";
  PutComments(o, f.com[2]);
  PutComments(o, f.com[4]);
  struct Line {
    int type, phys, ent;
    const std::vector<int> *parts;
    const Elem *el;
  };
  std::vector<Line> lines;
  for (auto &b : f.elems)
    for (auto &el : b.elems) {
      const Entity &E = f.ent[b.dim][b.ent];
      std::vector<int> ph = E.phys;
      if (ph.empty()) ph.push_back(0);
      for (int q : ph) lines.push_back({b.type, q, E.tag, &E.parts, &el});
    }
  o += "$Elements\n" + std::to_string(lines.size()) + "\n";
  const bool tags3 = g.b(0.2);
  auto ntags = [&](const Line &l) { return l.parts->empty() ? (tags3 ? 3 : 2) : 3 + static_cast<int>(l.parts->size()); };
  size_t k = 0;
  int num = static_cast<int>(f.elems.empty() ? 1 : f.elems[0].elems[0].tag);
  const bool long_blocks = g.b();
  while (k < lines.size()) {
    size_t len = 1;
    if (e.bin) {
      while (long_blocks && k + len < lines.size() && lines[k + len].type == lines[k].type && ntags(lines[k + len]) == ntags(lines[k]) && len < 7) ++len;
      w.I32(lines[k].type);
      w.I32(static_cast<int>(len));
      w.I32(ntags(lines[k]));
    }
    for (size_t j = 0; j < len; ++j, ++k) {
      const Line &l = lines[k];
      const int nt = ntags(l);
      if (e.bin) {
        w.I32(num++);
        w.I32(l.phys);
        w.I32(l.ent);
        if (nt > 2) w.I32(nt - 3);
        for (int q : *l.parts) w.I32(q);
        for (auto t : l.el->nodes) w.I32(static_cast<int>(t));
      } else {
        o += std::to_string(num++) + " " + std::to_string(l.type) + " " + std::to_string(nt) + " " + std::to_string(l.phys) + " " + std::to_string(l.ent);
        if (nt > 2) o += " " + std::to_string(nt - 3);
        for (int q : *l.parts) o += " " + std::to_string(q);
        for (auto t : l.el->nodes) o += " " + std::to_string(t);
        if (g.b(0.1)) o += " ";
        o += "\n";
      }
    }
  }
  if (e.bin) o += "\n";
  o += "$EndElements\n";
  PutComments(o, f.com[5]);
  if (f.has_periodic) {
    o += "$Periodic\n" + std::to_string(f.periodic.size()) + "\n";
    for (auto &q : f.periodic) {
      o += std::to_string(q.dim) + " " + std::to_string(q.slave) + " " + std::to_string(q.master) + "\n" + std::to_string(q.pairs.size()) + "\n";
      for (auto &r : q.pairs) o += std::to_string(r.first) + " " + std::to_string(r.second) + "\n";
    }
    o += "$EndPeriodic\n";
    PutComments(o, f.com[6]);
  }
  return o;
}

inline std::string EncodeV4(pbt::G &g, const File &f, const Enc &e) {
  Out w;
  w.bin = e.bin;
  w.big = e.big;
  w.style = g.i(0, 2);
  if (!e.bin && g.b(0.3)) w.g = &g;
  std::string &o = w.o;
  o = Header(e);
  auto end = [&](const char *name) {
    if (e.bin) o += "\n";
    else w.Nl();
    o += std::string("$End") + name + "\n";
  };
  auto ints = [&](const std::vector<int> &v) {
    w.Q(v.size());
    for (int x : v) w.D(x);
  };
  PutComments(o, f.com[0]);
  PutNames(o, f);
  if (f.has_names) PutComments(o, f.com[1]);
  o += "$Entities\n";
  for (int d = 0; d < 4; ++d) w.Q(f.Listed(d).size());
  w.Nl();
  for (int d = 0; d < 4; ++d)
    for (auto &E : f.Listed(d)) {
      w.D(E.tag);
      for (int k = 0; k < (d == 0 ? 3 : 6); ++k) w.F(E.bb[k]);
      ints(E.phys);
      if (d > 0) ints(E.bounding);
      w.Nl();
    }
  end("Entities");
  PutComments(o, f.com[2]);
  if (f.nparts > 0) {
    o += "$PartitionedEntities\n";
    w.Q(f.nparts);
    w.Q(f.ghost_ents.size());
    for (auto &q : f.ghost_ents) {
      w.D(q.first);
      w.D(q.second);
    }
    for (int d = 0; d < 4; ++d) w.Q(f.ent[d].size());
    w.Nl();
    for (int d = 0; d < 4; ++d)
      for (auto &E : f.ent[d]) {
        w.D(E.tag);
        w.D(d);
        w.D(f.parent[d].empty() ? 1 : f.parent[d][E.parent].tag);
        ints(E.parts);
        for (int k = 0; k < (d == 0 ? 3 : 6); ++k) w.F(E.bb[k]);
        ints(E.phys);
        if (d > 0) ints(E.bounding);
        w.Nl();
      }
    end("PartitionedEntities");
    PutComments(o, f.com[3]);
  }
  uint64_t lo = UINT64_MAX, hi = 0;
  for (auto &b : f.nodes)
    for (auto &n : b.nodes) lo = std::min(lo, n.tag), hi = std::max(hi, n.tag);
  o += "$Nodes\n";
  w.Q(f.nodes.size());
  w.Q(f.NumNodes());
  w.Q(lo);
  w.Q(hi);
  w.Nl();
  for (auto &b : f.nodes) {
    w.D(b.dim);
    w.D(b.ent);
    w.D(0);
    w.Q(b.nodes.size());
    w.Nl();
    for (auto &n : b.nodes) {
      w.Q(n.tag);
      w.Nl();
    }
    for (auto &n : b.nodes) {
      for (double x : n.x) w.F(x);
      w.Nl();
    }
  }
  end("Nodes");
  PutComments(o, f.com[4]);
  uint64_t ne = 0, elo = UINT64_MAX, ehi = 0;
  for (auto &b : f.elems)
    for (auto &el : b.elems) ++ne, elo = std::min(elo, el.tag), ehi = std::max(ehi, el.tag);
  o += "$Elements\n";
  w.Q(f.elems.size());
  w.Q(ne);
  w.Q(elo);
  w.Q(ehi);
  w.Nl();
  for (auto &b : f.elems) {
    w.D(b.dim);
    w.D(f.ent[b.dim][b.ent].tag);
    w.D(b.type);
    w.Q(b.elems.size());
    w.Nl();
    for (auto &el : b.elems) {
      w.Q(el.tag);
      for (auto t : el.nodes) w.Q(t);
      w.Nl();
    }
  }
  end("Elements");
  PutComments(o, f.com[5]);
  if (f.has_periodic) {
    o += "$Periodic\n";
    w.Q(f.periodic.size());
    w.Nl();
    for (auto &q : f.periodic) {
      w.D(q.dim);
      w.D(q.slave);
      w.D(q.master);
      w.Nl();
      w.Q(q.affine ? 16 : 0);
      if (q.affine)
        for (double v : q.m) w.F(v);
      w.Nl();
      w.Q(q.pairs.size());
      w.Nl();
      for (auto &r : q.pairs) {
        w.Q(r.first);
        w.Q(r.second);
        w.Nl();
      }
    }
    end("Periodic");
    PutComments(o, f.com[6]);
  }
  if (f.has_ghost) {
    o += "$GhostElements\n";
    w.Q(f.ghosts.size());
    w.Nl();
    for (auto &q : f.ghosts) {
      w.Q(q.elem);
      w.D(q.part);
      w.Q(q.ghost.size());
      for (int x : q.ghost) w.D(x);
      w.Nl();
    }
    end("GhostElements");
  }
  return o;
}
inline std::string Encode(pbt::G &g, const File &f, const Enc &e) { return e.v4 ? EncodeV4(g, f, e) : EncodeV2(g, f, e); }

/// a file that exists as long as the object
class TmpFile {
 public:
  explicit TmpFile(const std::string &content, const std::string &ext = "") {
    const char *d = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = std::string(d) + "/verifpbt.XXXXXX";
    const int fd = mkstemp(t.data());
    if (fd < 0) throw pbt::Discard();
    path_ = t;
    if (!ext.empty()) {
      path_ += ext;
    }
    size_t done = 0;
    while (done < content.size()) {
      const ssize_t n = write(fd, content.data() + done, content.size() - done);
      if (n <= 0) break;
      done += n;
    }
    close(fd);
    if (!ext.empty()) rename(t.c_str(), path_.c_str());
  }
  ~TmpFile() { unlink(path_.c_str()); }
  TmpFile(const TmpFile &) = delete;
  TmpFile &operator=(const TmpFile &) = delete;
  const std::string &path() const { return path_; }

 private:
  std::string path_;
};

}  // namespace gmsh
#endif
