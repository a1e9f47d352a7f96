// C07: refinement patterns partition the reference element conformingly
#include "gen/patterns.h"
#include <map>
using namespace gen;
using lf::base::RefEl;
using namespace lf::refinement;

static std::vector<IPt> RefPolygon(RefEl t, int N) {
  if (t == RefEl::kTria()) return {{0, 0}, {N, 0}, {0, N}};
  return {{0, 0}, {N, 0}, {N, N}, {0, N}};
}
/// reference element symmetry that maps side i to side i+a (rotation)
static IPt Rot(RefEl t, int N, IPt p, int a) {
  for (int k = 0; k < a; ++k) {
    if (t == RefEl::kTria()) p = {N - p[0] - p[1], p[0]};
    else p = {N - p[1], p[0]};
  }
  return p;
}
using Seg = std::pair<IPt, IPt>;
static Seg S(const IPt &a, const IPt &b) { return a < b ? Seg(a, b) : Seg(b, a); }

static void CheckPattern(pbt::G &g, const PatCase &pc, int anchor, unsigned N, bool with_anchor) {
  std::unique_ptr<LatticePattern> rp;
  if (with_anchor) rp = std::make_unique<LatticePattern>(pc.type, pc.pat, anchor, N);
  else rp = std::make_unique<LatticePattern>(pc.type, pc.pat, N);
  const std::string who = pc.type.ToString() + " " + PatName(pc.pat) + " anchor " + (with_anchor ? std::to_string(anchor) : "none") +
                          " lattice " + std::to_string(N);
  g.desc() << who;
  g.label(pc.type.ToString() + " " + PatName(pc.pat) + " anchor " + (with_anchor ? std::to_string(anchor) : "none"));
  CHECK(rp->RefEl() == pc.type, "RefEl", who);
  CHECK(rp->LatticeConst() == N, "LatticeConst", who);
  CHECK(rp->refpat() == pc.pat, "refpat", who);
  const int dim = static_cast<int>(pc.type.Dimension());
  std::vector<std::vector<IMat>> poly;
  for (int c = 0; c <= dim; ++c) {
    poly.push_back(rp->ChildPolygons(c));
    CHECK(poly[c].size() == rp->NumChildren(c), "NumChildren", who << " codim " << c << ": " << poly[c].size() << " polygons but NumChildren "
                                                                    << rp->NumChildren(c));
    for (const auto &m : poly[c]) CHECK(m.rows() == dim, "polygon rows", who << " codim " << c);
  }
  if (dim == 0) {
    CHECK(poly[0].size() == 1 && poly[0][0].cols() == 1, "point copy", who);
    return;
  }
  if (dim == 1) {
    std::vector<std::pair<int, int>> iv;
    for (const auto &m : poly[0]) {
      CHECK(m.cols() == 2, "segment child", who);
      iv.push_back({std::min(m(0, 0), m(0, 1)), std::max(m(0, 0), m(0, 1))});
      CHECK(m(0, 0) < m(0, 1), "child direction", who);
    }
    CHECK(std::is_sorted(iv.begin(), iv.end()), "child order", who);
    const int n = static_cast<int>(N);
    const std::vector<std::pair<int, int>> want =
        pc.split.empty() ? std::vector<std::pair<int, int>>{{0, n}} : std::vector<std::pair<int, int>>{{0, n / 2}, {n / 2, n}};
    CHECK(iv == want, "segment partition", who);
    CHECK(poly[1].size() == pc.split.size(), "segment interior points", who);
    for (const auto &m : poly[1]) CHECK(m.cols() == 1 && m(0, 0) == n / 2, "segment midpoint", who);
    return;
  }
  // two-dimensional reference elements
  const int n = static_cast<int>(N);
  const auto R = RefPolygon(pc.type, n);
  const int ns = static_cast<int>(R.size());
  std::vector<std::vector<IPt>> P;
  long area = 0;
  for (const auto &m : poly[0]) {
    CHECK(m.cols() == 3 || m.cols() == 4, "child polygon corners", who);
    P.push_back(ToPts(m));
    CHECK(ConvexStrict(P.back()), "child polygon convex", who);
    for (const auto &x : P.back())
      for (int k = 0; k < ns; ++k) CHECK(Cross(R[k], R[(k + 1) % ns], x) >= 0, "child polygon inside", who);
    area += std::abs(Area2(P.back()));
  }
  CHECK(area == Area2(R), "child polygons cover", who << ": covered " << area << " of " << Area2(R));
  for (size_t i = 0; i < P.size(); ++i)
    for (size_t j = i + 1; j < P.size(); ++j) CHECK(Disjoint(P[i], P[j]), "children overlap", who << " " << i << "," << j);
  // sides of children
  std::map<Seg, int> cnt;
  std::set<IPt> verts;
  for (const auto &p : P)
    for (size_t k = 0; k < p.size(); ++k) {
      cnt[S(p[k], p[(k + 1) % p.size()])]++;
      verts.insert(p[k]);
    }
  auto side_of = [&](const IPt &a, const IPt &b) {
    for (int k = 0; k < ns; ++k)
      if (Cross(R[k], R[(k + 1) % ns], a) == 0 && Cross(R[k], R[(k + 1) % ns], b) == 0) return k;
    return -1;
  };
  std::set<Seg> interior;
  std::vector<std::set<Seg>> on_side(ns);
  for (const auto &c : cnt) {
    const int s = side_of(c.first.first, c.first.second);
    if (s >= 0) {
      CHECK(c.second == 1, "boundary segment multiplicity", who);
      on_side[s].insert(c.first);
    } else {
      CHECK(c.second == 2, "interior segment shared by two children", who << " multiplicity " << c.second);
      interior.insert(c.first);
    }
  }
  std::set<int> split;
  for (int s : pc.split) split.insert((s + (with_anchor && pc.needs_anchor ? anchor : 0)) % ns);
  for (int s = 0; s < ns; ++s) {
    const IPt a = R[s];
    const IPt b = R[(s + 1) % ns];
    const IPt m = {(a[0] + b[0]) / 2, (a[1] + b[1]) / 2};
    std::set<Seg> want;
    if (split.count(s)) want = {S(a, m), S(m, b)};
    else want = {S(a, b)};
    CHECK(on_side[s] == want, "side split", who << " side " << s);
  }
  // interior edges announced
  std::set<Seg> ann;
  for (const auto &m : poly[1]) {
    CHECK(m.cols() == 2, "child edge corners", who);
    const auto p = ToPts(m);
    CHECK(ann.insert(S(p[0], p[1])).second, "duplicate child edge", who);
  }
  CHECK(ann == interior, "child edges", who << ": announced interior edges differ from those of the child cells");
  std::set<IPt> ipts;
  for (const auto &v : verts) {
    bool in = true;
    for (int k = 0; k < ns; ++k) in = in && Cross(R[k], R[(k + 1) % ns], v) != 0;
    if (in) ipts.insert(v);
  }
  std::set<IPt> annp;
  for (const auto &m : poly[2]) {
    CHECK(m.cols() == 1, "child point", who);
    CHECK(annp.insert(ToPts(m)[0]).second, "duplicate child point", who);
  }
  CHECK(annp == ipts, "child points", who);
  // rotating the anchor rotates the pattern
  if (with_anchor && pc.needs_anchor) {
    LatticePattern r0(pc.type, pc.pat, 0, N);
    for (int c = 0; c <= 2; ++c) {
      const auto q0 = r0.ChildPolygons(c);
      CHECK(q0.size() == poly[c].size(), "anchor rotation", who);
      for (size_t k = 0; k < q0.size(); ++k) {
        auto a = ToPts(q0[k]);
        for (auto &x : a) x = Rot(pc.type, n, x, anchor);
        auto b = ToPts(poly[c][k]);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        CHECK(a == b, "anchor rotation", who << " codim " << c << " child " << k);
      }
    }
  }
  // resolution independence
  LatticePattern r6 = with_anchor ? LatticePattern(pc.type, pc.pat, anchor, 6) : LatticePattern(pc.type, pc.pat, 6);
  for (int c = 0; c <= 2; ++c) {
    const auto q = r6.ChildPolygons(c);
    CHECK(q.size() == poly[c].size(), "lattice scaling", who);
    for (size_t k = 0; k < q.size(); ++k) CHECK(IMat(q[k] * (n / 6)) == poly[c][k], "lattice scaling", who << " codim " << c << " child " << k);
  }
}

PBT_SUB("pattern", 40000, 800000,
        "random (reference element, pattern, anchor, lattice resolution 6..600); exact integer geometry; non-trivial: pattern splits something") {
  const auto &pc = g.pick(AllPatterns());
  const int nanch = std::max(1, static_cast<int>(pc.type.Dimension() == 2 ? pc.type.NumSubEntities(1) : 1));
  const int anchor = g.i(0, nanch - 1);
  const unsigned N = 6u * static_cast<unsigned>(g.b(0.5) ? 1 : g.i(1, 100));
  g.nontrivial(!pc.split.empty());
  const bool with = pc.type.Dimension() == 2 && (pc.needs_anchor || g.b());
  CheckPattern(g, pc, anchor, N, with);
}

PBT_SUB("invalid", 6000, 60000,
        "unsupported (element, pattern) combinations, missing or out-of-range anchors, nil pattern; histories of setRefPattern/setAnchor; "
        "non-trivial: combination must be rejected or history has at least 2 steps") {
  const RefEl types[] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  const RefEl t = types[g.raw(4)];
  const RefPat pat = static_cast<RefPat>(g.raw(10));
  const PatCase *pc = nullptr;
  for (const auto &c : AllPatterns())
    if (c.type == t && c.pat == pat) pc = &c;
  const int ns = t.Dimension() == 2 ? static_cast<int>(t.NumSubEntities(1)) : 0;
  g.desc() << t.ToString() << " " << PatName(pat);
  auto throws = [](auto &&f) { return pbt::Rejects(f); };
  if (pat == rp_nil) {
    Hybrid2DRefinementPattern rp(t, pat);
    for (unsigned c = 0; c <= t.Dimension(); ++c) {
      CHECK(rp.NumChildren(c) == 0, "nil pattern", t.ToString());
      CHECK(rp.ChildPolygons(c).empty(), "nil pattern", t.ToString());
    }
  } else if (pc == nullptr) {
    g.nontrivial();
    g.label("unsupported combination");
    Hybrid2DRefinementPattern rp = ns ? Hybrid2DRefinementPattern(t, pat, g.i(0, ns - 1)) : Hybrid2DRefinementPattern(t, pat);
    if (t.Dimension() > 0) {
      CHECK(throws([&] { (void)rp.NumChildren(0); }), "unsupported pattern accepted by NumChildren", t.ToString() << " " << PatName(pat));
      CHECK(throws([&] { (void)rp.ChildPolygons(0); }), "unsupported pattern accepted by ChildPolygons", t.ToString() << " " << PatName(pat));
    }
  } else if (pc->needs_anchor) {
    g.nontrivial();
    g.label("missing anchor");
    Hybrid2DRefinementPattern rp(t, pat);
    CHECK(throws([&] { (void)rp.ChildPolygons(0); }), "missing anchor accepted", t.ToString() << " " << PatName(pat));
    CHECK(pat == rp_split || throws([&] { (void)rp.refpat(); }), "missing anchor accepted", t.ToString() << " " << PatName(pat));
    CHECK(throws([&] { Hybrid2DRefinementPattern r2(t, pat, ns + g.i(0, 3)); }), "anchor out of range accepted", t.ToString());
    CHECK(throws([&] { rp.setAnchor(ns + g.i(0, 3)); }), "anchor out of range accepted", t.ToString());
  }
  // histories: the final state only depends on the last pattern and the anchor set after it
  if (t.Dimension() == 2) {
    Hybrid2DRefinementPattern h(t);
    const int steps = g.i(1, 6);
    g.nontrivial(steps >= 2);
    bool anchor_valid = false;
    int anchor = -1;
    const PatCase *cur = nullptr;
    for (int k = 0; k < steps; ++k) {
      if (g.b()) {
        std::vector<const PatCase *> ok;
        for (const auto &c : AllPatterns())
          if (c.type == t) ok.push_back(&c);
        cur = g.pick(ok);
        h.setRefPattern(cur->pat);
        anchor_valid = false;
        g.desc() << " set " << PatName(cur->pat);
      } else {
        anchor = g.i(0, ns - 1);
        h.setAnchor(anchor);
        anchor_valid = true;
        g.desc() << " anchor " << anchor;
      }
    }
    if (cur != nullptr) {
      if (cur->needs_anchor && !anchor_valid) {
        CHECK(cur->pat == rp_split || throws([&] { (void)h.refpat(); }), "stale anchor", "setRefPattern must invalidate the anchor");
        CHECK(throws([&] { (void)h.ChildPolygons(0); }), "stale anchor", "setRefPattern must invalidate the anchor");
      } else {
        CHECK(h.refpat() == cur->pat, "history refpat", "");
        if (anchor_valid) {
          CHECK(h.anchor() == static_cast<unsigned>(anchor), "history anchor", "");
          Hybrid2DRefinementPattern f(t, cur->pat, anchor);
          for (int c = 0; c <= 2; ++c) CHECK(f.ChildPolygons(c) == h.ChildPolygons(c), "history polygons", PatName(cur->pat));
        }
      }
    }
  }
}
