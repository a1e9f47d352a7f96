// C12: assembly and the triplet matrix equal the dense reference computation
#include <lf/assemble/assemble.h>

#include <complex>
#include <memory>

#include "gen/meshes.h"
using namespace gen;
using lf::assemble::COOMatrix;
using lf::assemble::DofHandler;
using lf::assemble::DynamicFEDofHandler;
using lf::assemble::UniformFEDofHandler;
using lf::base::RefEl;
using Cplx = std::complex<double>;

namespace {
template <class S>
using MatS = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using VecS = Eigen::Matrix<S, Eigen::Dynamic, 1>;
/// small dyadic values: sums are exact
template <class S>
S Num(pbt::G &g) {
  const double re = g.i(-8, 8) / 4.0;
  if constexpr (std::is_same_v<S, Cplx>) return {re, g.i(-8, 8) / 4.0};
  else return re;
}
template <class S>
MatS<S> RandM(pbt::G &g, int r, int c) {
  MatS<S> m(r, c);
  for (int k = 0; k < m.size(); ++k) m.data()[k] = Num<S>(g);
  return m;
}
template <class S>
void Compare(const COOMatrix<S> &A, const MatS<S> &D, const char *key, const std::string &what) {
  CHECK(A.rows() == D.rows() && A.cols() == D.cols(), key, what << ": size " << A.rows() << "x" << A.cols() << " expected " << D.rows() << "x" << D.cols());
  CHECK_MAT(A.makeDense(), D, 0.0, key, what << " (makeDense)");
  MatS<S> T = MatS<S>::Zero(D.rows(), D.cols());
  for (const auto &t : A.triplets()) T(t.row(), t.col()) += t.value();
  CHECK_MAT(T, D, 0.0, key, what << " (triplets)");
  if (D.rows() > 0 && D.cols() > 0) {
    const Eigen::SparseMatrix<S> sp = A.makeSparse();
    CHECK_MAT(MatS<S>(sp), D, 0.0, key, what << " (makeSparse)");
  }
}

template <class S>
void History(pbt::G &g, const char *name) {
  const int r0 = g.i(0, 6);
  const int c0 = g.i(0, 6);
  COOMatrix<S> A(r0, c0);
  MatS<S> D = MatS<S>::Zero(r0, c0);
  Compare(A, D, "fresh", name);
  const int n = g.i(1, 30);
  int adds = 0;
  int dup = 0;
  int clears = 0;
  int grow = 0;
  std::ostringstream h;
  for (int k = 0; k < n; ++k) {
    const unsigned op = g.raw(10);
    std::string what;
    if (op <= 4) {
      const bool gr = g.b(0.12) || D.size() == 0;
      const int i = gr ? g.i(0, static_cast<int>(D.rows()) + 2) : g.i(0, static_cast<int>(D.rows()) - 1);
      const int j = gr ? g.i(0, static_cast<int>(D.cols()) + 2) : g.i(0, static_cast<int>(D.cols()) - 1);
      const S v = Num<S>(g);
      if (i >= D.rows() || j >= D.cols()) {
        const MatS<S> old = D;
        D = MatS<S>::Zero(std::max<int>(old.rows(), i + 1), std::max<int>(old.cols(), j + 1));
        D.topLeftCorner(old.rows(), old.cols()) = old;
        ++grow;
      }
      dup += D(i, j) != S(0);
      D(i, j) += v;
      A.AddToEntry(i, j, v);
      ++adds;
      what = "add(" + std::to_string(i) + "," + std::to_string(j) + ")";
    } else if (op == 5) {
      const int kind = g.i(0, 4);
      const int a = g.i(0, 6);
      auto pred = [kind, a](unsigned i, unsigned j) -> bool {
        switch (kind) {
          case 0: return static_cast<int>(i) == a;
          case 1: return static_cast<int>(j) == a;
          case 2: return (i + j) % 2 == 0;
          case 3: return i <= j;
          default: return static_cast<int>(i) == a || static_cast<int>(j) >= a;
        }
      };
      A.setZero(pred);
      for (int i = 0; i < D.rows(); ++i)
        for (int j = 0; j < D.cols(); ++j)
          if (pred(i, j)) D(i, j) = 0;
      ++clears;
      what = "setZero(pred " + std::to_string(kind) + "," + std::to_string(a) + ")";
    } else if (op == 6 && g.b(0.4)) {
      A.setZero();
      D.setZero();
      ++clears;
      what = "setZero()";
    } else if (op == 7) {
      const S alpha = Num<S>(g);
      const VecS<S> x = RandM<S>(g, static_cast<int>(D.cols()) + (g.b(0.2) ? 2 : 0), 1);
      const VecS<S> want = alpha * (D * x.head(D.cols()));
      const VecS<S> got = A.MatVecMult(alpha, x);
      CHECK_MAT(got, want, 1e-12, "product", name << " MatVecMult returning after " << h.str());
      VecS<S> y = RandM<S>(g, static_cast<int>(D.rows()) + (g.b(0.2) ? 1 : 0), 1);
      VecS<S> yw = y;
      yw.head(D.rows()) += want;
      A.MatVecMult(alpha, x, y);
      CHECK_MAT(y, yw, 1e-12, "product_add", name << " MatVecMult accumulating after " << h.str());
      // plain containers
      std::vector<S> xs(x.data(), x.data() + x.size());
      std::vector<S> ys(D.rows(), S(1));
      A.MatVecMult(alpha, xs, ys);
      for (int i = 0; i < D.rows(); ++i) CHECK_NEAR(ys[i], S(1) + want(i), 1e-12, "product_std", name << " row " << i);
      what = "mult";
    } else if (op == 8) {
      COOMatrix<S> B(A);
      if (g.b()) B.AddToEntry(0, 0, S(1));  // must not affect A
      if (g.b()) {
        COOMatrix<S> C(std::move(A));
        A = std::move(C);
      }
      what = "copy/move";
    } else {
      Compare(A, D, "query", std::string(name) + " after " + h.str());
      what = "query";
    }
    h << what << " ";
  }
  g.desc() << name << " " << r0 << "x" << c0 << ": " << h.str();
  Compare(A, D, "history", std::string(name) + " after " + h.str());
  g.nontrivial(adds >= 3 && (dup > 0 || grow > 0) && clears > 0);
}

std::unique_ptr<DofHandler> RandHandler(pbt::G &g, const std::shared_ptr<const lf::mesh::Mesh> &mesh) {
  if (g.b())
    return std::make_unique<UniformFEDofHandler>(
        mesh, UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), g.i(0, 2)}, {RefEl::kSegment(), g.i(0, 2)}, {RefEl::kTria(), g.i(0, 2)}, {RefEl::kQuad(), g.i(0, 3)}},
        g.b(0.7));
  std::vector<unsigned> n[3];
  for (int c = 0; c <= 2; ++c)
    for (unsigned k = 0; k < mesh->NumEntities(c); ++k) n[c].push_back(g.i(0, 2));
  return std::make_unique<DynamicFEDofHandler>(mesh, [&](const lf::mesh::Entity &e) { return n[e.Codim()][mesh->Index(e)]; });
}
template <class S>
struct MatProv {
  const lf::mesh::Mesh *mesh;
  std::vector<MatS<S>> m;
  std::vector<char> act;
  mutable int bad = 0;
  bool isActive(const lf::mesh::Entity &e) { return act[mesh->Index(e)] != 0; }
  MatS<S> Eval(const lf::mesh::Entity &e) {
    bad += act[mesh->Index(e)] == 0;
    return m[mesh->Index(e)];
  }
};
template <class S>
struct VecProv {
  const lf::mesh::Mesh *mesh;
  std::vector<VecS<S>> v;
  std::vector<char> act;
  int bad = 0;
  bool isActive(const lf::mesh::Entity &e) { return act[mesh->Index(e)] != 0; }
  VecS<S> Eval(const lf::mesh::Entity &e) {
    bad += act[mesh->Index(e)] == 0;
    return v[mesh->Index(e)];
  }
};
/// a user supplied matrix format
template <class S>
struct DenseTmp {
  MatS<S> M;
  DenseTmp(unsigned r, unsigned c) : M(MatS<S>::Constant(r, c, S(77))) {}
  void setZero() { M.setZero(); }
  void AddToEntry(unsigned i, unsigned j, S v) { M(i, j) += v; }
};

template <class S>
void Assembly(pbt::G &g, const char *name) {
  MeshOpt o;
  o.max_n = 3;
  const HMesh hm = RandMesh(g, o);
  const std::shared_ptr<const lf::mesh::Mesh> mesh = hm.mesh;
  const auto trial = RandHandler(g, mesh);
  const auto test = g.b(0.3) ? nullptr : RandHandler(g, mesh);
  const DofHandler &tr = *trial;
  const DofHandler &te = test ? *test : *trial;
  const int codim = g.i(0, 2);
  g.desc() << name << " codim " << codim << (test ? " two spaces" : " one space") << " " << te.NumDofs() << "x" << tr.NumDofs() << "; ";
  MatProv<S> P;
  P.mesh = mesh.get();
  VecProv<S> V;
  V.mesh = mesh.get();
  const double pa = g.b(0.4) ? 1.0 : 0.6;
  MatS<S> D = MatS<S>::Zero(te.NumDofs(), tr.NumDofs());
  VecS<S> b = VecS<S>::Zero(tr.NumDofs());
  bool big = false;
  int nz = 0;
  P.m.resize(mesh->NumEntities(codim));
  V.v.resize(mesh->NumEntities(codim));
  P.act.resize(mesh->NumEntities(codim));
  V.act.resize(mesh->NumEntities(codim));
  for (const auto *e : mesh->Entities(codim)) {
    const unsigned k = mesh->Index(*e);
    P.act[k] = static_cast<char>(g.b(pa));
    V.act[k] = static_cast<char>(g.b(pa));
    const int er = g.b(0.15) ? g.i(1, 3) : 0;
    const int ec = g.b(0.15) ? g.i(1, 3) : 0;
    big = big || er + ec > 0;
    P.m[k] = RandM<S>(g, static_cast<int>(te.NumLocalDofs(*e)) + er, static_cast<int>(tr.NumLocalDofs(*e)) + ec);
    V.v[k] = RandM<S>(g, static_cast<int>(tr.NumLocalDofs(*e)) + ec, 1);
    const auto ri = te.GlobalDofIndices(*e);
    const auto ci = tr.GlobalDofIndices(*e);
    if (P.act[k])
      for (unsigned i = 0; i < ri.size(); ++i)
        for (unsigned j = 0; j < ci.size(); ++j) D(ri[i], ci[j]) += P.m[k](i, j), ++nz;
    if (V.act[k])
      for (unsigned j = 0; j < ci.size(); ++j) b(ci[j]) += V.v[k](j);
  }
  g.label("codim " + std::to_string(codim));
  {
    const COOMatrix<S> A = lf::assemble::AssembleMatrixLocally<COOMatrix<S>>(codim, tr, te, P);
    Compare(A, D, "matrix", "assembled");
    const auto A2 = lf::assemble::AssembleMatrixLocally<DenseTmp<S>>(codim, tr, te, P);
    CHECK_MAT(A2.M, D, 0.0, "matrix_user_format", "");
    if (!test) {
      const COOMatrix<S> A3 = lf::assemble::AssembleMatrixLocally<COOMatrix<S>>(codim, tr, P);
      Compare(A3, D, "matrix_square", "assembled, one space");
    }
    // accumulation
    COOMatrix<S> B(te.NumDofs(), tr.NumDofs());
    MatS<S> E = MatS<S>::Zero(te.NumDofs(), tr.NumDofs());
    for (int k = 0; k < 3 && E.size() > 0; ++k) {
      const int i = g.i(0, static_cast<int>(E.rows()) - 1);
      const int j = g.i(0, static_cast<int>(E.cols()) - 1);
      B.AddToEntry(i, j, S(2));
      E(i, j) += S(2);
    }
    lf::assemble::AssembleMatrixLocally(codim, tr, te, P, B);
    Compare<S>(B, E + D, "matrix_add", "added to existing matrix");
    CHECK(P.bad == 0, "inactive_eval", "Eval called " << P.bad << " times for inactive entities");
  }
  {
    const VecS<S> v = lf::assemble::AssembleVectorLocally<VecS<S>>(codim, tr, V);
    CHECK_MAT(v, b, 0.0, "vector", "assembled vector");
    VecS<S> w = RandM<S>(g, static_cast<int>(tr.NumDofs()), 1);
    const VecS<S> want = w + b;
    lf::assemble::AssembleVectorLocally(codim, tr, V, w);
    CHECK_MAT(w, want, 0.0, "vector_add", "added to existing vector");
    CHECK(V.bad == 0, "inactive_eval", "vector Eval called for inactive entities");
  }
  if (g.b(0.1)) {  // element matrices that are too small are rejected
    for (const auto *e : mesh->Entities(codim)) {
      const unsigned k = mesh->Index(*e);
      const unsigned nr = te.NumLocalDofs(*e);
      const unsigned nc = tr.NumLocalDofs(*e);
      if (nr == 0 || nc == 0 || P.act[k] == 0) continue;
      const bool rows = g.b();
      P.m[k] = RandM<S>(g, static_cast<int>(rows ? nr - 1 : nr), static_cast<int>(rows ? nc : nc - 1));
      CHECK(pbt::Rejects([&] { (void)lf::assemble::AssembleMatrixLocally<COOMatrix<S>>(codim, tr, te, P); }), "too_small", "entity " << k);
      break;
    }
  }
  g.nontrivial(nz > 0 && mesh->NumEntities(0) >= 2);
}
}  // namespace

PBT_SUB("triplet_history", 150, 4000,
        "random histories (1..30 operations) of additions (with duplicates and growth), predicate based and full resets, products, copies and "
        "conversions on real matrices against a dense model; non-trivial: >=3 additions, a duplicate or growth, and a reset") {
  History<double>(g, "real");
}
PBT_SUB("triplet_history_complex", 70, 2000, "the same histories on complex matrices") { History<Cplx>(g, "complex"); }
PBT_SUB("assembly", 90, 2500,
        "random mesh, random (uniform or entity dependent) numberings for trial and test space, random element matrices/vectors (possibly larger than "
        "needed) and random active entities for codimension 0..2, real; non-trivial: >=2 cells and a non-empty assembled pattern") {
  Assembly<double>(g, "real");
}
PBT_SUB("assembly_complex", 40, 1200, "the same with complex element matrices") { Assembly<Cplx>(g, "complex"); }
