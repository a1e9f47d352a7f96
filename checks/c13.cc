// C13: fixing solution components yields the reduced problem's solution
#include <lf/assemble/assemble.h>

#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <complex>

#include "gen/shapes.h"
using namespace gen;
using lf::assemble::COOMatrix;
using Cplx = std::complex<double>;

namespace {
template <class S>
using MatS = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using VecS = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S>
S Num(pbt::G &g, double m) {
  if constexpr (std::is_same_v<S, Cplx>) return {g.num(m), g.num(m)};
  else return g.num(m);
}
template <class S>
struct Sys {
  MatS<S> A;
  VecS<S> b;
  COOMatrix<S> coo{0, 0};
};
template <class S>
Sys<S> RandSys(pbt::G &g, int n, bool spd) {
  Sys<S> s;
  s.A = MatS<S>::Zero(n, n);
  const double fill = g.b(0.3) ? 1.0 : 0.4;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && g.b(fill)) s.A(i, j) = Num<S>(g, 2);
  if (spd) s.A = (0.5 * (s.A + MatS<S>(s.A.adjoint()))).eval();
  for (int i = 0; i < n; ++i) s.A(i, i) = s.A.row(i).cwiseAbs().sum() + s.A.col(i).cwiseAbs().sum() + 0.5 + g.i(0, 3) / 2.0;
  if (!spd)
    for (int i = 0; i < n; ++i)
      if (g.b(0.3)) s.A.row(i) *= -1.0;
  s.b.resize(n);
  for (int i = 0; i < n; ++i) s.b(i) = Num<S>(g, 5);
  // triplets in random order, some entries split, some explicit zeros
  s.coo = COOMatrix<S>(n, n);
  const bool split = g.b(0.4);
  const bool rev = g.b();
  MatS<S> D = MatS<S>::Zero(n, n);
  for (int q = 0; q < n * n; ++q) {
    const int k = rev ? n * n - 1 - q : q;
    const int i = k % n;
    const int j = k / n;
    const S v = s.A(i, j);
    if (v == S(0) && !g.b(0.1)) continue;
    if (split && g.b(0.3)) {
      s.coo.AddToEntry(i, j, S(2) * v);
      s.coo.AddToEntry(i, j, -v);
      D(i, j) += S(2) * v;
      D(i, j) -= v;
    } else {
      s.coo.AddToEntry(i, j, v);
      D(i, j) += v;
    }
  }
  s.A = D;
  return s;
}
enum class Routine { kSym, kAlt, kLse };
template <class S, class R>
void Apply(Routine r, const std::vector<char> &fix, const VecS<S> &c, const std::vector<int> &order, COOMatrix<S> &A, R &b) {
  auto sel = [&](unsigned i) -> std::pair<bool, S> {
    if (i >= fix.size()) throw pbt::Fail{"selector_range", "selector asked about index " + std::to_string(i)};
    // the value of a component that is not fixed is irrelevant
    return fix[i] ? std::make_pair(true, c(i)) : std::make_pair(false, S(1e3));
  };
  if (r == Routine::kSym) lf::assemble::FixFlaggedSolutionComponents<S>(sel, A, b);
  else if (r == Routine::kAlt) lf::assemble::FixFlaggedSolutionCompAlt<S>(sel, A, b);
  else {
    lf::assemble::fixed_components_t<S> l;
    for (int k : order)
      if (fix[k]) l.push_back({static_cast<unsigned>(k), c(k)});
    lf::assemble::FixSolutionComponentsLse<S>(l, A, b);
  }
}
template <class S>
void Run(pbt::G &g) {
  const int n = g.i(1, 14);
  const bool spd = g.b(0.5);
  const Sys<S> s = RandSys<S>(g, n, spd);
  std::vector<char> fix(n);
  VecS<S> c = VecS<S>::Zero(n);
  const double pf = g.b(0.1) ? 0.0 : (g.b(0.1) ? 1.0 : 0.4);
  int nf = 0;
  for (int k = 0; k < n; ++k) {
    fix[k] = static_cast<char>(g.b(pf));
    nf += fix[k];
    if (fix[k]) c(k) = g.b(0.2) ? S(0) : Num<S>(g, 50);
  }
  const std::vector<int> order = g.perm(n);
  g.desc() << "n=" << n << " fixed=" << nf << (spd ? " hermitian pd" : " general") << "\nA=\n" << s.A << "\nb=" << s.b.transpose() << "\nc=" << c.transpose();
  // the reduced problem
  VecS<S> x = c;
  std::vector<int> fr;
  for (int k = 0; k < n; ++k)
    if (!fix[k]) fr.push_back(k);
  if (!fr.empty()) {
    MatS<S> Af(fr.size(), fr.size());
    VecS<S> bf(fr.size());
    for (size_t i = 0; i < fr.size(); ++i) {
      bf(i) = s.b(fr[i]) - (s.A.row(fr[i]) * c)(0);
      for (size_t j = 0; j < fr.size(); ++j) Af(i, j) = s.A(fr[i], fr[j]);
    }
    const VecS<S> xf = Af.partialPivLu().solve(bf);
    for (size_t i = 0; i < fr.size(); ++i) x(fr[i]) = xf(i);
  }
  const double sc = 1 + s.A.cwiseAbs().maxCoeff() * (1 + x.cwiseAbs().maxCoeff()) + s.b.cwiseAbs().maxCoeff();
  for (Routine r : {Routine::kSym, Routine::kAlt, Routine::kLse}) {
    const char *nm = r == Routine::kSym ? "FixFlaggedSolutionComponents" : (r == Routine::kAlt ? "FixFlaggedSolutionCompAlt" : "FixSolutionComponentsLse");
    COOMatrix<S> A = s.coo;
    VecS<S> b = s.b;
    Apply<S>(r, fix, c, order, A, b);
    CHECK(A.rows() == n && A.cols() == n && b.size() == n, "size", nm);
    const MatS<S> D = A.makeDense();
    CHECK((D * x - b).cwiseAbs().maxCoeff() <= 1e-10 * sc, "solution",
          nm << ": the solution of the reduced problem does not solve the modified system\nA'=\n" << D << "\nb'=" << b.transpose() << "\nx=" << x.transpose());
    const Eigen::FullPivLU<MatS<S>> lu(D);
    CHECK(lu.isInvertible(), "regular", nm << ": modified system is singular\n" << D);
    const VecS<S> y = lu.solve(b);
    CHECK((y - x).cwiseAbs().maxCoeff() <= 1e-8 * sc, "solve", nm << ": solution " << y.transpose() << " expected " << x.transpose());
    // original equations of the free components, prescribed values
    const VecS<S> res = s.A * y - s.b;
    for (int k = 0; k < n; ++k) {
      if (fix[k]) CHECK(std::abs(y(k) - c(k)) <= 1e-9 * (1 + std::abs(c(k))), "prescribed", nm << ": component " << k << " = " << y(k) << " prescribed " << c(k));
      else CHECK(std::abs(res(k)) <= 1e-8 * sc, "free_equation", nm << ": residual of equation " << k << " is " << res(k));
    }
    if (nf == 0) {
      CHECK_MAT(D, s.A, 0.0, "nothing_fixed_matrix", nm);
      CHECK_MAT(b, s.b, 0.0, "nothing_fixed_rhs", nm);
    }
    if (r == Routine::kSym && spd) {
      CHECK((D - MatS<S>(D.adjoint())).cwiseAbs().maxCoeff() <= 1e-14 * sc, "symmetric", nm << "\n" << D);
      const Eigen::SelfAdjointEigenSolver<MatS<S>> es(D, Eigen::EigenvaluesOnly);
      CHECK(es.eigenvalues()(0) > 0, "definite", nm << ": smallest eigenvalue " << es.eigenvalues()(0));
    }
    // same with a right-hand side in a plain container, and a second application changes nothing in the solution
    std::vector<S> bs(s.b.data(), s.b.data() + n);
    COOMatrix<S> A2 = s.coo;
    Apply<S>(r, fix, c, order, A2, bs);
    for (int k = 0; k < n; ++k) CHECK(bs[k] == b(k), "std_vector", nm << " component " << k);
    Apply<S>(r, fix, c, order, A, b);
    CHECK((A.makeDense() * x - b).cwiseAbs().maxCoeff() <= 1e-10 * sc, "twice", nm << ": applied twice");
  }
  if (g.b(0.05)) {
    VecS<S> b = VecS<S>::Zero(n + 1);
    COOMatrix<S> A = s.coo;
    CHECK(pbt::Rejects([&] { Apply<S>(Routine::kSym, std::vector<char>(n + 1, 0), VecS<S>::Zero(n + 1), {}, A, b); }), "size_mismatch", "longer right-hand side accepted");
  }
  g.label(spd ? "hermitian positive definite" : "general");
  g.nontrivial(nf > 0 && nf < n && n >= 3);
}
}  // namespace

PBT_SUB("real", 150, 5000,
        "random diagonally dominant real systems (n = 1..14, general or symmetric positive definite; triplets split, permuted, explicit zeros) with a "
        "random subset (also none or all) of components prescribed, by all three routines; non-trivial: n>=3 and 0 < #fixed < n") {
  Run<double>(g);
}
PBT_SUB("complex", 80, 3000, "the same for complex systems (general or hermitian positive definite)") { Run<Cplx>(g); }
