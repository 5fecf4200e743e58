// C12, C13: linear solvers, eigensolvers, and linear algebra utilities
#include "pbt_main.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/numerical/linear_solvers.h"
#include <Eigen/Dense>
#include <Eigen/SVD>
#include <complex>
#include <unistd.h>

using namespace geometrycentral;
using pbt::G;
typedef std::complex<double> C;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;

template <typename T> struct Tr;
template <> struct Tr<double> {
  static constexpr double eps = 2.3e-16;
  static constexpr bool cplx = false;
  static double make(C c) { return c.real(); }
  static const char* name() { return "double"; }
};
template <> struct Tr<float> {
  static constexpr double eps = 1.2e-7;
  static constexpr bool cplx = false;
  static float make(C c) { return (float)c.real(); }
  static const char* name() { return "float"; }
};
template <> struct Tr<C> {
  static constexpr double eps = 2.3e-16;
  static constexpr bool cplx = true;
  static C make(C c) { return c; }
  static const char* name() { return "complex"; }
};
template <> struct Tr<int> {
  static int make(C c) { return (int)c.real(); }
  static const char* name() { return "int"; }
};

template <typename T> static MC toC(const SparseMatrix<T>& A) {
  MC M = MC::Zero(A.rows(), A.cols());
  for (int k = 0; k < A.outerSize(); k++)
    for (typename SparseMatrix<T>::InnerIterator it(A, k); it; ++it) M(it.row(), it.col()) += C(it.value());
  return M;
}
template <typename T> static VC toC(const Vector<T>& v) {
  VC M(v.rows());
  for (int i = 0; i < v.rows(); i++) M(i) = C(v(i));
  return M;
}
// an entry: small integers (exact) or reals over a few decades
static C entry(G& g, bool cplx, bool ints) {
  auto one = [&]() -> double {
    if (ints) return g.range(0, 8) - 4;
    double x = g.jitter(1);
    return g.chance(.2) ? x * std::pow(10., g.range(-2, 2)) : x;
  };
  double r = one();
  return cplx ? C(r, one()) : C(r, 0);
}
// a sparse matrix object holding these values, stored in one of the legal ways
template <typename T> static SparseMatrix<T> store(G& g, const MC& M, double dropZero = 1) {
  SparseMatrix<T> A(M.rows(), M.cols());
  int how = g.range(0, 3);
  if (how <= 1) {
    std::vector<Eigen::Triplet<T>> t;
    for (int i = 0; i < M.rows(); i++)
      for (int j = 0; j < M.cols(); j++) {
        bool z = M(i, j) == C(0, 0);
        if (z && how == 0) continue;
        if (z && !g.chance(.1)) continue; // explicit zeros
        t.emplace_back(i, j, Tr<T>::make(M(i, j)));
      }
    A.setFromTriplets(t.begin(), t.end());
    if (how == 1) g.label("explicit zeros");
  } else if (how == 2) { // uncompressed, with slack
    g.label("uncompressed");
    if (M.cols()) A.reserve(Eigen::VectorXi::Constant(M.cols(), (int)M.rows() + 2));
    for (int i = 0; i < M.rows(); i++)
      for (int j = 0; j < M.cols(); j++)
        if (M(i, j) != C(0, 0)) A.insert(i, j) = Tr<T>::make(M(i, j));
  } else { // via arithmetic
    SparseMatrix<T> B(M.rows(), M.cols());
    for (int i = 0; i < M.rows(); i++)
      for (int j = 0; j < M.cols(); j++)
        if (M(i, j) != C(0, 0)) B.insert(i, j) = Tr<T>::make(M(i, j));
    A = B + SparseMatrix<T>(M.rows(), M.cols());
  }
  (void)dropZero;
  return A;
}
static MC randDense(G& g, int r, int c, bool cplx, double fill, bool ints) {
  MC M = MC::Zero(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (fill >= 1 || g.chance(fill)) M(i, j) = entry(g, cplx, ints);
  return M;
}
template <typename T> static Vector<T> randVec(G& g, int n) {
  Vector<T> v(n);
  for (int i = 0; i < n; i++) v(i) = Tr<T>::make(entry(g, Tr<T>::cplx, false));
  return v;
}
static std::string show(const MC& M) {
  std::ostringstream o;
  if (M.size() <= 40) o << M.format(Eigen::IOFormat(6, Eigen::DontAlignCols, " ", ", "));
  return o.str();
}
static double cond(const MC& M, int* rank = nullptr) {
  Eigen::JacobiSVD<MC> s(M);
  auto v = s.singularValues();
  if (v.size() == 0) return 1;
  if (rank) {
    *rank = 0;
    for (int i = 0; i < v.size(); i++) *rank += v(i) > 1e-9 * v(0) && v(i) > 0;
  }
  return v(0) > 0 ? v(0) / std::max(v(v.size() - 1), 1e-300) : 1e300;
}

// ------------------------------------------------------------ solvers
template <typename T>
static void checkRejects(G& g, LinearSolver<T>& s, int n) {
  Vector<T> bad = Vector<T>::Zero(n + 1);
  REQ_THROWS(g, s.solve(bad), "right hand side that is too long");
  if (n > 1) REQ_THROWS(g, s.solve(Vector<T>(Vector<T>::Zero(n - 1))), "right hand side that is too short");
  if (n > 0) {
    Vector<T> nf = Vector<T>::Zero(n);
    nf(g.below(n)) = g.coin() ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
    REQ_THROWS(g, s.solve(nf), "non-finite right hand side");
  }
}

template <typename T> static MC genNonsingular(G& g, int n, bool& ok) {
  bool cplx = Tr<T>::cplx;
  int kind = g.range(0, 3);
  MC M;
  double sc = g.chance(.3) ? std::pow(10., g.range(-6, 6)) : 1;
  if (kind == 0) { // dense-ish
    M = randDense(g, n, n, cplx, 1, false);
  } else if (kind == 1) { // sparse + permuted diagonal (structural zeros on the diagonal)
    M = randDense(g, n, n, cplx, 2. / n, false) * .3;
    std::vector<size_t> p = g.perm(n);
    for (int i = 0; i < n; i++) M(i, p[i]) += C(g.coin() ? 1.5 : -1.5, cplx ? g.jitter(1) : 0);
  } else if (kind == 2) { // lower/upper triangular
    M = randDense(g, n, n, cplx, .5, false);
    bool lo = g.coin();
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        if (lo ? j > i : j < i) M(i, j) = 0;
        if (i == j) M(i, j) = C(1 + g.unit(), 0);
      }
  } else { // blocks
    M = MC::Zero(n, n);
    for (int i = 0; i < n;) {
      int b = std::min(n - i, g.range(1, 4));
      M.block(i, i, b, b) = randDense(g, b, b, cplx, 1, true) + 2 * MC::Identity(b, b);
      i += b;
    }
  }
  M *= sc;
  // what the type can represent
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) M(i, j) = C(Tr<T>::make(M(i, j)));
  ok = cond(M) < 1e8;
  return M;
}

template <typename T>
static void cmpSol(G& g, const VC& x, const VC& ref, double tol, const char* what) {
  double e = (x - ref).norm();
  REQ(g, e <= tol * (ref.norm() + 1e-300) + 1e-300, what << " <" << Tr<T>::name() << ">: relative error " << e / (ref.norm() + 1e-300) << " tol " << tol);
}

template <typename T> static void squareT(G& g) {
  int n = g.chance(.1) ? g.range(20, 45) : g.range(1, 14);
  bool ok;
  MC M = genNonsingular<T>(g, n, ok);
  g.note(Tr<T>::name(), " square ", n, ": ", show(M));
  if (!ok) g.discard();
  if (n > 2) g.nontrivial();
  double k = cond(M);
  SparseMatrix<T> A = store<T>(g, M);
  double tol = 1e3 * k * 2.3e-16 * n + (Tr<T>::eps > 1e-10 ? 1e-6 : 0);
  Eigen::FullPivLU<MC> lu(M);
  auto rhsAll = [&](LinearSolver<T>& s, const char* what) {
    for (int i = 0, nr = g.range(1, 3); i < nr; i++) {
      Vector<T> b = randVec<T>(g, n);
      if (g.chance(.1)) b.setZero();
      VC ref = lu.solve(toC(b));
      if (g.coin()) {
        Vector<T> x = s.solve(b);
        REQ(g, x.rows() == n, "size of the solution");
        cmpSol<T>(g, toC(x), ref, tol, what);
      } else {
        Vector<T> x = Vector<T>::Constant(g.range(0, 5), T(7)); // any previous content
        s.solve(x, b);
        REQ(g, x.rows() == n, "size of the solution");
        cmpSol<T>(g, toC(x), ref, tol, what);
        double r = residual(A, x, b), rr = (M * toC(x) - toC(b)).norm();
        REQ_NEAR(g, r, rr, (Tr<T>::eps * 100) * (M.norm() * x.norm() + b.norm()), "residual()");
      }
    }
  };
  {
    std::unique_ptr<SparseMatrix<T>> own(new SparseMatrix<T>(A));
    SquareSolver<T> s(*own);
    REQ(g, (toC(*own) - M).norm() == 0, "the matrix was changed");
    if (g.coin()) {
      *own *= T(3);
      own.reset(); // the factorization is retained
    }
    rhsAll(s, "SquareSolver");
    if (g.chance(.2)) {
      checkRejects<T>(g, s, n);
      rhsAll(s, "SquareSolver");
    }
  }
  {
    SparseMatrix<T> B = A;
    Solver<T> s(B);
    REQ(g, (toC(B) - M).norm() == 0, "the matrix was changed");
    REQ(g, (int)s.rank() == n, "Solver.rank() = " << s.rank() << " of a nonsingular matrix of size " << n);
    rhsAll(s, "Solver");
    if (g.chance(.2)) checkRejects<T>(g, s, n);
  }
  {
    SparseMatrix<T> B = A;
    Vector<T> b = randVec<T>(g, n);
    cmpSol<T>(g, toC(solveSquare(B, b)), lu.solve(toC(b)), tol, "solveSquare");
    cmpSol<T>(g, toC(geometrycentral::solve(B, b)), lu.solve(toC(b)), tol, "solve");
  }
  if (g.chance(.1)) { // rejected input
    SparseMatrix<T> R(n, n + 1);
    REQ_THROWS(g, SquareSolver<T> s(R), "a non-square matrix");
    REQ_THROWS(g, PositiveDefiniteSolver<T> s(R), "a non-square matrix");
    SparseMatrix<T> I = A;
    I.coeffRef(g.below(n), g.below(n)) = std::numeric_limits<double>::quiet_NaN();
    REQ_THROWS(g, SquareSolver<T> s(I), "NaN in the matrix");
    REQ_THROWS(g, Solver<T> s(I), "NaN in the matrix");
    REQ_THROWS(g, PositiveDefiniteSolver<T> s(I), "NaN in the matrix");
  }
}

template <typename T> static void posdefT(G& g) {
  bool cplx = Tr<T>::cplx;
  int n = g.chance(.1) ? g.range(20, 45) : g.range(1, 14);
  int kind = g.range(0, 2);
  MC M;
  bool semi = false, indef = false;
  if (kind == 0) { // Gram matrix
    MC B = randDense(g, n, n, cplx, std::min(1., 4. / n), false);
    M = B * B.adjoint() + std::pow(10., g.range(-3, 0)) * MC::Identity(n, n);
  } else if (kind == 1) { // graph Laplacian (Hermitian connection), shifted or not
    M = MC::Zero(n, n);
    for (int k = 0, m = g.range(0, 2 * n); k < m; k++) {
      int i = (int)g.below(n), j = (int)g.below(n);
      if (i == j) continue;
      double w = g.coin() ? 1 : .25 + g.unit();
      C r = cplx ? std::polar(1., g.jitter(3)) : C(1, 0);
      M(i, i) += w;
      M(j, j) += w;
      M(i, j) -= w * r;
      M(j, i) -= w * std::conj(r);
    }
    if (g.chance(.3)) semi = true;
    else
      M += std::pow(10., g.range(-4, 1)) * MC::Identity(n, n);
  } else { // saddle point / strongly indefinite symmetric
    M = MC::Identity(n, n) * 3;
    MC B = randDense(g, n, n, cplx, std::min(1., 2. / n), false) * .1;
    M += B + MC(B.adjoint());
  }
  if (g.chance(.3)) M *= std::pow(10., g.range(-6, 6));
  for (int i = 0; i < n; i++) // representable and exactly Hermitian
    for (int j = 0; j <= i; j++) {
      C c = Tr<T>::make(M(i, j));
      if (i == j) c = c.real();
      M(i, j) = c;
      M(j, i) = std::conj(c);
    }
  g.note(Tr<T>::name(), semi ? " semidefinite " : " posdef ", n, ": ", show(M));
  SparseMatrix<T> A = store<T>(g, M);
  double k = cond(M);
  if (!semi) {
    Eigen::SelfAdjointEigenSolver<MC> es(M, Eigen::EigenvaluesOnly);
    indef = es.eigenvalues().minCoeff() <= 0;
    if (k > 1e8 || indef) g.discard();
  }
  if (n > 2) g.nontrivial();
  double tol = 1e3 * k * 2.3e-16 * n + (Tr<T>::eps > 1e-10 ? 1e-6 : 0);
  if (semi) { // consistent right hand side: a solution, or a clean refusal
    g.label("semidefinite");
    VC z(n);
    for (int i = 0; i < n; i++) z(i) = entry(g, cplx, true);
    VC b = M * z;
    Vector<T> bt(n);
    for (int i = 0; i < n; i++) bt(i) = Tr<T>::make(b(i));
    try {
      SparseMatrix<T> B = A;
      PositiveDefiniteSolver<T> s(B);
      (void)s.solve(bt);
    } catch (const std::exception&) {
      g.label("semidefinite refused");
    }
    return;
  }
  Eigen::FullPivLU<MC> lu(M);
  std::unique_ptr<SparseMatrix<T>> own(new SparseMatrix<T>(A));
  PositiveDefiniteSolver<T> s(*own);
  REQ(g, (toC(*own) - M).norm() == 0, "the matrix was changed");
  if (g.coin()) own.reset();
  for (int i = 0, nr = g.range(1, 4); i < nr; i++) {
    Vector<T> b = randVec<T>(g, n);
    Vector<T> x = Vector<T>::Constant(2, T(3));
    if (g.coin()) s.solve(x, b);
    else
      x = s.solve(b);
    cmpSol<T>(g, toC(x), lu.solve(toC(b)), tol, "PositiveDefiniteSolver");
  }
  if (g.chance(.2)) {
    checkRejects<T>(g, s, n);
    Vector<T> b = randVec<T>(g, n);
    cmpSol<T>(g, toC(s.solve(b)), lu.solve(toC(b)), tol, "PositiveDefiniteSolver after a rejected call");
  }
  {
    SparseMatrix<T> B = A;
    Vector<T> b = randVec<T>(g, n);
    cmpSol<T>(g, toC(solvePositiveDefinite(B, b)), lu.solve(toC(b)), tol, "solvePositiveDefinite");
    cmpSol<T>(g, toC(solveSquare(B, b)), lu.solve(toC(b)), tol, "solveSquare");
  }
  if (n >= 2 && g.chance(.2)) { // a matrix that is not Hermitian is refused
    SparseMatrix<T> B = A;
    int i = (int)g.below(n), j = (int)g.below(n - 1);
    if (j >= i) j++;
    B.coeffRef(i, j) += T(M.cwiseAbs().maxCoeff());
    REQ_THROWS(g, PositiveDefiniteSolver<T> q(B), "a matrix that is not Hermitian");
    if (cplx) { // complex symmetric instead of Hermitian
      SparseMatrix<T> D = A;
      C v = C(0, 1) * M.cwiseAbs().maxCoeff();
      D.coeffRef(i, j) = Tr<T>::make(v);
      D.coeffRef(j, i) = Tr<T>::make(v);
      REQ_THROWS(g, PositiveDefiniteSolver<T> q(D), "a complex symmetric matrix that is not Hermitian");
    }
  }
}

template <typename T> static void leastSquaresT(G& g) {
  bool cplx = Tr<T>::cplx;
  int m = g.range(1, 12), n = g.range(1, 12);
  int kind = g.range(0, 2);
  MC M;
  if (kind == 0) M = randDense(g, m, n, cplx, 1, false);
  else if (kind == 1) { // sparse integers: exact rank
    M = randDense(g, m, n, cplx, .4, true);
  } else { // low rank, exact
    int r = g.range(0, std::min(m, n));
    M = MC::Zero(m, n);
    if (r > 0) M = randDense(g, m, r, cplx, .6, true) * randDense(g, r, n, cplx, .6, true);
  }
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) M(i, j) = C(Tr<T>::make(M(i, j)));
  g.note(Tr<T>::name(), " ", m, "x", n, ": ", show(M));
  Eigen::JacobiSVD<MC> svd(M, Eigen::ComputeThinU | Eigen::ComputeThinV);
  auto sv = svd.singularValues();
  int rank = 0;
  double smin = 0;
  for (int i = 0; i < sv.size(); i++)
    if (sv(i) > 1e-9 * std::max(sv(0), 1e-9)) {
      rank++;
      smin = sv(i);
    }
  if (rank && sv(0) / smin > 1e4) g.discard();
  for (int i = rank; i < sv.size(); i++)
    if (sv(i) > 1e-13 * sv(0)) g.discard(); // no clear numerical rank
  double k = rank ? sv(0) / smin : 1;
  if (m > 1 && n > 1) g.nontrivial();
  bool full = rank == std::min(m, n);
  g.label(full ? (m >= n ? "overdetermined" : "underdetermined") : "rank deficient");
  SparseMatrix<T> A = store<T>(g, M);
  std::unique_ptr<SparseMatrix<T>> own(new SparseMatrix<T>(A));
  Solver<T> s(*own);
  REQ(g, (toC(*own) - M).norm() == 0, "the matrix was changed");
  own.reset();
  REQ(g, (int)s.rank() == rank, "rank() is " << s.rank() << ", the rank is " << rank);
  double tol = 1e4 * k * k * 2.3e-16 + (Tr<T>::eps > 1e-10 ? 1e-6 * k : 0);
  for (int it = 0, nr = g.range(1, 3); it < nr; it++) {
    Vector<T> b = randVec<T>(g, m);
    bool consistent = g.coin();
    if (consistent) {
      VC z(n);
      for (int i = 0; i < n; i++) z(i) = entry(g, cplx, true);
      VC bb = M * z;
      for (int i = 0; i < m; i++) b(i) = Tr<T>::make(bb(i));
      // the rounded right hand side may leave the range
    }
    VC ref = svd.matrixV().leftCols(rank) * (svd.matrixU().leftCols(rank).adjoint() * toC(b)).cwiseQuotient(sv.head(rank).cast<C>());
    Vector<T> x;
    if (g.coin()) x = s.solve(b);
    else
      s.solve(x, b);
    REQ(g, x.rows() == n, "size of the solution");
    VC xc = toC(x);
    for (int i = 0; i < n; i++) REQ(g, std::isfinite(std::abs(xc(i))), "solution entry " << xc(i));
    double bs = toC(b).norm() + 1e-300;
    if (full) {
      REQ(g, (xc - ref).norm() <= tol * (ref.norm() + (rank ? bs / sv(0) : 0)), "not the least-squares / least-norm solution: error " << (xc - ref).norm() << " of " << ref.norm());
    } else if (m >= n || consistent) { // optimal residual
      VC r = M * xc - toC(b), r0 = M * ref - toC(b);
      REQ(g, (M.adjoint() * r).norm() <= tol * (M.norm() * (M.norm() * (xc.norm() + ref.norm()) + bs)) + 1e-300, "residual " << r.norm() << " of a rank-deficient system; the optimum is " << r0.norm());
    }
  }
  if (g.chance(.2)) checkRejects<T>(g, s, m);
}

// ------------------------------------------------------------ eigenvectors
template <typename T> static void eigenT(G& g) {
  bool cplx = Tr<T>::cplx, flt = Tr<T>::eps > 1e-10;
  int n = g.range(2, 9);
  // A = R* diag(l) R, M = R* R with R lower triangular: A x = l M x for the columns of R^-1
  MC R = randDense(g, n, n, cplx, .4, false) * .3;
  for (int i = 0; i < n; i++) {
    for (int j = i + 1; j < n; j++) R(i, j) = 0;
    R(i, i) = .7 + g.unit();
  }
  if (g.chance(.4)) { // lumped mass
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) R(i, j) = 0;
  }
  MC Q = Eigen::HouseholderQR<MC>(randDense(g, n, n, cplx, 1, false) + MC::Identity(n, n) * .1).householderQ();
  double msc = g.chance(.4) ? std::pow(10., g.jitter(flt ? 2 : 5)) : 1;
  double esc = g.chance(.4) ? std::pow(10., g.jitter(flt ? 2 : 5)) : 1;
  bool square = g.chance(.3); // indefinite, ordered by absolute value
  std::vector<double> l(n);
  double cur = esc;
  for (int i = 0; i < n; i++) {
    l[i] = (square && g.coin()) ? -cur : cur;
    cur *= 3.5 + 2 * g.unit();
  }
  if (cond(R) > 20) g.discard();
  MC L = MC::Zero(n, n);
  for (int i = 0; i < n; i++) L(i, i) = l[i];
  MC E = R.adjoint() * Q * L * Q.adjoint() * R, M = msc * R.adjoint() * R;
  MC X = (R.inverse() * Q) / std::sqrt(msc); // M-orthonormal eigenvectors, eigenvalues l/msc
  auto herm = [&](MC& A) {
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++) {
        C c = Tr<T>::make(A(i, j));
        if (i == j) c = c.real();
        A(i, j) = c;
        A(j, i) = std::conj(c);
      }
  };
  herm(E);
  herm(M);
  // float (and the spread of the spectrum) limits what can be recovered
  double spread = std::fabs(l[n - 1] / l[0]);
  if (spread > (flt ? 3e3 : 1e8)) {
    if (flt) n = n; // keep
    if (spread > 1e8 || flt) g.discard();
  }
  g.note(Tr<T>::name(), " n=", n, square ? " indefinite" : " posdef", " mass scale ", msc, " energy scale ", esc, " E=", show(E), " M=", show(M));
  g.nontrivial();
  SparseMatrix<T> Es = store<T>(g, E), Ms = store<T>(g, M);
  double tol = (flt ? 1e-4 : 1e-11) * spread + (flt ? 1e-3 : 1e-7);
  auto isEig = [&](const Vector<T>& xt, int which, const char* what) {
    VC x = toC(xt);
    REQ(g, x.rows() == n, "size");
    double nm = std::sqrt(std::abs(C(x.dot(M * x))));
    REQ_NEAR(g, nm, 1., flt ? 1e-3 : 1e-9, what << ": not normalised w.r.t. the mass matrix");
    VC c = X.adjoint() * (M * x); // coefficients in the true eigenbasis
    double off = 0;
    for (int i = 0; i < n; i++)
      if (i != which) off += std::norm(c(i));
    REQ(g, std::sqrt(off) < tol, what << ": eigenvector " << which << " has a component " << std::sqrt(off) << " outside its eigenspace, coefficients " << c.transpose());
  };
  srand((unsigned)g.draw(1000));
  if (square) {
    g.label("indefinite");
    isEig(smallestEigenvectorSquare<T>(Es, Ms, 60), 0, "smallestEigenvectorSquare");
    isEig(largestEigenvector<T>(Es, Ms, 60), n - 1, "largestEigenvector");
    return;
  }
  Vector<T> x = smallestEigenvectorPositiveDefinite<T>(Es, Ms, 60);
  isEig(x, 0, "smallestEigenvectorPositiveDefinite");
  isEig(smallestEigenvectorSquare<T>(Es, Ms, 60), 0, "smallestEigenvectorSquare");
  isEig(largestEigenvector<T>(Es, Ms, 60), n - 1, "largestEigenvector");
  size_t k = g.range(1, n);
  std::vector<Vector<T>> xs = smallestKEigenvectorsPositiveDefinite<T>(Es, Ms, k, 60);
  REQ(g, xs.size() == k, "number of eigenvectors");
  for (size_t i = 0; i < k; i++) isEig(xs[i], (int)i, "smallestKEigenvectorsPositiveDefinite");
  // residual of a candidate
  {
    Vector<T> v = randVec<T>(g, n);
    VC vc = toC(v);
    C ev = vc.dot(E * vc);
    VC r = E * vc - ev * (M * vc);
    double want = std::sqrt(std::abs(C(r.dot(M * r))));
    double mag = (E.norm() * vc.norm() + std::abs(ev) * M.norm() * vc.norm()) * std::sqrt(M.norm());
    REQ_NEAR(g, eigenvectorResidual(Es, Ms, v), want, Tr<T>::eps * 1e3 * mag, "eigenvectorResidual");
  }
  if (!flt) {
    double sc = E.norm() * X.col(0).norm() * std::sqrt(M.norm());
    double rtol = sc * std::pow(10., -g.range(5, 8)); // well above rounding
    size_t kk = g.range(1, std::min(n, 4));
    std::vector<Vector<T>> ys = smallestKEigenvectorsPositiveDefiniteTol<T>(Es, Ms, kk, rtol);
    REQ(g, ys.size() == kk, "number of eigenvectors");
    for (size_t i = 0; i < kk; i++) {
      VC y = toC(ys[i]);
      REQ_NEAR(g, std::sqrt(std::abs(C(y.dot(M * y)))), 1., 1e-9, "smallestKEigenvectorsPositiveDefiniteTol: not normalised");
      for (size_t j = 0; j < i; j++) REQ_NEAR(g, std::abs(C(toC(ys[j]).dot(M * y))), 0., 1e-7, "eigenvectors " << j << "," << i << " are not orthogonal");
      C ev = y.dot(E * y);
      VC r = E * y - ev * (M * y);
      REQ(g, std::sqrt(std::abs(C(r.dot(M * r)))) <= rtol * (1 + 1e-6), "residual of eigenvector " << i << " exceeds the requested tolerance " << rtol);
    }
  }
}
// the default tolerance, as on a mesh with its lumped mass matrix
static void eigenTolDefault(G& g) {
  int n = g.range(3, 8);
  double h = std::pow(10., g.jitter(4)); // length scale: mass ~ h^2, stiffness ~ 1
  std::vector<double> l(n), w(n);
  double cur = 1;
  MC Q = Eigen::HouseholderQR<MC>(randDense(g, n, n, false, 1, false) + MC::Identity(n, n) * .1).householderQ();
  MC L = MC::Zero(n, n), D = MC::Zero(n, n);
  for (int i = 0; i < n; i++) {
    D(i, i) = h * (.5 + g.unit());
    L(i, i) = cur;
    cur *= 1.5 + g.unit();
  }
  MC E = Q * L * Q.adjoint(), M = D * D;
  E = ((E + MC(E.adjoint())) / 2).eval();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) E(i, j) = E(std::max(i, j), std::min(i, j)).real();
  g.note("h=", h, " E=", show(E), " M=", show(M));
  g.nontrivial();
  SparseMatrix<double> Es = store<double>(g, E), Ms = store<double>(g, M);
  srand((unsigned)g.draw(1000));
  double scale = E.norm(); // residuals of unit vectors have this magnitude
  double tol = scale * 1e-8;
  for (auto& y : smallestKEigenvectorsPositiveDefiniteTol<double>(Es, Ms, 2, tol)) {
    VC c = toC(y);
    REQ_NEAR(g, std::sqrt(std::abs(C(c.dot(M * c)))), 1., 1e-9, "not normalised w.r.t. the mass matrix");
    C ev = c.dot(E * c);
    VC r = E * c - ev * (M * c);
    REQ(g, std::sqrt(std::abs(C(r.dot(M * r)))) <= tol * (1 + 1e-6), "residual");
  }
}

// ------------------------------------------------------------ utilities
template <typename T> static Eigen::Matrix<T, -1, -1> dense(const SparseMatrix<T>& A) { return Eigen::Matrix<T, -1, -1>(A); }
typedef SparseMatrix<double> SD;

template <typename T> static MC genAny(G& g, int r, int c, bool cplx) {
  MC M = randDense(g, r, c, cplx, g.chance(.3) ? 1 : .4, g.coin());
  if (!std::is_integral<T>::value && g.chance(.3)) M *= std::pow(10., g.range(-15, 15));
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) M(i, j) = C(Tr<T>::make(M(i, j)));
  return M;
}

template <typename T> static void blocksT(G& g, bool cplx) {
  int n = g.range(0, 12);
  MC M = genAny<T>(g, n, n, cplx);
  SparseMatrix<T> A = store<T>(g, M);
  g.note(Tr<T>::name(), " n=", n, " ", show(M));
  if (n > 2) g.nontrivial();
  Vector<bool> in(n);
  int mode = g.range(0, 3);
  std::vector<size_t> a, b;
  for (int i = 0; i < n; i++) {
    in(i) = mode == 0 ? g.coin() : mode == 1 ? false : mode == 2 ? true : g.chance(.2);
    (in(i) ? a : b).push_back(i);
  }
  bool bside = g.coin();
  auto d = blockDecomposeSquare(A, in, bside);
  REQ(g, d.isA.rows() == n && d.newInds.rows() == n && (size_t)d.origIndsA.rows() == a.size() && (size_t)d.origIndsB.rows() == b.size(), "sizes");
  for (size_t i = 0; i < a.size(); i++) REQ(g, d.origIndsA(i) == a[i] && d.newInds(a[i]) == i, "origIndsA");
  for (size_t i = 0; i < b.size(); i++) REQ(g, d.origIndsB(i) == b[i] && d.newInds(b[i]) == i, "origIndsB");
  for (int i = 0; i < n; i++) REQ(g, d.isA(i) == in(i), "isA");
  auto cmp = [&](const SparseMatrix<T>& S, const std::vector<size_t>& r, const std::vector<size_t>& c, const char* what) {
    REQ(g, (size_t)S.rows() == r.size() && (size_t)S.cols() == c.size(), what << " has shape " << S.rows() << "x" << S.cols());
    MC X = toC(S);
    for (size_t i = 0; i < r.size(); i++)
      for (size_t j = 0; j < c.size(); j++) REQ(g, X(i, j) == M(r[i], c[j]), what << "(" << i << "," << j << ")");
  };
  cmp(d.AA, a, a, "AA");
  cmp(d.AB, a, b, "AB");
  if (bside) {
    cmp(d.BA, b, a, "BA");
    cmp(d.BB, b, b, "BB");
  } else
    REQ(g, d.BA.size() == 0 && d.BB.size() == 0, "B side built");
  Vector<T> v(n), va = Vector<T>::Constant(1, T(5)), vb;
  for (int i = 0; i < n; i++) v(i) = Tr<T>::make(entry(g, cplx, false));
  decomposeVector(d, v, va, vb);
  REQ(g, (size_t)va.rows() == a.size() && (size_t)vb.rows() == b.size(), "sizes of the parts");
  for (size_t i = 0; i < a.size(); i++) REQ(g, va(i) == v(a[i]), "A part");
  for (size_t i = 0; i < b.size(); i++) REQ(g, vb(i) == v(b[i]), "B part");
  Vector<T> w = reassembleVector(d, va, vb);
  REQ(g, w.rows() == n, "size");
  for (int i = 0; i < n; i++) REQ(g, w(i) == v(i), "reassembled vector at " << i);
  // rejected: not square
  SparseMatrix<T> R(n, n + 1);
  REQ_THROWS(g, blockDecomposeSquare(R, in, bside), "non-square matrix");
}

template <typename T> static void stackT(G& g, bool cplx) {
  bool vert = g.coin();
  int k = g.range(1, 4), common = g.range(0, 6);
  std::vector<SparseMatrix<T>, Eigen::aligned_allocator<SparseMatrix<T>>> ms;
  std::vector<MC> ds;
  int tot = 0;
  for (int i = 0; i < k; i++) {
    int o = g.range(0, 5);
    MC M = vert ? genAny<T>(g, o, common, cplx) : genAny<T>(g, common, o, cplx);
    ds.push_back(M);
    ms.push_back(store<T>(g, M));
    tot += o;
    g.note(M.rows(), "x", M.cols(), " ", show(M));
  }
  if (k > 1 && tot > 1) g.nontrivial();
  SparseMatrix<T> S = vert ? verticalStack<T>(ms) : horizontalStack<T>(ms);
  REQ(g, S.rows() == (vert ? tot : common) && S.cols() == (vert ? common : tot), "shape");
  MC X = toC(S);
  int off = 0;
  for (MC& M : ds) {
    for (int i = 0; i < M.rows(); i++)
      for (int j = 0; j < M.cols(); j++) REQ(g, (vert ? X(i + off, j) : X(i, j + off)) == M(i, j), "stacked entry");
    off += vert ? M.rows() : M.cols();
  }
  ms.push_back(vert ? SparseMatrix<T>(2, common + 1) : SparseMatrix<T>(common + 1, 2));
  REQ_THROWS(g, vert ? verticalStack<T>(ms) : horizontalStack<T>(ms), "mismatched sizes");
  ms.clear();
  REQ_THROWS(g, vert ? verticalStack<T>(ms) : horizontalStack<T>(ms), "nothing to stack");
  // identity and shift
  int n = g.range(0, 6);
  MC M = genAny<T>(g, n, n, cplx);
  SparseMatrix<T> A = store<T>(g, M);
  T sh = Tr<T>::make(entry(g, cplx, false));
  shiftDiagonal<T>(A, sh);
  X = toC(A);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      T e = Tr<T>::make(M(i, j));
      if (i == j) e += sh;
      REQ(g, X(i, j) == C(e), "shiftDiagonal entry " << i << "," << j);
    }
  REQ(g, toC(identityMatrix<T>(n)) == MC(MC::Identity(n, n)), "identityMatrix");
  SparseMatrix<T> R(n, n + 1);
  REQ_THROWS(g, shiftDiagonal<T>(R, sh), "non-square matrix");
}

static void complexReal(G& g) {
  int m = g.range(0, 7), n = g.range(0, 7);
  MC M = genAny<C>(g, m, n, true), N = genAny<C>(g, n, g.range(0, 5), true);
  SparseMatrix<C> A = store<C>(g, M), B = store<C>(g, N);
  g.note(show(M));
  if (m > 1 && n > 1) g.nontrivial();
  SparseMatrix<double> Ar = complexToReal(A), Br = complexToReal(B);
  REQ(g, Ar.rows() == 2 * m && Ar.cols() == 2 * n, "shape");
  Vector<C> x = randVec<C>(g, n);
  Vector<double> xr = complexToReal(x);
  REQ(g, xr.rows() == 2 * n, "vector size");
  for (int i = 0; i < n; i++) REQ(g, xr(2 * i) == x(i).real() && xr(2 * i + 1) == x(i).imag(), "complexToReal(vector)");
  Vector<C> back = realToComplex(xr);
  REQ(g, back.rows() == n && (n == 0 || back == x), "realToComplex(complexToReal(x)) != x");
  VC y = M * toC(x);
  Vector<C> yr = realToComplex(Vector<double>(Ar * xr));
  REQ(g, yr.rows() == m && (yr - y).norm() <= 1e-13 * (1 + M.norm() * x.norm()), "the real matrix does not act like the complex one");
  SparseMatrix<C> P = A * B;
  Eigen::MatrixXd lhs = Eigen::MatrixXd(complexToReal(P)), rhs = Eigen::MatrixXd(SD(Ar * Br));
  REQ(g, (lhs - rhs).norm() <= 1e-12 * (1 + M.norm() * N.norm()), "complexToReal is not multiplicative");
  Eigen::MatrixXd adj = Eigen::MatrixXd(complexToReal(SparseMatrix<C>(A.adjoint())));
  REQ(g, (adj - Eigen::MatrixXd(Ar).transpose()).norm() == 0, "complexToReal(A*) != complexToReal(A)^T");
}

template <typename T> static void checksT(G& g, bool cplx) {
  int m = g.range(1, 7), n = g.range(1, 7);
  MC M = genAny<T>(g, m, n, cplx);
  double bad = g.pick(std::vector<double>{std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
  int bi = (int)g.below(m), bj = (int)g.below(n);
  C bc = cplx && g.coin() ? C(1, bad) : C(bad, 0);
  if (m > 1 && n > 1) g.nontrivial();
  g.note(m, "x", n, " bad entry ", bi, ",", bj, " = ", bc);
  SparseMatrix<T> S = store<T>(g, M);
  checkFinite(S);
  Eigen::Matrix<T, -1, -1> D(m, n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) D(i, j) = Tr<T>::make(M(i, j));
  checkFinite(D);
  Vector<T> col = D.col(bj);
  checkFinite(col);
  Eigen::Matrix<T, 1, Eigen::Dynamic> row = D.row(bi);
  checkFinite(row);
  Eigen::Matrix<T, 3, 2> fix = Eigen::Matrix<T, 3, 2>::Zero();
  checkFinite(fix);
  S.coeffRef(bi, bj) = Tr<T>::make(bc);
  D(bi, bj) = Tr<T>::make(bc);
  col(bi) = Tr<T>::make(bc);
  row(bj) = Tr<T>::make(bc);
  fix(bi % 3, bj % 2) = Tr<T>::make(bc);
  REQ_THROWS(g, checkFinite(S), "sparse matrix with a non-finite entry");
  REQ_THROWS(g, checkFinite(D), "dense matrix with a non-finite entry");
  REQ_THROWS(g, checkFinite(col), "vector with a non-finite entry");
  REQ_THROWS(g, checkFinite(row), "row vector with a non-finite entry");
  REQ_THROWS(g, checkFinite(fix), "fixed-size matrix with a non-finite entry");
  // symmetry
  MC Q = genAny<T>(g, n, n, cplx), Sy(n, n), He(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      C c = Q(std::max(i, j), std::min(i, j));
      Sy(i, j) = c;
      He(i, j) = i == j ? C(c.real(), 0) : i > j ? c : std::conj(c);
    }
  SparseMatrix<T> sy = store<T>(g, Sy), he = store<T>(g, He);
  checkSymmetric(sy);
  checkHermitian(he);
  double sc = 0;
  int ne = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      sc = std::max(sc, std::abs(Sy(i, j)));
      ne++;
    }
  if (n >= 2 && sc > 0) {
    int i = (int)g.below(n), j = (int)g.below(n - 1);
    if (j >= i) j++;
    double d = sc * std::pow(10., -g.range(0, Tr<T>::eps > 1e-10 ? 3 : 6));
    SparseMatrix<T> s2 = sy, h2 = he;
    s2.coeffRef(i, j) += T(d);
    h2.coeffRef(i, j) += T(d);
    REQ_THROWS(g, checkSymmetric(s2), "asymmetric by " << d << ", largest entry " << sc);
    REQ_THROWS(g, checkHermitian(h2), "not Hermitian by " << d << ", largest entry " << sc);
    checkSymmetric(s2, 2 * d);
    checkHermitian(h2, 2 * d);
    REQ_THROWS(g, checkSymmetric(s2, d / 2), "explicit tolerance");
    REQ_THROWS(g, checkHermitian(h2, d / 2), "explicit tolerance");
    if (cplx) {
      SparseMatrix<T> h3 = he;
      h3.coeffRef(i, i) += Tr<T>::make(C(0, sc));
      REQ_THROWS(g, checkHermitian(h3), "imaginary diagonal entry");
      SparseMatrix<T> s3 = sy; // symmetric but not Hermitian
      s3.coeffRef(i, j) = Tr<T>::make(C(0, sc));
      s3.coeffRef(j, i) = Tr<T>::make(C(0, sc));
      checkSymmetric(s3);
      REQ_THROWS(g, checkHermitian(s3), "complex symmetric");
    }
  }
}

template <typename T> static bool closeTo(T a, T b) { return std::abs(a - b) <= 1e-15 * std::abs(b); }
static bool closeTo(int a, int b) { return a == b; }
static bool closeTo(float a, float b) { return a == b; }

template <typename T> static void ioT(G& g, bool cplx, bool ints) {
  int m = g.range(0, 7), n = g.range(0, 7);
  MC M = randDense(g, m, n, cplx, .5, ints);
  if (!ints && g.chance(.5)) {
    double k = std::pow(10., g.range(-30, 30));
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++)
        if (g.coin()) M(i, j) *= k;
  }
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) M(i, j) = C(Tr<T>::make(M(i, j)));
  g.note(Tr<T>::name(), " ", m, "x", n, " ", show(M));
  if (m > 1 && n > 1) g.nontrivial();
  SparseMatrix<T> S = store<T>(g, M);
  DenseMatrix<T> D(m, n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) D(i, j) = Tr<T>::make(M(i, j));
  bool file = g.chance(.1);
  std::string fn = "/tmp/vpbt_mat_" + std::to_string(getpid());
  struct Rm {
    std::string f;
    ~Rm() { unlink(f.c_str()); }
  } rm{fn};
  SparseMatrix<T> S2;
  DenseMatrix<T> D2;
  std::stringstream ss, ds;
  saveSparseMatrix(ss, S);
  saveDenseMatrix(ds, D);
  if (file) {
    g.label("file");
    saveSparseMatrix(fn, S);
    S2 = loadSparseMatrix<T>(fn);
    saveDenseMatrix(fn, D);
    D2 = loadDenseMatrix<T>(fn);
    REQ_THROWS(g, loadDenseMatrix<T>(fn + "-absent"), "missing file");
    REQ_THROWS(g, loadSparseMatrix<T>(fn + "-absent"), "missing file");
  } else {
    std::stringstream a(ss.str()), b(ds.str());
    S2 = loadSparseMatrix<T>(a);
    D2 = loadDenseMatrix<T>(b);
  }
  auto same = [&](int r, int c, auto at, const char* what) {
    REQ(g, r == m && c == n, what << ": shape " << r << "x" << c << " instead of " << m << "x" << n);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) REQ(g, closeTo(at(i, j), D(i, j)), what << ": entry " << i << "," << j << " is " << at(i, j) << " instead of " << D(i, j));
  };
  same(S2.rows(), S2.cols(), [&](int i, int j) { return T(S2.coeff(i, j)); }, "sparse round trip");
  same(D2.rows(), D2.cols(), [&](int i, int j) { return D2(i, j); }, "dense round trip");
  // 1-indexed triplets: parse with an independent reader (entries only)
  {
    std::stringstream a(ss.str());
    std::string line;
    std::getline(a, line);
    MC R = MC::Zero(m, n);
    int i, j;
    T v;
    while (a >> i >> j >> v) {
      REQ(g, 1 <= i && i <= m && 1 <= j && j <= n, "index " << i << "," << j << " in the file");
      R(i - 1, j - 1) += C(v);
    }
    REQ(g, (R - M).norm() <= 1e-14 * M.norm(), "the file is not the 1-indexed triplet list");
  }
  // the comment is optional when the last row and column are occupied
  if (m > 0 && n > 0 && D(m - 1, n - 1) != T(0)) {
    std::string t = ss.str();
    std::stringstream a(t.substr(t.find('\n') + 1));
    SparseMatrix<T> S3 = loadSparseMatrix<T>(a);
    same(S3.rows(), S3.cols(), [&](int i, int j) { return T(S3.coeff(i, j)); }, "sparse without header");
  }
}

// damaged files are refused (or read as something), never read out of bounds
static void ioDamaged(G& g) {
  int m = g.range(0, 4), n = g.range(0, 4);
  MC M = randDense(g, m, n, false, .6, true);
  SparseMatrix<double> S = store<double>(g, M);
  DenseMatrix<double> D = M.real();
  bool sparse = g.coin();
  std::stringstream ss;
  if (sparse) saveSparseMatrix(ss, S);
  else
    saveDenseMatrix(ss, D);
  std::string t = ss.str();
  for (int k = 0, e = g.range(1, 3); k < e; k++) {
    int op = g.range(0, 5);
    if (op == 0) { // duplicate or add a line
      t += sparse ? std::to_string(g.range(0, 6)) + " " + std::to_string(g.range(0, 6)) + " 1\n" : "1 2 3\n";
    } else if (op == 1 && t.size()) { // truncate
      t.resize(g.below(t.size() + 1));
    } else if (op == 2 && t.size()) { // change a character
      t[g.below(t.size())] = g.pick(std::vector<char>{'0', '-', ' ', '\n', 'x', '9'});
    } else if (op == 3) { // blank line
      t += "\n";
    } else if (op == 4 && t.size()) { // delete a line
      size_t p = g.below(t.size()), a = t.rfind('\n', p ? p - 1 : 0), b = t.find('\n', p);
      a = a == std::string::npos ? 0 : a + 1;
      b = b == std::string::npos ? t.size() : b + 1;
      if (b > a) t.erase(a, b - a);
    } else if (op == 5) {
      t = std::string(sparse ? "# sparse " : "# dense ") + std::to_string(g.range(0, 5)) + " " + std::to_string(g.range(0, 5)) + t.substr(std::min(t.size(), t.find('\n')));
    }
  }
  // dimensions a damaged header asks for stay moderate
  {
    std::stringstream h(t);
    std::string a, b;
    double r = 0, c = 0;
    h >> a >> b >> r >> c;
    if (std::fabs(r) > 1e4 || std::fabs(c) > 1e4) g.discard();
  }
  g.note(sparse ? "sparse: " : "dense: ", t);
  g.nontrivial();
  std::stringstream in(t);
  try {
    if (sparse) {
      SparseMatrix<double> X = loadSparseMatrix<double>(in);
      double s = 0;
      for (int k = 0; k < X.outerSize(); k++)
        for (SparseMatrix<double>::InnerIterator it(X, k); it; ++it) {
          REQ(g, it.row() >= 0 && it.row() < X.rows() && it.col() >= 0 && it.col() < X.cols(), "entry outside the matrix");
          s += it.value();
        }
      g.label("read");
    } else {
      DenseMatrix<double> X = loadDenseMatrix<double>(in);
      for (int i = 0; i < X.rows(); i++)
        for (int j = 0; j < X.cols(); j++) REQ(g, std::isfinite(X(i, j)) && std::fabs(X(i, j)) < 1e12, "entry " << i << "," << j << " = " << X(i, j) << " which is not in the file");
      g.label("read");
    }
  } catch (const std::exception& e) {
    g.label("refused");
  }
}

static void unpack(G& g) {
  int m = g.range(0, 6), n = g.range(0, 6);
  DenseMatrix<double> D(m, n);
  DenseMatrix<size_t> U(m, n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      D(i, j) = entry(g, false, false).real();
      U(i, j) = g.draw(1u << 30);
    }
  if (m > 1 && n > 1) g.nontrivial();
  std::vector<std::vector<double>> d = unpackMatrixToStdVector<double>(D);
  std::vector<std::vector<size_t>> u = unpackMatrixToStdVector<size_t>(U);
  REQ(g, (int)d.size() == m && (int)u.size() == m, "rows");
  for (int i = 0; i < m; i++) {
    REQ(g, (int)d[i].size() == n && (int)u[i].size() == n, "columns");
    for (int j = 0; j < n; j++) REQ(g, d[i][j] == D(i, j) && u[i][j] == U(i, j), "entry");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C12",
                   "matrices of size 1..45 (dense, sparse with permuted diagonal, triangular, block, Gram, graph/connection Laplacian, exact low rank; rectangular 1..12) scaled by 1e-6..1e6, "
                   "as float, double and complex, stored compressed, uncompressed, with explicit zeros; several right hand sides per factorization; non-trivial: more than 2 rows (1 row and column for least squares)",
                   {{"square<double>", squareT<double>, 1500*3, 30000*2},
                    {"square<complex>", squareT<C>, 1500*3, 30000*2},
                    {"square<float>", squareT<float>, 700*3, 14000*2},
                    {"posdef<double>", posdefT<double>, 1500*3, 30000*2},
                    {"posdef<complex>", posdefT<C>, 1500*3, 30000*2},
                    {"posdef<float>", posdefT<float>, 700*3, 14000*2},
                    {"least-squares<double>", leastSquaresT<double>, 1500*3, 30000*2},
                    {"least-squares<complex>", leastSquaresT<C>, 1500*3, 30000*2},
                    {"least-squares<float>", leastSquaresT<float>, 700*3, 14000*2},
                    {"eigen<double>", eigenT<double>, 1000*3, 20000*2},
                    {"eigen<complex>", eigenT<C>, 1000*3, 20000*2},
                    {"eigen<float>", eigenT<float>, 700*3, 14000*2},
                    {"eigen-tolerance", eigenTolDefault, 700*3, 14000*2}},
                   {"SuiteSparse back end; condition numbers up to 1e8 (1e4 for least squares, gap ratio of at least 3.5 for eigenvectors)"}});
  specs.push_back({"C13",
                   "matrices of shape 0..12 x 0..12 of int, float, double and complex entries, stored compressed, uncompressed and with explicit zeros; damaged matrix files; "
                   "non-trivial: more than one row and column",
                   {{"blocks<double>", [](G& g) { blocksT<double>(g, false); }, 2000*3, 40000*2},
                    {"blocks<complex>", [](G& g) { blocksT<C>(g, true); }, 1500, 30000},
                    {"blocks<int>", [](G& g) { blocksT<int>(g, false); }, 700*3, 14000*2},
                    {"stack<double>", [](G& g) { stackT<double>(g, false); }, 2000*3, 40000*2},
                    {"stack<complex>", [](G& g) { stackT<C>(g, true); }, 1500, 30000},
                    {"complex-real", complexReal, 2000*3, 40000*2},
                    {"checks<double>", [](G& g) { checksT<double>(g, false); }, 2000*3, 40000*2},
                    {"checks<float>", [](G& g) { checksT<float>(g, false); }, 1000*3, 20000*2},
                    {"checks<complex>", [](G& g) { checksT<C>(g, true); }, 2000, 40000},
                    {"io<double>", [](G& g) { ioT<double>(g, false, false); }, 2000*3, 40000*2},
                    {"io<float>", [](G& g) { ioT<float>(g, false, false); }, 1000*3, 20000*2},
                    {"io<complex>", [](G& g) { ioT<C>(g, true, false); }, 2000, 40000},
                    {"io<int>", [](G& g) { ioT<int>(g, false, true); }, 1000*3, 20000*2},
                    {"io-damaged", ioDamaged, 3000*3, 60000*2},
                    {"unpack", unpack, 700*3, 14000*2}},
                   {}});
  return pbt::run(argc, argv, specs);
}
