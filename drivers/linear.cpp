// Conformance driver for the matrix classes (public interface only).
// Built once per family of operations (FAM 18: decompositions, 19: solvers, 27: predicates and manipulation) and
// class (KIND 0: MatrixMN, 3: Matrix33, 6: Matrix66; SCALAR double or float), because Eigen is slow to compile.
#ifndef FAM
#define FAM 27
#define KIND 0
#define SCALAR double
#endif
#include "drv.h"
#include "MathUtils/MathUtils.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;
template<class D> std::string jm(const Eigen::MatrixBase<D> &m) {
  std::string o = "["; for (int i = 0; i < m.rows(); i++) { o += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) o += (j ? "," : "") + js(m(i, j)); o += "]"; } return o + "]"; }
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class T, class M, int N> struct W : World {      // N: fixed size, or 0 for any size
  const char *prec;
  explicit W(const char *p) : prec(p) { if constexpr (N != 0) for (auto &x : m) x.setZero(); }
  M m[4];
  using MN = MatrixMN<T>;
  template<class X> X rdm(Args &a) { int r = a.n(), c = a.n(); X x; if constexpr (X::RowsAtCompileTime == Eigen::Dynamic) x = X(MN(r, c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x(i, j) = a.get<T>(); return x; }
  // right-hand sides of the fixed-size classes are plain Eigen matrices
  using Rhs = typename std::conditional<N == 0, MN, Eigen::Matrix<T, N == 0 ? 1 : N, Eigen::Dynamic>>::type;
  Rhs rhs(Args &a) { int r = a.n(), c = a.n(); Rhs x(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x(i, j) = a.get<T>(); return x; }
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    long h = a.n();
    e.f("h", h).f("prec", prec);
    M &A = m[h];
    const M &cA = m[h];
    if (op == "mset") { A = rdm<M>(a); e.raw("A", jm(A)); e.run([&] {}); }
    else if (op == "mtr") { std::string how = a.s(); long g = a.n(); e.f("how", how).f("g", g);
      e.run([&] { if (how == "in") { A.Transpose(); e.raw("X", jm(A)); } else { M X = Transpose(cA); e.raw("X", jm(X)).raw("src", jm(A)); m[g] = X; } }); }
    else if (op == "msym") { bool up = a.n(); long g = a.n(); e.f("up", up).f("g", g); e.run([&] { M X = up ? MakeSymmetricFromUpper(cA) : MakeSymmetricFromLower(cA); e.raw("X", jm(X)).raw("src", jm(A)); m[g] = X; }); }
#if FAM == 27
    else if (op == "mexpr") { std::string how = a.s(), form = a.s(); long g = a.n(); T c = a.get<T>(); bool asg = how == "assign"; e.f("form", form).f("g", g).f("c", c); M &Y = m[g];
      e.run([&] {
        if (form == "scale") { if (asg) Y = c * cA; else { M t(c * cA); Y = t; } }
        else if (form == "sum") { if (asg) Y = cA + c * cA.transpose(); else { M t(cA + c * cA.transpose()); Y = t; } }
        else if (form == "prod") { if (asg) Y = c * cA * cA; else { M t(c * cA * cA); Y = t; } }
        else { if (asg) Y = cA.transpose(); else { M t(cA.transpose()); Y = t; } }
        e.raw("X", jm(Y)).raw("src", jm(A)); }); }
#endif
    else if (op == "mid") e.run([&] { A.SetIdentity(); e.raw("X", jm(A)); });
    else if (op == "mrand") e.run([&] { A.Randomize(); e.raw("X", jm(A)); });
    else if (op == "mnull") e.run([&] { A.SetNull(); e.raw("X", jm(A)); });
    else if (op == "mput") { int i = a.n(), j = a.n(); T x = a.get<T>(); e.f("i", i).f("j", j).f("x", x); e.run([&] { A.at(i - 1, j - 1) = x; e.raw("X", jm(A)); }); }
#if FAM != 18
    else if (op == "minv") { std::string how = a.s(); long g = a.n(); e.f("how", how).f("g", g);
      e.run([&] { if (how == "in") { A.Inverse(); e.raw("X", jm(A)); } else { M X = cA.GetInverse(); e.raw("X", jm(X)).raw("src", jm(A)); m[g] = X; } }); }
#endif
#if FAM == 18
    else if (op == "mqr") { bool full = a.n(); if (N != 0) full = false; e.f("full", full);
      e.run([&] { M Q, R; if constexpr (N == 0) { if (full) cA.GetFullQRDecomposition(Q, R); else cA.GetQRDecomposition(Q, R); } else cA.GetQRDecomposition(Q, R);
        e.raw("Q", jm(Q)).raw("R", jm(R)).raw("src", jm(A)); }); }
    else if (op == "mlu") e.run([&] { M P, L, U; cA.GetLUDecomposition(P, L, U); e.raw("P", jm(P)).raw("L", jm(L)).raw("U", jm(U)).raw("src", jm(A)); });
    else if (op == "mchol") e.run([&] { M L; cA.GetCholeskyDecomposition(L); e.raw("L", jm(L)).raw("src", jm(A)); });
    else if (op == "mcup") { std::string how = a.s(); T s = a.get<T>(); MN v = rdm<MN>(a); e.f("how", how).f("s", s).raw("v", jm(v));
      if constexpr (N == 0) e.run([&] { MN L; if (how == "in") { A.InPlaceCholeskyUpdate(v, s); L = A; } else cA.GetCholeskyUpdate(L, v, s); e.raw("L", jm(L)).raw("src", jm(A)); });
      else _exit(98); }
    else if (op == "msvd") e.run([&] { M U, V; typename std::conditional<N == 0, MN, Eigen::Matrix<T, N == 0 ? 1 : N, 1>>::type S; cA.GetSVDDecomposition(U, S, V);
        e.raw("U", jm(U)).raw("S", jm(S)).raw("V", jm(V)).raw("src", jm(A)); });
#elif FAM == 19
    else if (op == "mpinv") { std::string how = a.s(); long g = a.n(); T t = a.get<T>(); bool def = t == 0; e.f("how", how).f("g", g).f("t", def ? T(1e-6) : t);
      e.run([&] { M X = how == "free" ? (def ? Pinv(cA) : Pinv(cA, t)) : (def ? cA.GetPseudoInverse() : cA.GetPseudoInverse(t)); e.raw("X", jm(X)).raw("src", jm(A)); m[g] = X; }); }
    else if (op == "msolve") { std::string k = a.s(); Rhs B = rhs(a); e.f("kind", k).raw("B", jm(B));
      e.run([&] { Rhs X = k == "lu" ? cA.LUSolver(B) : cA.QRSolver(B); e.raw("X", jm(X)).raw("src", jm(A)); }); }
    else if (op == "mls") { Rhs B = rhs(a); e.raw("B", jm(B)); e.run([&] { Rhs X = cA.LeastSquareSolver(B); e.raw("X", jm(X)).raw("src", jm(A)); }); }
    else if (op == "mlsc") { MN b = rdm<MN>(a), C = rdm<MN>(a), d = rdm<MN>(a); e.raw("b", jm(b)).raw("C", jm(C)).raw("d", jm(d));
      if constexpr (N == 0) e.run([&] { MN X = cA.LeastSquareSolverConstraint(b, C, d); e.raw("X", jm(X)).raw("src", jm(A)); }); else _exit(98); }
    else if (op == "meig") { if constexpr (std::is_same<T, double>::value) e.run([&] { auto v = cA.Eigenvalues(); std::string o = "["; for (int i = 0; i < v.rows(); i++) o += (i ? "," : "") + js(v(i, 0)); e.raw("ev", o + "]").raw("src", jm(A)); }); else _exit(98); }
#else
    else if (op == "mpart") { std::string w = a.s(); int i = a.n(); e.f("what", w).f("i", i);
      e.run([&] {
        if (w == "col") e.raw("X", jm(cA.GetColumn(i - 1))); else if (w == "row") e.raw("X", jm(cA.GetRow(i - 1))); else if (w == "diag") e.raw("X", jm(cA.GetDiag()));
        else if (w == "dims") e.raw("X", "[[" + js((double) cA.GetNbRows()) + "," + js((double) cA.GetNbCols()) + "]]");
        else { MN X(A.rows(), A.cols()); for (int r = 0; r < A.rows(); r++) for (int c = 0; c < A.cols(); c++) X(r, c) = cA.at(r, c); e.raw("X", jm(X)); } }); }
    else if (op == "meq") { long g = a.n(); T eps = a.get<T>(); bool def = eps == 0; e.f("with", g).f("eps", def ? T(1e-12) : eps); e.run([&] { e.f("r", def ? cA.IsEqual(m[g]) : cA.IsEqual(m[g], eps)); }); }
    else if (op == "mpred") { std::string n = a.s(); T eps = a.get<T>(); bool def = eps == 0; T d = n == "psd" ? T(1e-7) : Eigen::NumTraits<T>::dummy_precision();
      if (N != 0 && n == "identity") def = true;
      e.f("name", n).f("eps", def ? d : eps);
      e.run([&] { bool r;
        if (n == "symmetric") r = cA.IsSymmetric(); else if (n == "square") r = cA.IsSquare(); else if (n == "orthogonal") r = cA.IsOrthogonal();
        else if (n == "psd") r = def ? cA.IsPositiveSemiDefinite() : cA.IsPositiveSemiDefinite(eps);
        else { if constexpr (N == 0) r = def ? cA.IsIdentity() : cA.IsIdentity(eps); else r = cA.IsIdentity(); }
        e.f("r", r); }); }
#endif
    else _exit(98);
  }
};
#if KIND == 0
using K = W<SCALAR, MatrixMN<SCALAR>, 0>;
#elif KIND == 3
using K = W<SCALAR, Matrix33<SCALAR>, 3>;
#else
using K = W<SCALAR, Matrix66<SCALAR>, 6>;
#endif
static Step fresh() { auto w = std::make_shared<K>(sizeof(SCALAR) == 4 ? "f" : "d"); return [w](Args &a) { w->step(a); }; }
}  // namespace vdrv
DRV_MAIN(vdrv::fresh)
