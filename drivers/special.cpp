// Conformance driver for the special functions of BoostFunctions.h.
#include "drv.h"
#include "MathUtils/MathUtilsBoost.h"
namespace vdrv {
using namespace drv;
namespace mu = mathutils;
template<class O, class X, class R> R bessel(const std::string &f, bool d, O o, X x) {
  if (f == "J") return d ? mu::Cyl_Bessel_first_kind_derivative<O, X, R>(o, x) : mu::Cyl_Bessel_first_kind<O, X, R>(o, x);
  if (f == "Y") return d ? mu::Cyl_Bessel_second_kind_derivative<O, X, R>(o, x) : mu::Cyl_Bessel_second_kind<O, X, R>(o, x);
  if (f == "I") return d ? mu::Cyl_modified_Bessel_first_kind_derivative<O, X, R>(o, x) : mu::Cyl_modified_Bessel_first_kind<O, X, R>(o, x);
  return d ? mu::Cyl_modified_Bessel_second_kind_derivative<O, X, R>(o, x) : mu::Cyl_modified_Bessel_second_kind<O, X, R>(o, x);
}
template<class O, class X> std::complex<double> hankel(bool d, O o, X x) { return d ? mu::Cyl_Hankel_first_kind_derivative<O, X>(o, x) : mu::Cyl_Hankel_first_kind<O, X>(o, x); }
template<class T> T eint(const std::string &f, T x);
template<> double eint(const std::string &f, double x) {
  return f == "Ei" ? mu::Ei(x) : f == "Ei_approximation" ? mu::Ei_approximation(x) : f == "expEi" ? mu::expEi(x) : f == "E1" ? mu::E1(x) : mu::E1_approximation(x); }
template<> float eint(const std::string &f, float x) { return f == "Ei" ? mu::Ei(x) : f == "expEi" ? mu::expEi(x) : mu::E1(x); }
template<class T> T struve(const std::string &f, T x) { return f == "H0" ? mu::Struve_zero_order(x) : f == "H1" ? mu::Struve_first_order(x) : mu::Struve_zero_order_derivative(x); }
template<class T> T cheb(const std::string &f, int n, T x) { return f == "T" ? mu::Chebyshev_polynomial<int, T>(n, x) : f == "Tshift" ? mu::Chebyshev_polynomial_shifted<int, T>(n, x) : mu::Chebyshev_polynomial_derivative<int, T>(n, x); }
template<class T> T leg(bool d, int n, T x) { return d ? mu::Legendre_polynomial_derivative<int, T>(n, x) : mu::Legendre_polynomial<int, T>(n, x); }
struct World {
  double x[3], t[3], s[3];
  // types: d double, f float, i integer argument (result double), n order given as a double
  void step(Args &a) {
    const std::string op = a.t[0];
    Ev e(op);
    std::string ty = op == "recnext" ? "d" : a.s();
    const bool fl = ty == "f";
    e.f("prec", fl ? "f" : "d");
    if (op == "bes") {
      std::string f = a.s(); bool d = a.n(); long o = a.n(); double v = a.d(); if (fl) v = (float) v;
      e.f("f", f).f("d", d).f("o", o).f("x", v);
      e.run([&] {
        if (fl) { float r = o % 2 ? bessel<double, float, float>(f, d, o / 2., (float) v) : bessel<int, float, float>(f, d, (int) (o / 2), (float) v); e.f("r", r); }
        else { double r = ty == "i" ? bessel<int, int, double>(f, d, (int) (o / 2), (int) v) : ty == "n" || o % 2 ? bessel<double, double, double>(f, d, o / 2., v) : ty == "u" ? bessel<unsigned, double, double>(f, d, (unsigned) (o / 2), v) : bessel<int, double, double>(f, d, (int) (o / 2), v); e.f("r", r); }
      });
    } else if (op == "hank") {
      bool d = a.n(); long o = a.n(); double v = a.d(); if (fl) v = (float) v;
      e.f("d", d).f("o", o).f("x", v);
      e.run([&] { e.f("r", fl ? hankel<int, float>(d, (int) (o / 2), (float) v) : ty == "i" ? hankel<int, int>(d, (int) (o / 2), (int) v) : ty == "n" || o % 2 ? hankel<double, double>(d, o / 2., v) : hankel<int, double>(d, (int) (o / 2), v)); });
    } else if (op == "eint" || op == "struve") {
      std::string f = a.s(); double v = a.d(); if (fl) v = (float) v;
      e.f("f", f).f("x", v);
      if (op == "eint") e.run([&] { if (fl) e.f("r", eint<float>(f, (float) v)); else e.f("r", eint<double>(f, v)); });
      else e.run([&] { if (fl) e.f("r", struve<float>(f, (float) v)); else e.f("r", struve<double>(f, v)); });
    } else if (op == "gam") { double v = a.d(); if (fl) v = (float) v; e.f("x", v); e.run([&] { if (fl) e.f("r", mu::Gamma<float>((float) v)); else e.f("r", mu::Gamma<double>(v)); }); }
    else if (op == "fact") { int n = a.n(); e.f("n", n); e.run([&] { if (fl) e.f("r", mu::Factorial<unsigned, float>(n)); else e.f("r", mu::Factorial<int, double>(n)); }); }
    else if (op == "leg") { bool d = a.n(); int n = a.n(); double v = a.d(); if (fl) v = (float) v; e.f("d", d).f("n", n).f("x", v); e.run([&] { if (fl) e.f("r", leg<float>(d, n, (float) v)); else e.f("r", leg<double>(d, n, v)); }); }
    else if (op == "cheb") { std::string f = a.s(); int n = a.n(); double v = a.d(); if (fl) v = (float) v; e.f("f", f).f("n", n).f("x", v); e.run([&] { if (fl) e.f("r", cheb<float>(f, n, (float) v)); else e.f("r", cheb<double>(f, n, v)); }); }
    else if (op == "recnew") { long h = a.n(); double v = a.d(); e.f("h", h).f("x", v); e.run([&] { x[h] = v; t[h] = v; s[h] = 1; }); }
    else if (op == "recnext") { long h = a.n(); e.f("h", h); e.run([&] { double r = mu::Chebyshev_polynomial_next<double>(x[h], t[h], s[h]); s[h] = t[h]; t[h] = r; e.f("r", r); }); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(98); }
  }
};
Step fresh() { auto w = std::make_shared<World>(); return [w](Args &a) { w->step(a); }; }
}
DRV_MAIN(vdrv::fresh)
