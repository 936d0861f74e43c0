// Conformance driver for vector generation, std::vector arithmetic, sample functions and scalar helpers.
// Functions.h comes first, as for a user who includes it on its own.
#include <cassert>
#include <cmath>
#include <vector>
#include "MathUtils/Functions.h"
#include "drv.h"
#include "MathUtils/MathUtils.h"
namespace vdrv {
using namespace drv;
namespace mu = mathutils;
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class T> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) {}
  using V = std::vector<T>;
  V m[4];
  std::string all() { return "[" + js(m[1]) + "," + js(m[2]) + "," + js(m[3]) + "]"; }
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    e.f("prec", prec);
    if (op == "sset") { long h = a.n(); V v = a.vec<T>(); e.f("h", h).f("v", v); m[h] = v; e.run([&] { e.raw("all", all()); }); }
    else if (op == "sbin") { std::string f = a.s(); long h = a.n(), g = a.n(), o = a.n(); e.f("f", f).f("h", h).f("g", g).f("o", o); const V &x = m[h], &y = m[g];
      e.run([&] { V r = f == "Add" ? mu::Add(x, y) : f == "Minus" ? mu::Minus(x, y) : f == "Mult" ? mu::Mult(x, y) : mu::Divide(x, y); m[o] = r; e.raw("all", all()); }); }
    else if (op == "sadds") { long h = a.n(); T c = a.get<T>(); long o = a.n(); e.f("h", h).f("c", c).f("o", o); const V &x = m[h]; e.run([&] { V r = mu::AddScalar(x, c); m[o] = r; e.raw("all", all()); }); }
    else if (op == "ssum") { long h = a.n(); e.f("h", h); const V &x = m[h]; e.run([&] { e.f("r", mu::Sum(x)); }); }
    else if (op == "sinp") { std::string f = a.s(); long h = a.n(); T c = a.get<T>(); e.f("f", f).f("h", h).f("c", c);
      e.run([&] { if (f == "Scale") mu::Scale(m[h], c); else if (f == "Pow") mu::Pow(m[h], c); else mu::Negate(m[h]); e.raw("all", all()); }); }
    else if (op == "lin") { T x = a.get<T>(), y = a.get<T>(); int n = a.n(); e.f("a", x).f("b", y).f("n", n); e.run([&] { e.f("r", mu::linspace<T>(x, y, n)); }); }
    else if (op == "log") { T x = a.get<T>(), y = a.get<T>(); int n = a.n(); T b = a.get<T>(); bool def = b == 0; e.f("a", x).f("b", y).f("n", n).f("base", def ? T(10) : b); e.run([&] { e.f("r", def ? mu::logspace<T>(x, y, n) : mu::logspace<T>(x, y, n, b)); }); }
    else if (op == "arange") { T x = a.get<T>(), y = a.get<T>(), s = a.get<T>(); bool def = a.n(); e.f("a", x).f("b", y).f("s", def ? T(1) : s); e.run([&] { e.f("r", def ? mu::arange<T>(x, y) : mu::arange<T>(x, y, s)); }); }
    else if (op == "sinc") { long h = a.n(), o = a.n(); e.f("h", h).f("o", o); const V &x = m[h]; e.run([&] { V r = mu::Sinc(x); m[o] = r; e.raw("all", all()); }); }
    else if (op == "sincr") { T x = a.get<T>(), y = a.get<T>(); int n = a.n(); e.f("a", x).f("b", y).f("n", n); e.run([&] { e.f("r", mu::Sinc<T>(x, y, n)); }); }
    else if (op == "heaviside") { long h = a.n(); T s = a.get<T>(); long o = a.n(); e.f("h", h).f("s", s).f("o", o); const V &x = m[h]; e.run([&] { V r = mu::Heaviside(x, s); m[o] = r; e.raw("all", all()); }); }
    else if (op == "door") { long h = a.n(); T p = a.get<T>(), q = a.get<T>(), k = a.get<T>(); bool def = a.n(); long o = a.n(); e.f("h", h).f("a", p).f("b", q).f("height", def ? T(1) : k).f("o", o); const V &x = m[h];
      e.run([&] { V r = def ? mu::Door<T>(x, p, q) : mu::Door<T>(x, p, q, k); m[o] = r; e.raw("all", all()); }); }
    else if (op == "dirac") { long h = a.n(); T p = a.get<T>(), k = a.get<T>(); bool def = a.n(); long o = a.n(); e.f("h", h).f("s", p).f("height", def ? T(1) : k).f("o", o); const V &x = m[h];
      e.run([&] { V r = def ? mu::Dirac<T>(x, p) : mu::Dirac<T>(x, p, k); m[o] = r; e.raw("all", all()); }); }
    else if (op == "ramp") { long h = a.n(); T p = a.get<T>(), q = a.get<T>(), u = a.get<T>(), v = a.get<T>(); long o = a.n(); e.f("h", h).f("a", p).f("b", q).f("yl", u).f("yr", v).f("o", o); const V &x = m[h];
      e.run([&] { V r = mu::Ramp<T>(x, p, q, u, v); m[o] = r; e.raw("all", all()); }); }
    else if (op == "cplx") { std::string f = a.s(); auto z = a.vec<std::complex<T>>(); e.f("f", f).f("z", z); const auto &cz = z;
      e.run([&] { V r = f == "Real" ? mu::Real(cz) : f == "Imag" ? mu::Imag(cz) : f == "Amplitude" ? mu::Amplitude(cz) : f == "PhaseDEG" ? mu::Phase(cz, mu::DEG) : f == "PhaseRAD" ? mu::Phase(cz) : V(); e.f("r", r); }); }
    else if (op == "sgnd") { T x = a.get<T>(); e.f("x", x); e.run([&] { e.f("r", mu::sgn(x)); }); }
    else if (op == "satd") { T x = a.get<T>(), p = a.get<T>(), q = a.get<T>(); e.f("x", x).f("a", p).f("b", q); e.run([&] { e.f("r", mu::Saturate(x, p, q)); }); }
    else if (op == "sgn") { std::string t = a.s(); long x = a.n(); e.f("x", std::to_string(x)); e.run([&] { e.f("r", t == "int" ? mu::sgn((int) x) : t == "uint" ? mu::sgn((unsigned) x) : mu::sgn(x)); }); }
    else if (op == "sat") { std::string t = a.s(); long x = a.n(), p = a.n(), q = a.n(); e.f("x", std::to_string(x)).f("a", std::to_string(p)).f("b", std::to_string(q));
      e.run([&] { e.f("r", std::to_string(t == "int" ? (long) mu::Saturate((int) x, (int) p, (int) q) : t == "uint" ? (long) mu::Saturate((unsigned) x, (unsigned) p, (unsigned) q) : mu::Saturate(x, p, q))); }); }
    else if (op == "sgnsqrt") { T x = a.get<T>(); e.f("x", x); e.run([&] { e.f("r", mu::SgnSqrt(x)); }); }
    else if (op == "close" || op == "aclose") { T x = a.get<T>(), y = a.get<T>(), rt = a.get<T>(), at = a.get<T>(); bool def = a.n(); e.f("a", x).f("b", y).f("rtol", def ? T(1e-5) : rt).f("atol", def ? T(1e-8) : at);
      if (op == "close") e.run([&] { e.f("r", def ? mu::IsClose<T>(x, y) : mu::IsClose<T>(x, y, rt, at)); });
      else e.run([&] { if (def) mu::AssertIsClose<T>(x, y); else mu::AssertIsClose<T>(x, y, rt, at); }); }
    else if (op == "closev" || op == "aclosev") { V x = a.vec<T>(), y = a.vec<T>(); T rt = a.get<T>(), at = a.get<T>(); bool def = a.n(); e.f("a", x).f("b", y).f("rtol", def ? T(1e-5) : rt).f("atol", def ? T(1e-8) : at);
      if (op == "closev") e.run([&] { e.f("r", def ? mu::IsClose<T>(x, y) : mu::IsClose<T>(x, y, rt, at)); });
      else e.run([&] { if (def) mu::AssertIsClose<T>(x, y); else mu::AssertIsClose<T>(x, y, rt, at); }); }
    else if (op == "parity") { std::string t = a.s(); long x = a.n(); e.f("n", x);
      e.run([&] { if (t == "int") e.f("odd", mu::is_odd((int) x)).f("even", mu::is_even((int) x)); else if (t == "uint") e.f("odd", mu::is_odd((unsigned) x)).f("even", mu::is_even((unsigned) x)); else e.f("odd", mu::is_odd(x)).f("even", mu::is_even(x)); }); }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double>("d"));
  return [w](Args &a) { if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); else w->reset(new W<double>("d")); } else (*w)->step(a); };
}
}  // namespace vdrv
DRV_MAIN(vdrv::fresh)
