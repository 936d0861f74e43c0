// Conformance driver for Interp1d and LookupTable1D (public interface only).
#include "drv.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/LookupTable1D.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;

static INTERP_METHOD method(const std::string &m) {
  return m == "LINEAR" ? LINEAR : m == "EXTRAPOLATE" ? LINEAR_EXTRAPOLATE : m == "SATURATE" ? LINEAR_SATURATE : BSPLINE;
}
// uniform recording: every sample/value is a sequence of real components
static std::string cj(double v) { return "[" + js(v) + "]"; }
static std::string cj(float v) { return "[" + js(v) + "]"; }
template<class T> std::string cj(const std::complex<T> &v) { return js(v); }
template<class T> std::string cjv(const std::vector<T> &v) {
  std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += cj(v[i]); } return o + "]"; }

struct World { virtual ~World() {} virtual void step(Args &a) = 0; };

template<class X, class Y> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) {}
  std::map<long, std::unique_ptr<Interp1d<X, Y>>> in;
  std::map<long, std::unique_ptr<LookupTable1D<X, Y>>> lt;
  std::map<long, std::pair<std::shared_ptr<std::vector<X>>, std::shared_ptr<std::vector<Y>>>> keep;
  long inits = 0;
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    if (op == "make") { long h = a.n(); std::string m = a.s(); e.f("h", h).f("m", m).f("prec", prec);
      e.run([&] { in[h].reset(Interp1d<X, Y>::MakeInterp1d(method(m))); }); }
    else if (op == "init") { long h = a.n(); auto x = a.vec<X>(); auto y = a.vec<Y>(); e.f("h", h).f("xs", x).raw("ys", cjv(y));
      // every other time the caller's own vectors are refilled and passed again
      auto &k = keep[h]; if (k.first && ++inits % 2) { *k.first = x; *k.second = y; } else k = {std::make_shared<std::vector<X>>(x), std::make_shared<std::vector<Y>>(y)};
      e.run([&] { in.at(h)->Initialize(k.first, k.second); }); }
    else if (op == "eval" || op == "call") { long h = a.n(); X x = a.get<X>(); e.f("h", h).f("x", x);
      e.run([&] { Y r = op == "eval" ? in.at(h)->Eval(x) : (*in.at(h))(x); e.raw("r", cj(r)); }); }
    else if (op == "evalv" || op == "callv") { long h = a.n(); auto x = a.vec<X>(); e.f("h", h).f("x", x);
      e.run([&] { auto r = op == "evalv" ? in.at(h)->Eval(x) : (*in.at(h))(x); e.raw("r", cjv(r)); }); }
    else if (op == "range") { long h = a.n(); e.f("h", h); e.run([&] { e.f("lo", in.at(h)->GetXmin()).f("hi", in.at(h)->GetXmax()); }); }
    // ---- lookup tables
    else if (op == "tnew") { long h = a.n(); std::string m = a.s(); e.f("h", h).f("m", m).f("prec", prec);
      e.run([&] { lt[h].reset(new LookupTable1D<X, Y>(method(m))); }); }
    else if (op == "tsetx") { long h = a.n(); auto x = a.vec<X>(); e.f("h", h).f("xs", x); e.run([&] { lt.at(h)->SetX(x); }); }
    else if (op == "tgetx") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", lt.at(h)->GetX()); }); }
    else if (op == "tadd") { long h = a.n(); std::string nm = a.s(); auto y = a.vec<Y>(); e.f("h", h).f("name", nm).raw("ys", cjv(y));
      e.run([&] { bool r = lt.at(h)->AddY(nm, y); e.f("r", r); }); }
    else if (op == "tcount") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", lt.at(h)->GetNbSeries()); }); }
    else if (op == "tsamples") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", lt.at(h)->GetNbSample()); }); }
    else if (op == "trange") { long h = a.n(); std::string nm = a.s(); e.f("h", h).f("name", nm);
      e.run([&] { auto lo = lt.at(h)->GetXmin(nm); auto hi = lt.at(h)->GetXmax(nm); e.f("lo", lo).f("hi", hi); }); }
    else if (op == "teval") { long h = a.n(); std::string nm = a.s(); X x = a.get<X>(); e.f("h", h).f("name", nm).f("x", x);
      e.run([&] { e.raw("r", cj(lt.at(h)->Eval(nm, x))); }); }
    else if (op == "tevalv") { long h = a.n(); std::string nm = a.s(); auto x = a.vec<X>(); e.f("h", h).f("name", nm).f("x", x);
      e.run([&] { e.raw("r", cjv(lt.at(h)->Eval(nm, x))); }); }
    else if (op == "tall") { long h = a.n(); X x = a.get<X>(); e.f("h", h).f("x", x);
      e.run([&] { auto m = lt.at(h)->template Eval<X, Y>(x); std::string o = "["; bool first = true;
        for (auto &p : m) { if (!first) o += ","; first = false; o += "[" + js(p.first) + "," + cj(p.second) + "]"; } e.raw("r", o + "]"); }); }
    else if (op == "tallv") { long h = a.n(); auto x = a.vec<X>(); e.f("h", h).f("x", x);
      e.run([&] { auto m = lt.at(h)->template Eval<std::vector<X>, std::vector<Y>>(x); std::string o = "["; bool first = true;
        for (auto &p : m) { if (!first) o += ","; first = false; o += "[" + js(p.first) + "," + cjv(p.second) + "]"; } e.raw("r", o + "]"); }); }
    else if (op == "tmovec") { long h = a.n(), g = a.n(); e.f("h", h).f("from", g);
      e.run([&] { std::unique_ptr<LookupTable1D<X, Y>> t(new LookupTable1D<X, Y>(std::move(*lt.at(g)))); lt.erase(g); lt[h] = std::move(t); }); }
    else if (op == "tmovea") { long h = a.n(), g = a.n(); e.f("h", h).f("from", g);
      e.run([&] { *lt.at(h) = std::move(*lt.at(g)); if (h != g) lt.erase(g); }); }
    else if (op == "tdel") { long h = a.n(); e.f("h", h); e.run([&] { lt.erase(h); }); }
    else _exit(98);
  }
};

static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double, double>("d"));
  return [w](Args &a) {
    if (a.t[0] == "types") { std::string t = a.s();
      if (t == "dd") w->reset(new W<double, double>("d"));
      else if (t == "dc") w->reset(new W<double, std::complex<double>>("d"));
      else if (t == "ff") w->reset(new W<float, float>("f"));
      else _exit(98);
    } else (*w)->step(a); };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
