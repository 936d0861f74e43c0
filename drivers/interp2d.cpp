// Conformance driver for Interp2d and LookupTable2d.
#include "drv.h"
#include "MathUtils/Interp2d.h"
#include "MathUtils/LookupTable2D.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;
static INTERP_METHOD method(const std::string &m) {
  return m == "LINEAR" ? LINEAR : m == "EXTRAPOLATE" ? LINEAR_EXTRAPOLATE : m == "SATURATE" ? LINEAR_SATURATE : BSPLINE;
}
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class R> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) {}
  std::map<long, std::unique_ptr<Interp2d<R>>> in;
  std::map<long, std::unique_ptr<LookupTable2d<R>>> lt;
  std::map<long, std::array<std::shared_ptr<std::vector<R>>, 3>> keep;
  long inits = 0;
  static std::vector<std::vector<R>> pts(Args &a) { long k = a.n(); std::vector<std::vector<R>> v; for (long i = 0; i < k; i++) { R x = a.get<R>(), y = a.get<R>(); v.push_back({x, y}); } return v; }
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    long h = a.n(); e.f("h", h);
    if (op == "make") { std::string m = a.s(); e.f("m", m).f("prec", prec); e.run([&] { in[h].reset(Interp2d<R>::MakeInterp2d(method(m))); }); }
    else if (op == "init") { auto x = a.vec<R>(); auto y = a.vec<R>(); auto d = a.vec<R>(); e.f("xs", x).f("ys", y).f("data", d);
      // every other time the caller's own vectors are refilled and passed again
      auto sp = [](const std::vector<R> &v) { return std::make_shared<std::vector<R>>(v); };
      auto &k = keep[h]; if (k[0] && ++inits % 2) { *k[0] = x; *k[1] = y; *k[2] = d; } else k = {sp(x), sp(y), sp(d)};
      e.run([&] { in.at(h)->Initialize(k[0], k[1], k[2]); }); }
    else if (op == "eval" || op == "call") { R x = a.get<R>(), y = a.get<R>(); e.f("x", x).f("y", y);
      e.run([&] { R r = op == "eval" ? in.at(h)->Eval(x, y) : (*in.at(h))(x, y); e.f("r", r); }); }
    else if (op == "evalv" || op == "callv") { auto p = pts(a); e.f("p", p); e.run([&] { auto r = op == "evalv" ? in.at(h)->Eval(p) : (*in.at(h))(p); e.f("r", r); }); }
    else if (op == "range") { e.run([&] { auto &i = *in.at(h); e.f("r", std::vector<R>{i.GetXmin(), i.GetXmax(), i.GetYmin(), i.GetYmax()}); }); }
    else if (op == "tnew") { e.f("prec", prec); e.run([&] { lt[h].reset(new LookupTable2d<R>()); }); }
    else if (op == "tmethod") { std::string m = a.s(); e.f("m", m); e.run([&] { lt.at(h)->SetInterpolationMethod(method(m)); }); }
    else if (op == "tsetx") { auto x = a.vec<R>(); e.f("v", x); e.run([&] { lt.at(h)->SetX(x); }); }
    else if (op == "tsety") { auto x = a.vec<R>(); e.f("v", x); e.run([&] { lt.at(h)->SetY(x); }); }
    else if (op == "tgetx") { e.run([&] { e.f("r", lt.at(h)->GetX()); }); }
    else if (op == "tgety") { e.run([&] { e.f("r", lt.at(h)->GetY()); }); }
    else if (op == "tadd") { std::string nm = a.s(); auto d = a.vec<R>(); e.f("name", nm).f("data", d); e.run([&] { bool r = lt.at(h)->AddData(nm, d); e.f("r", r); }); }
    else if (op == "tcount") { e.run([&] { e.f("r", lt.at(h)->GetNbSeries()); }); }
    else if (op == "tsamples") { e.run([&] { e.f("r", lt.at(h)->GetNbSample()); }); }
    else if (op == "thas") { std::string nm = a.s(); e.f("name", nm); e.run([&] { e.f("r", lt.at(h)->HasSerie(nm)); }); }
    else if (op == "teval") { std::string nm = a.s(); R x = a.get<R>(), y = a.get<R>(); e.f("name", nm).f("x", x).f("y", y); e.run([&] { e.f("r", lt.at(h)->Eval(nm, x, y)); }); }
    else if (op == "tevalc") { std::string nm = a.s(); R x = a.get<R>(), y = a.get<R>(); e.f("name", nm).f("x", x).f("y", y); e.run([&] { e.f("r", lt.at(h)->Eval(nm, std::vector<R>{x, y})); }); }
    else if (op == "tevalv") { std::string nm = a.s(); auto p = pts(a); e.f("name", nm).f("p", p); e.run([&] { e.f("r", lt.at(h)->Eval(nm, p)); }); }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double>("d"));
  return [w](Args &a) {
    if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); }
    else (*w)->step(a); };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
