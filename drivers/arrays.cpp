// Conformance driver for VectorN, Vector3d and Vector6d.
#include "drv.h"
#include "MathUtils/MathUtils.h"
namespace vdrv {
using namespace drv;
namespace mu = mathutils;
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class V> std::string jsv(const V &v) { std::string o = "["; for (long i = 0; i < (long) v.size(); i++) { if (i) o += ","; o += js(v[i]); } return o + "]"; }
template<class M> std::string jsm(const M &m) { std::string o = "["; for (long i = 0; i < (long) m.rows(); i++) { if (i) o += ","; o += "["; for (long j = 0; j < (long) m.cols(); j++) { if (j) o += ","; o += js(m(i, j)); } o += "]"; } return o + "]"; }
template<class T, class V, int K> struct W : World {
  const char *prec;
  V m[3];
  explicit W(const char *p) : prec(p) {}
  std::string all() { return "[" + (used[1] ? jsv(m[1]) : "[]") + "," + (used[2] ? jsv(m[2]) : "[]") + "]"; }
  bool used[3] = {false, false, false};
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    e.f("prec", prec);
    long h = a.n();
    e.f("h", h);
    V &x = m[h];
    const V &cx = m[h];
    if (op == "vset") { std::vector<T> v = a.vec<T>(); std::string how = a.s(); e.f("v", v); used[h] = true;
      e.run([&] {
        if constexpr (K == 3) { if (how == "ctor") x = V(v[0], v[1], v[2]); else x.Set(v[0], v[1], v[2]); }
        else if constexpr (K == 6) { if (how == "ctor") x = V(v[0], v[1], v[2], v[3], v[4], v[5]); else x.Set(v[0], v[1], v[2], v[3], v[4], v[5]); }
        else { x = V((unsigned) v.size()); for (unsigned i = 0; i < v.size(); i++) x.at(i) = v[i]; }
        e.raw("all", all()); });
    }
    else if (op == "vnew") { used[h] = true; e.f("n", K); e.run([&] { if constexpr (K != 0) { memset((void *) &x, 0x55, sizeof x); new (&x) V(); e.raw("all", all()); } }); }
    else if (op == "vput") { long i = a.n(); T y = a.get<T>(); e.f("i", i).f("x", y); e.run([&] { x.at(i - 1) = y; e.raw("all", all()); }); }
    else if (op == "vnull") e.run([&] { x.SetNull(); e.raw("all", all()); });
    else if (op == "vrand") e.run([&] { if constexpr (K == 0) { x.Randomize(); e.raw("all", all()); } });
    else if (op == "vcopy") { long g = a.n(); e.f("g", g); used[g] = true; e.run([&] { m[g] = cx; e.raw("all", all()); }); }
    else if (op == "vexpr") { long g = a.n(); std::string how = a.s(), form = a.s(); T c = a.get<T>(); bool asg = how == "assign"; e.f("g", g).f("form", form).f("c", c); used[g] = true; V &y = m[g];
      e.run([&] {
        if (form == "scale") { if (asg) y = c * cx; else { V t(c * cx); y = t; } }
        else if (form == "sum") { if (asg) y = cx + c * y; else { V t(cx + c * y); y = t; } }
        else if (form == "mulv") { Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> P = cx * cx.transpose(); if (asg) y = P * y; else { V t(P * y); y = t; } }
        else { if (asg) y = cx.reverse(); else { V t(cx.reverse()); y = t; } }
        e.raw("all", all()); }); }
    else if (op == "vat") e.run([&] { std::vector<T> r; for (unsigned i = 0; i < cx.size(); i++) r.push_back(cx.at(i)); e.f("r", r).raw("all", all()); });
    else if (op == "veq") { long g = a.n(); T eps = a.get<T>(); bool def = eps == 0; e.f("g", g).f("eps", def ? T(1e-12) : eps); e.run([&] { bool r = def ? x.IsEqual(m[g]) : x.IsEqual(m[g], eps); e.f("r", r).raw("all", all()); }); }
    else if (op == "vinf") e.run([&] { e.f("r", (T) cx.infNorm()).raw("all", all()); });
    else if (op == "vouter" || op == "vinner") { long g = a.n(); e.f("g", g);
      e.run([&] {
        if constexpr (K != 0) {
          if (op == "vouter") { if (h == g) e.raw("A", jsm(mu::outer(cx))); else e.raw("A", jsm(mu::outer(cx, m[g]))); }
          else e.f("r", (double) mu::inner(cx, m[g]));
          e.raw("all", all()); } });
    }
    else if (op == "vones") e.run([&] { if constexpr (K == 0) { x.SetOnes(); e.raw("all", all()); } });
    else if (op == "vsort") { bool up = a.n(); bool def = a.n(); e.f("up", up); e.run([&] { if constexpr (K == 0) { if (def && up) x.Sort(); else x.Sort(up); e.raw("all", all()); } }); }
    else if (op == "vrev") e.run([&] { if constexpr (K == 0) { x.Reverse(); e.raw("all", all()); } });
    else if (op == "vsq" || op == "vdiag" || op == "vtr") { bool mem = a.n(); e.run([&] { if constexpr (K == 0) {
        e.raw("A", op == "vsq" ? jsm(mem ? cx.GetMatrixSquare() : mu::GetMatrixSquare(cx)) : op == "vdiag" ? jsm(mem ? cx.GetDiagonalMatrix() : mu::GetDiagonalMatrix(cx)) : jsm(mu::Transpose(cx)));
        e.raw("all", all()); } }); }
    else if (op == "vnorm") e.run([&] { if constexpr (K == 3) { x.Normalize(); e.raw("all", all()); } });
    else if (op == "vunit") e.run([&] { if constexpr (K == 3) { bool r = cx.IsUnit(); e.f("r", r).raw("all", all()); } });
    else if (op == "vproj") { std::string ax = a.s(); bool deg = a.n(); e.f("axis", ax).f("deg", deg); auto u = deg ? mu::DEG : mu::RAD;
      e.run([&] { if constexpr (K == 3) { double r = ax == "X" ? cx.GetProjectedAngleAroundX(u) : ax == "Y" ? cx.GetProjectedAngleAroundY(u) : cx.GetProjectedAngleAroundZ(u); e.f("r", r).raw("all", all()); } }); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(98); }
  }
};
Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double, mu::VectorN<double>, 0>("d"));
  return [w](Args &a) {
    if (a.t[0] == "types") { std::string k = a.s(); bool f = a.s() == "f";
      if (k == "n") { if (f) w->reset(new W<float, mu::VectorN<float>, 0>("f")); else w->reset(new W<double, mu::VectorN<double>, 0>("d")); }
      else if (k == "3") { if (f) w->reset(new W<float, mu::Vector3d<float>, 3>("f")); else w->reset(new W<double, mu::Vector3d<double>, 3>("d")); }
      else { if (f) w->reset(new W<float, mu::Vector6d<float>, 6>("f")); else w->reset(new W<double, mu::Vector6d<double>, 6>("d")); } }
    else (*w)->step(a); };
}
}
DRV_MAIN(vdrv::fresh)
