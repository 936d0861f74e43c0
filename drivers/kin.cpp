// Conformance driver for units, angles, attitude conversions and planar vectors (public interface only).
#include "drv.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/Geometry.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;
static SPEED_UNIT su(const std::string &s) { return s == "MS" ? MS : s == "KNOT" ? KNOT : KMH; }
static FREQUENCY_UNIT fu(const std::string &s) { return s == "HERTZ" ? HERTZ : s == "RADS" ? RADS : s == "DEGS" ? DEGS : s == "DEGM" ? DEGM : s == "S" ? mathutils::S : RPM; }
static ANGLE_UNIT au(const std::string &s) { return s == "DEG" ? DEG : RAD; }
template<class T> T named(const std::string &f, T x) {
#define N(n) if (f == #n) return n(x);
  N(KNOT2MS) N(MS2KNOT) N(KMH2MS) N(MS2KMH) N(KMH2KNOT) N(KNOT2KMH) N(DEGS2RADS) N(RADS2DEGS) N(HZ2RADS) N(RADS2HZ) N(HZ2S) N(S2HZ)
  N(RADS2S) N(S2RADS) N(RPM2RADS) N(RADS2RPM) N(DEGM2RADS) N(RADS2DEGM)
#undef N
  _exit(98);
}
static double constant(const std::string &f) {
#define N(n) if (f == #n) return n;
  N(MU_ONE_MINUTE) N(MU_ONE_HOUR) N(MU_ONE_DAY) N(MU_ONE_MILE) N(MU_ONE_KM) N(MU_KNOT) N(MU_KMH) N(MU_PI) N(MU_PI_180) N(DEG2RAD) N(MU_180_PI) N(RAD2DEG)
  N(MU_2PI) N(MU_PI_2) N(MU_2_PI) N(MU_4PI) N(MU_PI_4) N(MU_1_4PI) N(MU_RPM2RADS) N(MU_SQRT2) N(MU_SQRT2_2)
#undef N
  _exit(98);
}
template<class T> T norm(const std::string &k, T x) {
  if (k == "mod2pi") return modulo2pi(x); if (k == "mod360") return modulo360(x); if (k == "0_360") return Normalize_0_360(x);
  if (k == "180") return Normalize__180_180(x); if (k == "0_2PI") return Normalize_0_2PI(x); if (k == "PI") return Normalize__PI_PI(x);
  _exit(98);
}
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class T> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) {}
  struct Q { std::string dim, u; T x; };
  std::map<long, Q> q;
  std::map<long, T> ang;
  std::map<long, int> iang;
  struct A { std::string rep; Eigen::Vector3d e; Eigen::Quaterniond q; Eigen::Matrix3d m; };
  std::map<long, A> att;
  Vector2d<T> v[4];
  std::string all() { std::string o = "["; for (int i = 1; i <= 3; i++) o += (i > 1 ? "," : "") + std::string("[") + js(v[i](0)) + "," + js(v[i](1)) + "]"; return o + "]"; }
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    if (op == "uset") { long h = a.n(); std::string d = a.s(), u = a.s(); T x = a.get<T>(); q[h] = {d, u, x}; e.f("h", h).f("prec", prec).f("dim", d).f("u", u).f("x", x); e.run([&] {}); }
    else if (op == "uconv") { long h = a.n(); std::string to = a.s(); Q &o = q.at(h); e.f("h", h).f("to", to);
      e.run([&] { o.x = o.dim == "vel" ? convert_velocity_unit(o.x, su(o.u), su(to)) : convert_frequency(o.x, fu(o.u), fu(to)); o.u = to; e.f("r", o.x); }); }
    else if (op == "cvel") { T x = a.get<T>(); std::string p = a.s(), r = a.s(); bool def = r == "default"; e.f("prec", prec).f("x", x).f("a", p).f("b", def ? std::string("MS") : r);
      e.run([&] { e.f("r", def ? convert_velocity_unit(x, su(p)) : convert_velocity_unit(x, su(p), su(r))); }); }
    else if (op == "cfreq") { T x = a.get<T>(); std::string p = a.s(), r = a.s(); e.f("prec", prec).f("x", x).f("a", p).f("b", r); e.run([&] { e.f("r", convert_frequency(x, fu(p), fu(r))); }); }
    else if (op == "named") { std::string f = a.s(); T x = a.get<T>(); e.f("f", f).f("prec", prec).f("x", x); e.run([&] { e.f("r", named(f, x)); }); }
    else if (op == "const") { std::string c = a.s(); e.f("c", c); e.run([&] { e.f("r", constant(c)); }); }
    else if (op == "uvec") { std::string f = a.s(); bool copy = a.n(); auto x = a.vec<T>(); e.f("f", f).f("prec", prec).f("copy", copy).f("v", x);
      e.run([&] {
        if (!copy) { auto y = x; if (f == "deg2rad") deg2rad(y); else if (f == "rad2deg") rad2deg(y); else kt2ms(y); e.f("r", y); }
        else { auto s = x; std::vector<T> o{T(7), T(8)}; const auto &cs = s; if (f == "deg2rad") deg2rad(cs, o); else if (f == "rad2deg") rad2deg(cs, o); else kt2ms(cs, o); e.f("src", s).f("r", o); } }); }
    else if (op == "aset") { long h = a.n(); T x = a.get<T>(); ang[h] = x; iang.erase(h); e.f("h", h).f("prec", prec).f("x", x); e.run([&] {}); }
    else if (op == "iset") { long h = a.n(); int x = a.n(); iang[h] = x; e = Ev("aset"); e.f("h", h).f("prec", "i").f("x", (double) x); e.run([&] {}); }
    else if (op == "anorm") { long h = a.n(); std::string k = a.s(); e.f("h", h).f("kind", k);
      e.run([&] { if (iang.count(h)) { iang[h] = norm<int>(k, iang[h]); e.f("r", (double) iang[h]); } else { ang[h] = norm<T>(k, ang[h]); e.f("r", ang[h]); } }); }
    else if (op == "trigo") { T x = a.get<T>(); std::string u = a.s(); e.f("prec", prec).f("x", x).f("u", u == "default" ? std::string("RAD") : u);
      e.run([&] { T c, s; if (u == "default") _GetTrigo(x, c, s); else _GetTrigo(x, c, s, au(u)); e.f("c", c).f("s", s); }); }
    else if (op == "aparse") { std::string t = a.s(); if (t == "-empty-") t = ""; e.f("t", t); e.run([&] { ANGLE_UNIT u = STRING2ANGLE(t); e.f("r", std::string(u == DEG ? "DEG" : "RAD")); }); }
    else if (op == "tset") { long h = a.n(); std::string rep = a.s(); int n = rep == "euler" ? 3 : rep == "quat" ? 4 : 9; std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(a.d());
      A &o = att[h]; o.rep = rep; e.f("h", h).f("rep", rep).f("v", x);
      if (n == 3) o.e << x[0], x[1], x[2]; else if (n == 4) o.q = Eigen::Quaterniond(x[0], x[1], x[2], x[3]); else o.m << x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8];
      e.run([&] {}); }
    else if (op == "tconv") { long h = a.n(); std::string to = a.s(); A &o = att.at(h); e.f("h", h).f("to", to);
      e.run([&] {
        if (to == "euler") { if (o.rep == "quat") o.e = quaternionToEulerAnglesZYX(o.q); else if (o.rep == "matrix") o.e = rotationMatrixToEulerAnglesZYX(o.m); }
        else if (to == "quat") { if (o.rep == "euler") o.q = eulerAnglesZYXToQuaternion(o.e); else if (o.rep == "matrix") o.q = RotationMatrixToQuaternion(o.m); }
        else { if (o.rep == "euler") o.m = eulerAnglesZYXToRotationMatrix(o.e); else if (o.rep == "quat") o.m = quaternionToRotationMatrix(o.q); }
        o.rep = to; std::vector<double> x;
        if (to == "euler") x = {o.e(0), o.e(1), o.e(2)}; else if (to == "quat") x = {o.q.w(), o.q.x(), o.q.y(), o.q.z()};
        else for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x.push_back(o.m(i, j));
        e.f("v", x); }); }
    else if (op == "vset") { long h = a.n(); T x = a.get<T>(), y = a.get<T>(); e.f("h", h).f("x", x).f("y", y); e.run([&] { v[h].Set(x, y); e.raw("all", all()); }); }
    else if (op == "vexpr") { long h = a.n(), g = a.n(); std::string how = a.s(), form = a.s(); T c = a.get<T>(); bool asg = how == "assign"; const Vector2d<T> &x = v[h]; Vector2d<T> &y = v[g];
      e.f("prec", prec).f("h", h).f("g", g).f("form", form).f("c", c);
      e.run([&] { if (form == "scale") { if (asg) y = c * x; else { Vector2d<T> t(c * x); y = t; } }
        else if (form == "turn") { Eigen::Matrix<T, 2, 2> P; P << T(0), T(-1), T(1), c; if (asg) y = P * y; else { Vector2d<T> t(P * y); y = t; } }
        else { if (asg) y = x + c * y; else { Vector2d<T> t(x + c * y); y = t; } } e.raw("all", all()); }); }
    else if (op == "vnull") { long h = a.n(); e.f("h", h); e.run([&] { v[h].SetNull(); e.raw("all", all()); }); }
    else if (op == "vlocal") { long h = a.n(); T x = a.get<T>(), y = a.get<T>(), g = a.get<T>(); std::string u = a.s(); e.f("prec", prec).f("h", h).f("x", x).f("y", y).f("a", g).f("u", u);
      e.run([&] { if (u == "RAD") v[h].SetNEDFromLocal(x, y, g); else v[h].SetNEDFromLocal(x, y, g, DEG); e.raw("all", all()); }); }
    else if (op == "vproj") { long h = a.n(); std::string k = a.s(), how = a.s(); long g = a.n(); T x = a.get<T>(); std::string u = a.s(); bool d = u == "default";
      e.f("prec", prec).f("h", h).f("kind", k).f("how", how).f("g", g).f("a", x).f("u", d ? std::string("RAD") : u);
      e.run([&] {
        if (d) { if (k == "L2N") { if (how == "in") v[h].ProjectLocalOnNED(x); else if (how == "out") v[h].ProjectLocalOnNED(v[g], x); else v[g] = ProjectLocalOnNED(v[h], x); }
          else { if (how == "in") v[h].ProjectNEDOnLocal(x); else if (how == "out") v[h].ProjectNEDOnLocal(v[g], x); else v[g] = ProjectNEDOnLocal(v[h], x); } }
        else if (k == "L2N") { if (how == "in") v[h].ProjectLocalOnNED(x, au(u)); else if (how == "out") v[h].ProjectLocalOnNED(v[g], x, au(u)); else v[g] = ProjectLocalOnNED(v[h], x, au(u)); }
        else { if (how == "in") v[h].ProjectNEDOnLocal(x, au(u)); else if (how == "out") v[h].ProjectNEDOnLocal(v[g], x, au(u)); else v[g] = ProjectNEDOnLocal(v[h], x, au(u)); }
        e.raw("all", all()); }); }
    else if (op == "vaxis") { long h = a.n(); std::string k = a.s(), how = a.s(); T x = a.get<T>(); std::string u = a.s(); bool m = how == "method", d = u == "default"; const Vector2d<T> &w = v[h];
      e.f("prec", prec).f("h", h).f("axis", k).f("how", how).f("a", x).f("u", d ? std::string("RAD") : u);
      e.run([&] { T r;
        if (d) r = k == "North" ? (m ? w.ProjectOnNorthAxis(x) : ProjectOnNorthAxis(w, x)) : k == "East" ? (m ? w.ProjectOnEastAxis(x) : ProjectOnEastAxis(w, x))
                 : k == "LocalX" ? (m ? w.ProjectOnLocalXAxis(x) : ProjectOnLocalXAxis(w, x)) : (m ? w.ProjectOnLocalYAxis(x) : ProjectOnLocalYAxis(w, x));
        else if (k == "North") r = m ? w.ProjectOnNorthAxis(x, au(u)) : ProjectOnNorthAxis(w, x, au(u));
        else if (k == "East") r = m ? w.ProjectOnEastAxis(x, au(u)) : ProjectOnEastAxis(w, x, au(u));
        else if (k == "LocalX") r = m ? w.ProjectOnLocalXAxis(x, au(u)) : ProjectOnLocalXAxis(w, x, au(u));
        else r = m ? w.ProjectOnLocalYAxis(x, au(u)) : ProjectOnLocalYAxis(w, x, au(u));
        e.f("r", r); }); }
    else if (op == "vned") { T x = a.get<T>(), y = a.get<T>(), g = a.get<T>(); std::string u = a.s(), vi = a.s(), vo = a.s(); bool def = vi == "default";
      e.f("prec", prec).f("x", x).f("y", y).f("a", g).f("u", u).f("vi", def ? std::string("KNOT") : vi).f("vo", def ? std::string("MS") : vo);
      e.run([&] { Vector2d<T> r = def ? GetNEDVelocityVector(x, y, g, au(u)) : GetNEDVelocityVector(x, y, g, au(u), su(vi), su(vo)); e.f("r", std::vector<T>{r(0), r(1)}); }); }
    else if (op == "vtrans") { long h = a.n(); std::string how = a.s(); long g = a.n(); long pr = a.n(); T px = a.get<T>(), py = a.get<T>(), w = a.get<T>(); std::string f = a.s(); Vector2d<T> pt(px, py); const Vector2d<T> &p = pr ? v[pr] : pt; bool d = f == "default";
      e.f("prec", prec).f("h", h).f("how", how).f("g", g).f("p", pr).f("px", px).f("py", py).f("w", w).f("fu", d ? std::string("RADS") : f);
      e.run([&] {
        if (d) { if (how == "in") v[h].TransportAtPoint(p, w); else if (how == "out") v[h].TransportAtPoint(v[g], p, w); else v[g] = TransportAtPoint(v[h], p, w); }
        else { if (how == "in") v[h].TransportAtPoint(p, w, fu(f)); else if (how == "out") v[h].TransportAtPoint(v[g], p, w, fu(f)); else v[g] = TransportAtPoint(v[h], p, w, fu(f)); }
        e.raw("all", all()); }); }
    else if (op == "vinf") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", v[h].infNorm()); }); }
    else if (op == "veq") { long h = a.n(), g = a.n(); T eps = a.get<T>(); bool def = eps == 0; e.f("h", h).f("g", g).f("eps", def ? T(1e-12) : eps); e.run([&] { e.f("r", def ? v[h].IsEqual(v[g]) : v[h].IsEqual(v[g], eps)); }); }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double>("d"));
  return [w](Args &a) {
    if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); else w->reset(new W<double>("d")); }
    else (*w)->step(a); };
}
}  // namespace vdrv
DRV_MAIN(vdrv::fresh)
