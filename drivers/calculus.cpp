// Conformance driver for 1-D and triangle quadrature, polynomials and power series (public interface only).
#include "drv.h"
#include "MathUtils/MathUtils.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;

// polynomial integrands behind plain function pointers, one per handle
template<class S, int K> struct Slot { static std::vector<S> c; static S f(S x) { S r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; } };
template<class S, int K> std::vector<S> Slot<S, K>::c;

template<class T> struct Val;
template<> struct Val<double> { static double mk(double a, double b) { return a; } static std::string js_(const double &v) { return "[" + js(v) + "]"; } };
template<> struct Val<std::complex<double>> { static std::complex<double> mk(double a, double b) { return {a, b}; } static std::string js_(const std::complex<double> &v) { return js(v); } };
template<> struct Val<VectorN<double>> { static VectorN<double> mk(double a, double b) { VectorN<double> v = VectorN<double>::Zero(2); v(0) = a; v(1) = b; return v; }
  static std::string js_(const VectorN<double> &v) { std::vector<double> w; for (int i = 0; i < v.size(); i++) w.push_back(v(i)); return js(w); } };
struct Term { double a[3], b; int m; double c1, c2; };
template<class T> struct F : Integrand<T> {
  std::vector<Term> t;
  T Evaluate(const Vector3d<double> &x) const override {
    double s1 = 0, s2 = 0;
    for (auto &k : t) { double l = k.a[0] * x(0) + k.a[1] * x(1) + k.a[2] * x(2) + k.b, p = 1; for (int i = 0; i < k.m; i++) p *= l; s1 += k.c1 * p; s2 += k.c2 * p; }
    return Val<T>::mk(s1, s2);
  }
};
// integrators that live as long as the script, each with an integrand that changes between the calls
template<class T> struct Kept { F<T> f; std::unique_ptr<Integration2dTriangle<T>> q; };
template<class T> using Shelf = std::map<int, std::unique_ptr<Kept<T>>>;
template<class T> void tri(Ev &e, int order, const std::vector<std::vector<double>> &v, const std::vector<Term> &t, Shelf<T> *shelf) {
  e.run([&] { std::unique_ptr<Kept<T>> own; Kept<T> *k;
    if (shelf && shelf->count(order)) k = (*shelf)[order].get();
    else { own.reset(new Kept<T>()); own->q.reset(new Integration2dTriangle<T>(&own->f, order)); k = own.get(); if (shelf) (*shelf)[order] = std::move(own); }
    k->f.t = t;
    Integration2dTriangle<T> &q = *k->q;
    Vector3d<double> a(v[0][0], v[0][1], v[0][2]), b(v[1][0], v[1][1], v[1][2]), c(v[2][0], v[2][1], v[2][2]);
    T r = q.Compute(a, b, c); e.raw("r", Val<T>::js_(r)); });
}

struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class S> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) {}
  std::map<long, std::unique_ptr<Integrate1d<S>>> in;
  Shelf<double> sd; Shelf<std::complex<double>> sc; Shelf<VectorN<double>> sv;
  void step(Args &a) override {
    const std::string op = a.t[0];
    Ev e(op);
    if (op == "inewv") { long h = a.n(); S lo = a.get<S>(), hi = a.get<S>(); auto y = a.vec<S>(); e.f("h", h).f("prec", prec).f("a", lo).f("b", hi).f("y", y);
      e.run([&] { in[h].reset(new Integrate1d<S>(y, lo, hi, (unsigned) y.size())); }); }
    else if (op == "inewf") { long h = a.n(); S lo = a.get<S>(), hi = a.get<S>(); int n = a.n(); auto c = a.vec<S>();
      e.f("h", h).f("prec", prec).f("a", lo).f("b", hi).f("n", n).f("c", c);
      S (*fp)(S) = h == 1 ? &Slot<S, 1>::f : h == 2 ? &Slot<S, 2>::f : &Slot<S, 3>::f;
      (h == 1 ? Slot<S, 1>::c : h == 2 ? Slot<S, 2>::c : Slot<S, 3>::c) = c;
      e.run([&] { in[h].reset(new Integrate1d<S>(fp, lo, hi, (unsigned) n)); }); }
    else if (op == "icopy") { long h = a.n(), g = a.n(); e.f("h", h).f("from", g);
      e.run([&] { in[h].reset(new Integrate1d<S>(*in.at(g))); }); }
    else if (op == "isetmin") { long h = a.n(); S v = a.get<S>(); e.f("h", h).f("v", v); e.run([&] { in.at(h)->SetXmin(v); }); }
    else if (op == "isetmax") { long h = a.n(); S v = a.get<S>(); e.f("h", h).f("v", v); e.run([&] { in.at(h)->SetXmax(v); }); }
    else if (op == "isetm") { long h = a.n(); std::string m = a.s(); e.f("h", h).f("m", m);
      e.run([&] { in.at(h)->SetIntegrationMethod(m == "NEWTON_COTES" ? NEWTON_COTES : TRAPEZOIDAL); }); }
    else if (op == "iget") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", in.at(h)->Get()); }); }
    else if (op == "iparam") { long h = a.n(); e.f("h", h); e.run([&] { e.f("a", in.at(h)->GetXmin()).f("b", in.at(h)->GetXmax())
        .f("m", std::string(in.at(h)->GetIntegrationMethod() == NEWTON_COTES ? "NEWTON_COTES" : "TRAPEZOIDAL")); }); }
    else if (op == "trapzu") { auto y = a.vec<S>(); S dx = a.get<S>(); e.f("prec", prec).f("y", y).f("dx", dx); e.run([&] { e.f("r", Trapz(y, dx)); }); }
    else if (op == "trapzd") { auto y = a.vec<S>(); e.f("prec", prec).f("y", y); e.run([&] { e.f("r", Trapz(y)); }); }
    else if (op == "trapzx") { auto x = a.vec<S>(); auto y = a.vec<S>(); e.f("prec", prec).f("x", x).f("y", y); e.run([&] { e.f("r", Trapz(x, y)); }); }
    else if (op == "tri") { std::string k = a.s(); int order = a.n(); std::vector<std::vector<double>> v(3);
      for (auto &p : v) for (int i = 0; i < 3; i++) p.push_back(a.d());
      bool keep = isupper(k[0]); k[0] = (char) tolower(k[0]);
      int n = a.n(); std::vector<Term> t(n); std::string tj = "[";
      for (int i = 0; i < n; i++) { auto &q = t[i]; for (double &x : q.a) x = a.d(); q.b = a.d(); q.m = a.n(); q.c1 = a.d(); q.c2 = a.d();
        tj += (i ? "," : "") + std::string("{\"a\":[") + js(q.a[0]) + "," + js(q.a[1]) + "," + js(q.a[2]) + "],\"b\":" + js(q.b) + ",\"m\":" + js(q.m) +
          ",\"c\":[" + js(q.c1) + (k == "d" ? "" : "," + js(q.c2)) + "]}"; }
      e.f("kind", k).f("order", order).f("v", v).raw("t", tj + "]");
      if (k == "d") tri<double>(e, order, v, t, keep ? &sd : nullptr); else if (k == "c") tri<std::complex<double>>(e, order, v, t, keep ? &sc : nullptr); else tri<VectorN<double>>(e, order, v, t, keep ? &sv : nullptr); }
    else if (op == "qtab") { int n = a.n(); std::vector<std::vector<double>> al, be, we; for (int i = 0; i < n; i++) { al.push_back(a.dv()); be.push_back(a.dv()); we.push_back(a.dv()); }
      e.f("al", al).f("be", be).f("we", we);
      e.run([&] { QuadratureTables q; std::vector<int> s; s.push_back(q.get_size_tables()); for (int i = 0; i < n; i++) { q.Set_table(al[i], be[i], we[i]); s.push_back(q.get_size_tables()); }
        std::vector<std::vector<double>> ra, rb, rw; for (int i = n; i >= 1; i--) { ra.push_back(q.alpha(i)); rb.push_back(q.beta(i)); rw.push_back(q.weight(i)); }
        e.f("s", s).f("ra", ra).f("rb", rb).f("rw", rw); }); }
    else if (op == "horner" || op == "hornerd") { std::string k = a.s(); auto c = a.dv(); double x = a.d(), y = a.d(); e.f("c", c);
      if (k == "d") { e.raw("x", "[" + js(x) + "]"); e.run([&] { double r = op == "horner" ? Horner<double>(c, x) : Horner_derivative<double>(c, x); e.raw("r", "[" + js(r) + "]"); }); }
      else { std::complex<double> z(x, y); e.f("x", z); e.run([&] { auto r = op == "horner" ? Horner<std::complex<double>>(c, z) : Horner_derivative<std::complex<double>>(c, z); e.f("r", r); }); } }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double>("d"));
  return [w](Args &a) {
    if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); else w->reset(new W<double>("d")); }
    else (*w)->step(a); };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
