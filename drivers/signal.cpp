// Conformance driver for Fourier transforms, convolution with a signal history, and spline interpolation.
#include "drv.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/Convolution.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;
static FREQUENCY_UNIT fu(const std::string &s) { return s == "HERTZ" ? HERTZ : s == "RADS" ? RADS : s == "DEGS" ? DEGS : s == "DEGM" ? DEGM : s == "S" ? mathutils::S : RPM; }
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
struct SplBase { virtual ~SplBase() {} virtual double at(double x) = 0; virtual SplBase *copy() = 0; };
template<int Deg> struct Spl : SplBase {
  Spline<double, 1, Deg> s;
  Spl(const Spline<double, 1, Deg> &o) : s(o) {}
  double at(double x) override { const auto &c = s; return c(x); }
  SplBase *copy() override { return new Spl<Deg>(s); }
};
template<int Deg> static SplBase *mk(const std::string &how, std::vector<double> &x, std::vector<double> &y) {
  if (how == "std") { Spline<double, 1, Deg> s(x, y); return new Spl<Deg>(s); }
  Eigen::VectorXd X = Eigen::Map<Eigen::VectorXd>(x.data(), x.size()), Y = Eigen::Map<Eigen::VectorXd>(y.data(), y.size());
  Spline<double, 1, Deg> s(X, Y); return new Spl<Deg>(s);
}
template<class T> struct W : World {
  const char *prec;
  explicit W(const char *p) : prec(p) { for (auto &x : f) x.reset(new mathutils::FFT<T>()); }
  std::unique_ptr<mathutils::FFT<T>> f[4];
  std::vector<std::complex<T>> last[4];
  std::vector<T> back;      // written by one inverse transform after the other
  boost::circular_buffer<T> b;
  std::unique_ptr<SplBase> sp[4];
  void step(Args &a) override {
    std::string op = a.t[0];
    Ev e(op == "finvl" ? "finv" : op);
    e.f("prec", prec);
    if (op == "fnew") { long h = a.n(); e.f("h", h); e.run([&] { f[h].reset(new mathutils::FFT<T>()); }); }
    else if (op == "fhalf") { long h = a.n(); bool on = a.n(); e.f("h", h).f("on", on); e.run([&] { if (on) f[h]->HalfSpectrumON(); else f[h]->HalfSpectrumOFF(); }); }
    else if (op == "fscale") { long h = a.n(); bool on = a.n(); e.f("h", h).f("on", on); e.run([&] { if (on) f[h]->ScalingON(); else f[h]->ScalingOFF(); }); }
    else if (op == "ffwd") { long h = a.n(); auto v = a.vec<T>(); e.f("h", h).f("v", v); const auto &cv = v; e.run([&] { f[h]->fft(last[0], cv); e.f("F", last[0]); }); }
    else if (op == "ffwdf") { long h = a.n(); auto v = a.vec<T>(); T fs = a.get<T>(); std::string u = a.s(); e.f("h", h).f("v", v).f("fs", fs).f("u", u == "default" ? "HERTZ" : u); const auto &cv = v; std::vector<T> fr(3, T(9));
      e.run([&] { if (u == "default") f[h]->fft(last[0], fr, cv, fs); else f[h]->fft(last[0], fr, cv, fs, fu(u)); e.f("F", last[0]).f("r", fr); }); }
    else if (op == "finv") { long h = a.n(); auto F = a.vec<std::complex<T>>(); e.f("h", h).f("F", F); const auto &cF = F; e.run([&] { f[h]->ifft(back, cF); e.f("v", back); }); }
    else if (op == "finvl") { long h = a.n(); auto F = last[0]; e.f("h", h).f("F", F); const auto &cF = F; e.run([&] { f[h]->ifft(back, cF); e.f("v", back); }); }
    else if (op == "ffreq") { long h = a.n(); int n = a.n(); T fs = a.get<T>(); std::string u = a.s(); e.f("h", h).f("n", n).f("fs", fs).f("u", u == "default" ? "HERTZ" : u);
      e.run([&] { e.f("r", u == "default" ? f[h]->GetFrequencyVector(n, fs) : f[h]->GetFrequencyVector(n, fs, fu(u))); }); }
    else if (op == "pow2") { int p = a.n(); e.f("p", p); e.run([&] { e.f("r", (int) Pow2(p)); }); }
    else if (op == "cnew") { int cap = a.n(), fill = a.n(); T x = a.get<T>(); e.f("cap", cap).f("fill", fill).f("x", x); e.run([&] { b = boost::circular_buffer<T>(cap, fill, x); }); }
    else if (op == "cpush") { bool fr = a.n(); T x = a.get<T>(); e.f("front", fr).f("x", x); e.run([&] { if (fr) b.push_front(x); else b.push_back(x); }); }
    else if (op == "conv") { auto k = a.vec<T>(); T dt = a.get<T>(); std::string r = a.s(); e.f("k", k).f("dt", dt).f("rev", r != "0"); const auto &ck = k; const auto &cb = b;
      e.run([&] { T x = r == "default" ? NaiveConvolution<T>(ck, cb, dt) : NaiveConvolution<T>(ck, cb, dt, r == "1"); std::vector<T> after(b.begin(), b.end()); e.f("r", x).f("after", after); }); }
    else if (op == "spl") { long h = a.n(), d = a.n(); std::string how = a.s(); auto x = a.dv(), y = a.dv(); e.f("h", h).f("d", d).f("x", x).f("y", y);
      auto x0 = x, y0 = y;
      e.run([&] { sp[h].reset(d == 1 ? mk<1>(how, x, y) : d == 2 ? mk<2>(how, x, y) : d == 3 ? mk<3>(how, x, y) : d == 4 ? mk<4>(how, x, y) : mk<5>(how, x, y)); e.f("same", x == x0 && y == y0); }); }
    else if (op == "splcopy") { long h = a.n(), g = a.n(); e.f("h", h).f("g", g); e.run([&] { sp[g].reset(sp[h]->copy()); }); }
    else if (op == "splev") { long h = a.n(); double x = a.d(); e.f("h", h).f("x", x); e.run([&] { e.f("r", sp[h]->at(x)); }); }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>(new W<double>("d"));
  return [w](Args &a) { if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); else w->reset(new W<double>("d")); } else (*w)->step(a); };
}
}  // namespace vdrv
DRV_MAIN(vdrv::fresh)
