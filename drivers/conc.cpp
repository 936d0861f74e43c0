// Conformance driver for concurrent reading: objects are built once, a set of calls is made alone (one thread), then
// several threads make the same calls in given orders with no synchronisation between them, then alone again.
// Built with -fsanitize=thread: conflicting unsynchronised accesses inside the library end the run ("sanitizer").
#include <cassert>
#include <cmath>
#include <vector>
#include "drv.h"
#include <atomic>
#include <chrono>
#include <thread>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/Geometry.h"
#include "MathUtils/LookupTable1D.h"
#include "MathUtils/LookupTable2D.h"
#include "MathUtils/Convolution.h"
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=99:die_after_fork=0:report_signal_unsafe=0:handle_abort=0"; }
namespace vdrv {
using namespace mathutils;
using namespace drv;
typedef std::vector<double> Res;
typedef std::function<Res()> Call;
struct Poly { Res c; double at(double x, double y, double z) const { return c[0] + c[1] * x + c[2] * y + c[3] * z + c[4] * x * y + c[5] * x * x + c[6] * z * z; } };
struct G1 : Function1d<double>, Poly { double Evaluate(const double &x) const override { return at(x, 0, 0); } };
struct G2 : Function2d<double>, Poly { double Evaluate(const double &x, const double &y) const override { return at(x, y, 0); } };
struct G3 : Function3d<double>, Poly { double Evaluate(const double &x, const double &y, const double &z) const override { return at(x, y, z); } };
struct GT : Integrand<double>, Poly { double Evaluate(const Vector3d<double> &p) const override { return at(p[0], p[1], p[2]); } };
static INTERP_METHOD method(long m) { return m == 0 ? LINEAR : m == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE; }
static MatrixMN<double> square(const Res &v, int n, size_t o = 0) { MatrixMN<double> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = v[(o + i * n + j) % v.size()]; return m; }
static Res flat(const MatrixMN<double> &m) { Res r; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); return r; }
// Every object has the same interface here: call number k with three numbers.
struct Obj { virtual ~Obj() {} virtual Res call(long k, double x, double y, double z) = 0; };
static std::shared_ptr<const Res> sp(const Res &v) { return std::make_shared<const Res>(v); }

struct I1 : Obj { std::unique_ptr<Interp1d<double, double>> i; I1(long m, const Res &x, const Res &v) { i.reset(Interp1d<double, double>::MakeInterp1d(method(m))); i->Initialize(sp(x), sp(v)); }
  Res call(long k, double x, double y, double z) override { if (k % 4 == 0) return {i->Eval(x)}; if (k % 4 == 1) return {(*i)(x)}; if (k % 4 == 2) return i->Eval(Res{x, y, z}); return {i->GetXmin(), i->GetXmax()}; } };
struct I1c : Obj { typedef std::complex<double> Z; std::unique_ptr<Interp1d<double, Z>> i; I1c(long m, const Res &x, const Res &v) { i.reset(Interp1d<double, Z>::MakeInterp1d(method(m))); std::vector<Z> w; for (double t : v) w.push_back({t, 1 - t}); i->Initialize(sp(x), std::make_shared<const std::vector<Z>>(w)); }
  Res call(long k, double x, double y, double) override { Z r = k % 2 ? i->Eval(x) : i->Eval(y); return {r.real(), r.imag()}; } };
struct T1 : Obj { std::unique_ptr<LookupTable1D<double, double>> t; T1(long m, const Res &x, const Res &v) { t.reset(new LookupTable1D<double, double>(method(m))); t->SetX(x); t->AddY("a", v); Res w(v.rbegin(), v.rend()); t->AddY("b", w); }
  Res call(long k, double x, double y, double z) override { if (k % 4 == 0) return {t->Eval("a", x)}; if (k % 4 == 1) return {t->Eval("b", x)}; if (k % 4 == 2) return t->Eval("a", Res{x, y, z});
    return {(double) t->GetNbSeries(), (double) t->GetNbSample(), t->GetXmin("a"), t->GetXmax("b")}; } };
struct I2 : Obj { std::unique_ptr<Interp2d<double>> i; I2(long m, const Res &x, const Res &y, const Res &v) { i.reset(Interp2d<double>::MakeInterp2d(method(m))); i->Initialize(sp(x), sp(y), sp(v)); }
  Res call(long k, double x, double y, double z) override { if (k % 3 == 0) return {i->Eval(x, y)}; if (k % 3 == 1) return i->Eval(std::vector<Res>{{x, y}, {y, x}, {z, y}}); return {i->GetXmin(), i->GetYmax()}; } };
struct T2 : Obj { std::unique_ptr<LookupTable2d<double>> t; T2(long m, const Res &x, const Res &y, const Res &v) { t.reset(new LookupTable2d<double>()); t->SetInterpolationMethod(method(m)); t->SetX(x); t->SetY(y); t->AddData("a", v); Res w(v.rbegin(), v.rend()); t->AddData("b", w); }
  Res call(long k, double x, double y, double z) override { if (k % 4 == 0) return {t->Eval("a", x, y)}; if (k % 4 == 1) return {t->Eval("b", x, y)}; if (k % 4 == 2) return t->Eval("b", std::vector<Res>{{x, y}, {z, y}}); return {(double) t->GetNbSeries(), (double) t->HasSerie("a"), (double) t->HasSerie("q")}; } };
template<size_t D> static std::array<double, D> pt(double x, double y, double z) { std::array<double, D> p; double q[3] = {x, y, z}; for (size_t i = 0; i < D; i++) p[i] = q[i % 3]; return p; }
template<size_t D> static boost::multi_array<double, D> arr(const Res &c, const Res &v) { boost::array<size_t, D> e; for (size_t i = 0; i < D; i++) e[i] = c.size(); boost::multi_array<double, D> m(e); for (size_t i = 0; i < m.num_elements(); i++) m.data()[i] = v[i % v.size()] + 0.25 * i; return m; }
template<size_t D> struct GI : Obj { RegularGridInterpolator<double, D> g; GI(const Res &c, const Res &v) { for (size_t i = 0; i < D; i++) g.AddCoord(c); g.AddVar(arr<D>(c, v)); }
  Res call(long k, double x, double y, double z) override { if (k % 3 == 0) return {g.Interp(pt<D>(x, y, z))}; if (k % 3 == 1) return {g.Interp(pt<D>(y, x, z))}; return {g.GetCoordMinVal(0), g.GetCoordMaxVal(D - 1), (double) g.GetDimension()}; } };
template<size_t D> struct GN : Obj { RegularGridNearest<double, D, double> g; GN(const Res &c, const Res &v) { for (size_t i = 0; i < D; i++) g.AddCoord(c); g.AddVar(arr<D>(c, v)); }
  Res call(long k, double x, double y, double z) override { auto p = pt<D>(x, y, z); if (k % 3 == 0) return {g.GetData(p)};
    if (k % 3 == 1) { auto n = g.Nearest(p); auto c = n.coords(); Res r{n.val()}; for (size_t i = 0; i < D; i++) r.push_back(c[i]); return r; }
    Res r; for (auto &n : g.GetSurroundingGridNodes(p)) r.push_back(n.val()); return r; } };
struct P1 : Obj { PowerSeries1dClosed<double> p; PowerSeries1dOpened<double> o; static VectorN<double> v(const Res &c) { VectorN<double> r(c.size()); for (size_t i = 0; i < c.size(); i++) r(i) = c[i]; return r; }
  P1(const Res &c) : p(v(c), 0., 10.), o(v(c), 1.) {}
  Res call(long k, double x, double y, double) override { double w = 1 + std::abs(y); return k % 3 == 0 ? Res{p.Evaluate(x)} : k % 3 == 1 ? Res{p.Evaluate_derivative_x(x), p.Evaluate(w)} : Res{o.Evaluate(w), o.Evaluate_derivative_x(w)}; } };
struct P2 : Obj { PowerSeries2dClosed<double> p; PowerSeries2dMixed<double> m; P2(const Res &c) : p(square(c, 3), 0., 10., 0., 10.), m(square(c, 3, 1), 0., 10., 1.) {}
  Res call(long k, double x, double y, double) override { double w = 1 + std::abs(y); return k % 3 == 0 ? Res{p.Evaluate(x, y)} : k % 3 == 1 ? Res{p.Evaluate_derivative_x(x, y), p.Evaluate_derivative_y(x, y)} : Res{m.Evaluate(x, w), m.Evaluate_derivative_x(x, w), m.Evaluate_derivative_y(x, w)}; } };
struct P3 : Obj { PowerSeries3dClosed<double> p; PowerSeries3dZOpenedXYClosed<double> o; static std::vector<MatrixMN<double>> t(const Res &c) { return {square(c, 2), square(c, 2, 1), square(c, 2, 2)}; }
  P3(const Res &c) : p(t(c), 0., 10., 0., 10., 0., 10.), o(t(c), 0., 10., 0., 10., 1.) {}
  Res call(long k, double x, double y, double z) override { double w = 1 + std::abs(z); switch (k % 5) { case 0: return {p.Evaluate(x, y, z)}; case 1: return {p.Evaluate_derivative_x(x, y, z), p.Evaluate_derivative_y(x, y, z), p.Evaluate_derivative_z(x, y, z)};
    case 2: return {o.Evaluate(x, y, w), o.Evaluate_zinf(x, y)}; case 3: { double f, a, b; p.Evaluate_f_dfdx_dfdy(x, y, z, f, a, b); return {f, a, b}; } default: { auto c = o.Compute_cij(w); return {o.Evaluate_z_predefined(x, y, c)}; } } } };
struct C1 : Obj { G1 f; std::unique_ptr<ChebyshevSeries1dClosed<double>> c; C1(const Res &v) { f.c = v; c.reset(new ChebyshevSeries1dClosed<double>(&f, 0., 10., 4)); c->Compute_ai(); }
  Res call(long k, double x, double, double) override { if (k % 3 == 0) return {c->Evaluate(x)}; if (k % 3 == 1) return {c->Evaluate_derivative_x(x)}; auto b = c->Compute_bi(); Res r; for (int i = 0; i < b.size(); i++) r.push_back(b(i)); return r; } };
struct C2 : Obj { G2 f; std::unique_ptr<ChebyshevSeries2dClosed<double>> c; C2(const Res &v) { f.c = v; c.reset(new ChebyshevSeries2dClosed<double>(&f, 0., 10., 0., 10., 3, 3)); c->Compute_aij(); }
  Res call(long k, double x, double y, double) override { if (k % 3 == 0) return {c->Evaluate(x, y)}; if (k % 3 == 1) return {c->Evaluate_derivative_x(x, y), c->Evaluate_derivative_y(x, y)}; return flat(c->Compute_bij()); } };
struct C3 : Obj { G3 f; std::unique_ptr<ChebyshevSeries3dClosed<double>> c; C3(const Res &v) { f.c = v; c.reset(new ChebyshevSeries3dClosed<double>(&f, 0., 10., 0., 10., 0., 10., 2, 2, 2)); c->Compute_aijk(); }
  Res call(long k, double x, double y, double z) override { if (k % 3 == 0) return {c->Evaluate(x, y, z)}; if (k % 3 == 1) return {c->Evaluate_derivative_x(x, y, z), c->Evaluate_derivative_y(x, y, z), c->Evaluate_derivative_z(x, y, z)}; return flat(c->Compute_bijk()[1]); } };
struct Sp : Obj { std::unique_ptr<Spline<double, 1, 3>> s; Sp(const Res &x, const Res &v) { Res a = x, b = v; s.reset(new Spline<double, 1, 3>(a, b)); } Res call(long, double x, double, double) override { return {(*s)(x)}; } };
struct Tr : Obj { GT f; std::unique_ptr<Integration2dTriangle<double>> q; Tr(long o, const Res &v) { f.c = v; q.reset(new Integration2dTriangle<double>(&f, (int) o)); }
  Res call(long, double x, double y, double z) override { Vector3d<double> a(x, y, z), b(x + 1, y, z + y), c(x, z + 2, 1); return {q->Compute(a, b, c)}; } };
struct Mx : Obj { MatrixMN<double> m; Mx(const Res &v) : m(square(v, 3)) { for (int i = 0; i < 3; i++) m(i, i) += 40; }
  Res call(long k, double x, double y, double z) override { switch (k % 7) { case 0: return flat(m.GetInverse()); case 1: { MatrixMN<double> q, r; m.GetQRDecomposition(q, r); return flat(r); } case 2: { MatrixMN<double> p, l, u; m.GetLUDecomposition(p, l, u); return flat(u); }
    case 3: { MatrixMN<double> b(3, 1); b(0, 0) = x; b(1, 0) = y; b(2, 0) = z; return flat(m.LUSolver(b)); } case 4: return flat(m.GetPseudoInverse()); case 5: return {(double) m.IsSquare(), (double) m.IsSymmetric(), (double) m.IsOrthogonal(), (double) m.IsIdentity(), (double) m.IsPositiveSemiDefinite()}; default: return flat(Transpose(m)); } } };
struct Vx : Obj { VectorN<double> v; Vector3d<double> w; Vector2d<double> u; Vx(const Res &c) : v(P1::v(c)), w(c[0], c[1], c[2]), u(c[0], c[1]) {}
  Res call(long k, double x, double y, double) override { switch (k % 5) { case 0: return {v.infNorm(), w.infNorm(), u.infNorm()}; case 1: return flat(GetMatrixSquare(v)); case 2: return {u.ProjectOnNorthAxis(x, DEG), u.ProjectOnEastAxis(x), u.ProjectOnLocalXAxis(y), u.ProjectOnLocalYAxis(y, DEG)};
    case 3: { auto r = ProjectLocalOnNED(u, x); return {r[0], r[1]}; } default: return {(double) v.IsEqual(v), (double) w.IsUnit()}; } } };
// functions of the library that take everything as arguments
struct Fn : Obj { Res d; Fn(const Res &v) : d(v) {}
  Res call(long k, double x, double y, double z) override { double p = 0.1 + std::abs(x); int n = (int) (std::abs(y)) % 6; switch (k % 24) {
    case 0: return {Cyl_Bessel_first_kind<int, double, double>(n, p), Cyl_Bessel_first_kind_derivative<int, double, double>(n, p)};
    case 1: return {Cyl_Bessel_second_kind<int, double, double>(n, p), Cyl_Bessel_second_kind_derivative<int, double, double>(n, p)};
    case 2: return {Cyl_modified_Bessel_first_kind<int, double, double>(n, p), Cyl_modified_Bessel_second_kind<int, double, double>(n, p)};
    case 3: { auto h = Cyl_Hankel_first_kind<int, double>(n, p); return {h.real(), h.imag()}; }
    case 4: return {Ei(p), E1(p), Ei_approximation(p), E1_approximation(p), expEi(p)};
    case 5: return {Struve_zero_order(p), Struve_first_order(p), Struve_zero_order_derivative(p)};
    case 6: return {Gamma<double>(p), Factorial<int, double>(n)};
    case 7: return {Gamma<double>(-1.)};                                        // refused
    case 8: return {Legendre_polynomial<int, double>(n, std::sin(x)), Legendre_polynomial_derivative<int, double>(n, std::sin(x))};
    case 9: return {Chebyshev_polynomial<int, double>(n, x), Chebyshev_polynomial_derivative<int, double>(n, x)};
    case 10: return {Normalize_0_360(40 * x), Normalize__PI_PI(40 * x), modulo2pi(40 * y), Normalize__180_180(90 * z), Normalize_0_2PI(x)};
    case 11: return {convert_velocity_unit(x, KNOT, KMH), convert_frequency(p, HERTZ, RPM), KNOT2MS(y), HZ2S(p)};
    case 12: { Eigen::Vector3d e(0.1 * x, 0.1 * y, 0.1 * z); auto q = eulerAnglesZYXToQuaternion(e); auto b = quaternionToEulerAnglesZYX(q); return {q.w(), q.x(), q.y(), q.z(), b(0), b(1), b(2)}; }
    case 13: { Eigen::Vector3d e(0.1 * x, 0.1 * y, 0.1 * z); Eigen::Matrix3d m = eulerAnglesZYXToRotationMatrix(e); auto q = RotationMatrixToQuaternion(m); return {m(0, 1), m(2, 0), q.w(), q.z()}; }
    case 14: return linspace<double>(x, x + p, n + 2);
    case 15: return logspace<double>(0.1 * x, 0.1 * (x + p), n + 2);
    case 16: return arange<double>(0, 1 + p, 0.5);
    case 17: return {Trapz(d), Sum(d)};
    case 18: return {Horner<double>(d, 0.1 * x), Horner_derivative<double>(d, 0.1 * x)};
    case 19: { mathutils::FFT<double> f; std::vector<std::complex<double>> F; Res v(d), b; v.resize(8, x); f.fft(F, v); f.ifft(b, F); Res r(b); r.push_back(F[1].real()); r.push_back(F[1].imag()); return r; }
    case 20: { Res r = Add(d, d); Res s = Sinc(d); r.insert(r.end(), s.begin(), s.end()); Res h = Heaviside(d, x); r.insert(r.end(), h.begin(), h.end()); return r; }
    case 21: { Integrate1d<double> i([](double t) { return t * t; }, 0., p, 33); i.SetIntegrationMethod(TRAPEZOIDAL); return {i.Get()}; }
    case 22: { boost::circular_buffer<double> b(4, 4, x); return {NaiveConvolution<double>(Res{1, 2, 3, y}, b, 0.5)}; }
    default: return {sgn(x), SgnSqrt(x), Saturate(x, -1., 1.), (double) IsClose<double>(x, y), (double) is_odd(n)}; } } };

static std::unique_ptr<Obj> make(const std::string &k, long m, const Res &x, const Res &y, const Res &v) { Obj *o = nullptr;
  if (k == "i1") o = new I1(m, x, v); else if (k == "i1c") o = new I1c(m, x, v); else if (k == "t1") o = new T1(m, x, v); else if (k == "i2") o = new I2(m, x, y, v); else if (k == "t2") o = new T2(m, x, y, v);
  else if (k == "g1") o = new GI<1>(x, v); else if (k == "g2") o = new GI<2>(x, v); else if (k == "g3") o = new GI<3>(x, v); else if (k == "n1") o = new GN<1>(x, v); else if (k == "n2") o = new GN<2>(x, v);
  else if (k == "p1") o = new P1(v); else if (k == "p2") o = new P2(v); else if (k == "p3") o = new P3(v); else if (k == "c1") o = new C1(v); else if (k == "c2") o = new C2(v); else if (k == "c3") o = new C3(v);
  else if (k == "sp") o = new Sp(x, v); else if (k == "tr") o = new Tr(m, v); else if (k == "mx") o = new Mx(v); else if (k == "vx") o = new Vx(v); else if (k == "fn") o = new Fn(v); else _exit(98);
  return std::unique_ptr<Obj>(o); }

struct Out { std::string r; };
struct Rec { long long b, e; long t, c; bool thrown; Res r; };
static std::string rj(const Rec &q) { return q.thrown ? std::string("[\"throw\"]") : js(q.r); }
struct W { std::map<long, std::unique_ptr<Obj>> o; std::vector<Call> calls; 
  static void one(const Call &f, Rec &q) { q.thrown = false; try { q.r = f(); } catch (...) { q.thrown = true; q.r.clear(); } } };
static long long now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Step fresh() {
  auto w = std::make_shared<W>();
  return [w](Args &a) {
    const std::string op = a.t[0]; Ev e(op);
    if (op == "obj") { long h = a.n(); std::string k = a.s(); long m = a.n(); auto x = a.dv(), y = a.dv(), v = a.dv(); e.f("h", h).f("kind", k); e.run([&] { w->o[h] = make(k, m, x, y, v); }); }
    else if (op == "def") { long h = a.n(), k = a.n(); double x = a.d(), y = a.d(), z = a.d(); Obj *o = w->o.at(h).get(); w->calls.push_back([=] { return o->call(k, x, y, z); }); e.f("c", (long) w->calls.size()).f("h", h); e.run([&] {}); }
    else if (op == "alone") { long c = a.n(); e.f("c", c); Rec q; e.run([&] { W::one(w->calls.at(c - 1), q); e.raw("r", rj(q)); }); }
    else if (op == "par") {           // par rounds T, then per thread the number of calls and the calls
      long rounds = a.n(), T = a.n(); std::vector<std::vector<long>> prog(T); for (auto &p : prog) { long n = a.n(); for (long i = 0; i < n; i++) p.push_back(a.n()); }
      e.f("threads", T).f("rounds", rounds);
      std::vector<std::vector<Rec>> log(T);
      for (long t = 0; t < T; t++) for (long i = 0; i < rounds * (long) prog[t].size(); i++) { Rec q; q.t = t + 1; q.c = prog[t][i % prog[t].size()]; log[t].push_back(q); }
      bool ok = e.run([&] {
        std::atomic<int> go{0}; std::vector<std::thread> th;
        for (long t = 0; t < T; t++) th.emplace_back([&, t] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < (int) T) {}
          for (auto &q : log[t]) { const Call &f = w->calls[q.c - 1]; q.b = now(); W::one(f, q); q.e = now(); } });
        for (auto &x : th) x.join(); });
      if (!ok) return;
      // one history: the calls' beginnings and ends in the order of their times
      std::vector<std::pair<std::pair<long long, int>, std::pair<const Rec *, bool>>> ev;
      for (auto &l : log) { long long last = 0; for (auto &q : l) { if (q.b <= last) q.b = last + 1; if (q.e <= q.b) q.e = q.b + 1; last = q.e; ev.push_back({{q.b, 0}, {&q, true}}); ev.push_back({{q.e, 1}, {&q, false}}); } }
      std::stable_sort(ev.begin(), ev.end(), [](auto &x, auto &y) { return x.first < y.first; });
      for (auto &x : ev) { const Rec &q = *x.second.first; Ev f(x.second.second ? "begin" : "end"); f.f("t", q.t).f("c", q.c); if (!x.second.second) f.raw("r", rj(q)); f.emit("ok"); } }
    else _exit(98);
  };
}
}  // namespace vdrv
DRV_MAIN(vdrv::fresh)
