// Conformance driver for power series and Chebyshev series (public interface only).
#include "drv.h"
#include "MathUtils/MathUtilsBoost.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;
typedef std::vector<std::vector<std::vector<double>>> Ten;   // [k][i][j]: k along z, i along x, j along y

static Ten tensor(Args &a) { int nk = a.n(), ni = a.n(), nj = a.n(); Ten t(nk, std::vector<std::vector<double>>(ni, std::vector<double>(nj)));
  for (auto &m : t) for (auto &r : m) for (auto &x : r) x = a.d(); return t; }
static MatrixMN<double> mat(const std::vector<std::vector<double>> &m) { MatrixMN<double> r(m.size(), m[0].size());
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) r(i, j) = m[i][j]; return r; }
static std::vector<std::vector<double>> unmat(const MatrixMN<double> &m) { std::vector<std::vector<double>> r(m.rows(), std::vector<double>(m.cols()));
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r[i][j] = m(i, j); return r; }
static VectorN<double> vec(const Ten &t) { VectorN<double> r(t[0].size()); for (size_t i = 0; i < t[0].size(); i++) r(i) = t[0][i][0]; return r; }
static std::vector<MatrixMN<double>> mats(const Ten &t) { std::vector<MatrixMN<double>> r; for (auto &m : t) r.push_back(mat(m)); return r; }

struct Axis { char k; double lo, hi;
  long double u(double x) const { return k == 'c' ? 2.0L * ((long double) x - 0.5L * ((long double) lo + hi)) / ((long double) hi - lo) : 1.0L - 2.0L * lo / (long double) x; } };
static std::string axj(const std::vector<Axis> &ax) { std::string o = "["; for (size_t i = 0; i < ax.size(); i++)
  o += (i ? "," : "") + std::string("{\"k\":\"") + ax[i].k + "\",\"lo\":" + js(ax[i].lo) + ",\"hi\":" + js(ax[i].hi) + "}"; return o + "]"; }
static std::vector<Axis> axes(Args &a) { std::string d = a.s(); std::vector<Axis> r; for (char c : d) { Axis x; x.k = c; x.lo = a.d(); x.hi = c == 'c' ? a.d() : 0; r.push_back(x); } return r; }
static std::string dom(const std::vector<Axis> &ax) { std::string s; for (auto &x : ax) s += x.k; return s; }

struct Fun { Ten c; std::vector<Axis> ax;
  double at(double x, double y, double z) const {
    auto T = [](int n, long double u) { std::vector<long double> t{1, u}; for (int i = 2; i <= n; i++) t.push_back(2 * u * t[i - 1] - t[i - 2]); return t; };
    auto tx = T(c[0].size(), ax[0].u(x)), ty = T(c[0][0].size(), ax.size() > 1 ? ax[1].u(y) : 0), tz = T(c.size(), ax.size() > 2 ? ax[2].u(z) : 0);
    long double r = 0;
    for (size_t k = 0; k < c.size(); k++) for (size_t i = 0; i < c[0].size(); i++) for (size_t j = 0; j < c[0][0].size(); j++) r += c[k][i][j] * tx[i] * ty[j] * tz[k];
    return (double) r; } };
struct F1 : Function1d<double>, Fun { double Evaluate(const double &x) const override { return at(x, 0, 0); } };
struct F2 : Function2d<double>, Fun { double Evaluate(const double &x, const double &y) const override { return at(x, y, 0); } };
struct F3 : Function3d<double>, Fun { double Evaluate(const double &x, const double &y, const double &z) const override { return at(x, y, z); } };

// The bases have no virtual destructor: objects are held by their own type.
struct PowS { std::vector<Axis> ax;
  std::shared_ptr<PowerSeries1dClosed<double>> c1; std::shared_ptr<PowerSeries1dOpened<double>> o1;
  std::shared_ptr<PowerSeries2dClosed<double>> c2; std::shared_ptr<PowerSeries2dOpened<double>> o2; std::shared_ptr<PowerSeries2dMixed<double>> m2;
  std::shared_ptr<PowerSeries3dClosed<double>> c3; std::shared_ptr<PowerSeries3dYZOpenedXClosed<double>> y3; std::shared_ptr<PowerSeries3dZOpenedXYClosed<double>> z3;
  PowerSeries1dBase<double> *b1() { return c1 ? (PowerSeries1dBase<double> *) c1.get() : o1.get(); }
  PowerSeries2dBase<double> *b2() { return c2 ? (PowerSeries2dBase<double> *) c2.get() : o2 ? (PowerSeries2dBase<double> *) o2.get() : m2.get(); }
  PowerSeries3dBase<double> *b3() { return c3 ? (PowerSeries3dBase<double> *) c3.get() : y3 ? (PowerSeries3dBase<double> *) y3.get() : z3.get(); }
  static PowS make(const std::vector<Axis> &x, const Ten &t) { PowS p; p.ax = x; std::string d = dom(x);
    if (d == "c") p.c1 = std::make_shared<PowerSeries1dClosed<double>>(vec(t), x[0].lo, x[0].hi);
    else if (d == "o") p.o1 = std::make_shared<PowerSeries1dOpened<double>>(vec(t), x[0].lo);
    else if (d == "cc") p.c2 = std::make_shared<PowerSeries2dClosed<double>>(mat(t[0]), x[0].lo, x[0].hi, x[1].lo, x[1].hi);
    else if (d == "oo") p.o2 = std::make_shared<PowerSeries2dOpened<double>>(mat(t[0]), x[0].lo, x[1].lo);
    else if (d == "co") p.m2 = std::make_shared<PowerSeries2dMixed<double>>(mat(t[0]), x[0].lo, x[0].hi, x[1].lo);
    else if (d == "ccc") p.c3 = std::make_shared<PowerSeries3dClosed<double>>(mats(t), x[0].lo, x[0].hi, x[1].lo, x[1].hi, x[2].lo, x[2].hi);
    else if (d == "coo") p.y3 = std::make_shared<PowerSeries3dYZOpenedXClosed<double>>(mats(t), x[0].lo, x[0].hi, x[1].lo, x[2].lo);
    else if (d == "cco") p.z3 = std::make_shared<PowerSeries3dZOpenedXYClosed<double>>(mats(t), x[0].lo, x[0].hi, x[1].lo, x[1].hi, x[2].lo);
    else _exit(98);
    return p; } };
struct ChebS { std::vector<Axis> ax; F1 f1; F2 f2; F3 f3;
  std::shared_ptr<ChebyshevSeries1dClosed<double>> c1; std::shared_ptr<ChebyshevSeries1dOpened<double>> o1;
  std::shared_ptr<ChebyshevSeries2dClosed<double>> c2; std::shared_ptr<ChebyshevSeries2dOpened<double>> o2; std::shared_ptr<ChebyshevSeries2dMixed<double>> m2;
  std::shared_ptr<ChebyshevSeries3dClosed<double>> c3; std::shared_ptr<ChebyshevSeries3dYZOpenedXClosed<double>> y3; std::shared_ptr<ChebyshevSeries3dZOpenedXYClosed<double>> z3;
  ChebyshevSeries1dBase<double> *b1() { return c1 ? (ChebyshevSeries1dBase<double> *) c1.get() : o1.get(); }
  ChebyshevSeries2dBase<double> *b2() { return c2 ? (ChebyshevSeries2dBase<double> *) c2.get() : o2 ? (ChebyshevSeries2dBase<double> *) o2.get() : m2.get(); }
  ChebyshevSeries3dBase<double> *b3() { return c3 ? (ChebyshevSeries3dBase<double> *) c3.get() : y3 ? (ChebyshevSeries3dBase<double> *) y3.get() : z3.get(); }
  void make(const std::vector<Axis> &x, const std::vector<int> &n, const Ten &t) { ax = x; std::string d = dom(x);
    f1.ax = f2.ax = f3.ax = x; f1.c = f2.c = f3.c = t;
    if (d == "c") c1 = std::make_shared<ChebyshevSeries1dClosed<double>>(&f1, x[0].lo, x[0].hi, n[0]);
    else if (d == "o") o1 = std::make_shared<ChebyshevSeries1dOpened<double>>(&f1, x[0].lo, n[0]);
    else if (d == "cc") c2 = std::make_shared<ChebyshevSeries2dClosed<double>>(&f2, x[0].lo, x[0].hi, x[1].lo, x[1].hi, n[0], n[1]);
    else if (d == "oo") o2 = std::make_shared<ChebyshevSeries2dOpened<double>>(&f2, x[0].lo, x[1].lo, n[0], n[1]);
    else if (d == "co") m2 = std::make_shared<ChebyshevSeries2dMixed<double>>(&f2, x[0].lo, x[0].hi, x[1].lo, n[0], n[1]);
    else if (d == "ccc") c3 = std::make_shared<ChebyshevSeries3dClosed<double>>(&f3, x[0].lo, x[0].hi, x[1].lo, x[1].hi, x[2].lo, x[2].hi, n[0], n[1], n[2]);
    else if (d == "coo") y3 = std::make_shared<ChebyshevSeries3dYZOpenedXClosed<double>>(&f3, x[0].lo, x[0].hi, x[1].lo, x[2].lo, n[0], n[1], n[2]);
    else if (d == "cco") z3 = std::make_shared<ChebyshevSeries3dZOpenedXYClosed<double>>(&f3, x[0].lo, x[0].hi, x[1].lo, x[1].hi, x[2].lo, n[0], n[1], n[2]);
    else _exit(98); }
  Ten b() { Ten r; if (ax.size() == 1) { auto v = b1()->Compute_bi(); r.resize(1); for (int i = 0; i < v.size(); i++) r[0].push_back({v(i)}); }
    else if (ax.size() == 2) r.push_back(unmat(b2()->Compute_bij()));
    else for (auto &m : b3()->Compute_bijk()) r.push_back(unmat(m));
    return r; } };

struct W { std::map<long, PowS> pw; std::map<long, std::shared_ptr<ChebS>> ch; std::map<long, MatrixMN<double>> cij; };

static Step fresh() {
  auto w = std::make_shared<W>();
  return [w](Args &a) {
    const std::string op = a.t[0]; Ev e(op);
    if (op == "pnew") { long h = a.n(); auto ax = axes(a); auto t = tensor(a); e.f("h", h).raw("ax", axj(ax)).f("b", t); e.run([&] { w->pw[h] = PowS::make(ax, t); }); }
    else if (op == "pval" || op == "pdx" || op == "pdy" || op == "pdz") { long h = a.n(); PowS &p = w->pw.at(h); std::vector<double> x; for (auto &k : p.ax) x.push_back(a.d());
      e.f("h", h).f("x", x);
      e.run([&] { double r; if (x.size() == 1) r = op == "pval" ? p.b1()->Evaluate(x[0]) : p.b1()->Evaluate_derivative_x(x[0]);
        else if (x.size() == 2) r = op == "pval" ? p.b2()->Evaluate(x[0], x[1]) : op == "pdx" ? p.b2()->Evaluate_derivative_x(x[0], x[1]) : p.b2()->Evaluate_derivative_y(x[0], x[1]);
        else r = op == "pval" ? p.b3()->Evaluate(x[0], x[1], x[2]) : op == "pdx" ? p.b3()->Evaluate_derivative_x(x[0], x[1], x[2]) :
             op == "pdy" ? p.b3()->Evaluate_derivative_y(x[0], x[1], x[2]) : p.b3()->Evaluate_derivative_z(x[0], x[1], x[2]);
        e.f("r", r); }); }
    else if (op == "pvalu") { long h = a.n(); PowS &p = w->pw.at(h); std::vector<double> x; for (auto &k : p.ax) x.push_back(a.d()); e.f("h", h).f("x", x);
      e.run([&] { e.f("r", x.size() == 1 ? p.b1()->Evaluate_unit(x[0]) : p.b2()->Evaluate_unit(x[0], x[1])); }); }
    else if (op == "pinf" || op == "pdxinf" || op == "pdyinf") { long h = a.n(); double x = a.d(), y = a.d(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("x", std::vector<double>{x, y});
      e.run([&] { e.f("r", op == "pinf" ? p->Evaluate_zinf(x, y) : op == "pdxinf" ? p->Evaluate_derivative_x_zinf(x, y) : p->Evaluate_derivative_y_zinf(x, y)); }); }
    else if (op == "pjoint") { long h = a.n(); double x = a.d(), y = a.d(), z = a.d(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("x", std::vector<double>{x, y, z});
      e.run([&] { double f = 7, fx = 7, fy = 7; p->Evaluate_f_dfdx_dfdy(x, y, z, f, fx, fy); e.f("r", std::vector<double>{f, fx, fy}); }); }
    else if (op == "pcij") { long h = a.n(), s = a.n(); double z = a.d(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("s", s).f("z", z);
      e.run([&] { w->cij[s] = p->Compute_cij(z); e.f("r", unmat(w->cij[s])); }); }
    else if (op == "pcijinf") { long h = a.n(), s = a.n(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("s", s);
      e.run([&] { w->cij[s] = p->Compute_cij_zinf(); e.f("r", unmat(w->cij[s])); }); }
    else if (op == "pvalz" || op == "pdxz" || op == "pdyz") { long h = a.n(), s = a.n(); double x = a.d(), y = a.d(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("s", s).f("x", std::vector<double>{x, y});
      auto &c = w->cij.at(s);
      e.run([&] { e.f("r", op == "pvalz" ? p->Evaluate_z_predefined(x, y, c) : op == "pdxz" ? p->Evaluate_derivative_x_z_predefined(x, y, c) : p->Evaluate_derivative_y_z_predefined(x, y, c)); }); }
    else if (op == "pjointz") { long h = a.n(), s = a.n(); double x = a.d(), y = a.d(); auto *p = w->pw.at(h).b3(); e.f("h", h).f("s", s).f("x", std::vector<double>{x, y});
      auto &c = w->cij.at(s);
      e.run([&] { double f = 7, fx = 7, fy = 7; p->Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, f, fx, fy); e.f("r", std::vector<double>{f, fx, fy}); }); }
    else if (op == "pparam") { long h = a.n(); PowS &q = w->pw.at(h); auto *p = q.b3(); e.f("h", h);
      e.run([&] { Ten t; for (auto &m : p->bijk()) t.push_back(unmat(m)); e.f("b", t).f("lo", std::vector<double>{p->xmin(), p->ymin(), p->zmin()}).f("n", std::vector<int>{p->order_x(), p->order_y(), p->order_z()});
        std::vector<double> hi; if (q.c3) hi = {q.c3->xmax(), q.c3->ymax(), q.c3->zmax()}; else if (q.y3) hi = {q.y3->xmax()}; else hi = {q.z3->xmax(), q.z3->ymax()};
        e.f("hi", hi).f("type", p->type()); }); }
    else if (op == "cnew") { long h = a.n(); auto ax = axes(a); std::vector<int> n; for (auto &k : ax) n.push_back(a.n()); auto t = tensor(a); e.f("h", h).raw("ax", axj(ax)).f("n", n).f("c", t);
      e.run([&] { auto c = std::make_shared<ChebS>(); c->make(ax, n, t); w->ch[h] = c; }); }
    else if (op == "ccomp") { long h = a.n(); e.f("h", h); auto &c = *w->ch.at(h);
      e.run([&] { if (c.ax.size() == 1) c.b1()->Compute_ai(); else if (c.ax.size() == 2) c.b2()->Compute_aij(); else c.b3()->Compute_aijk(); }); }
    else if (op == "cval" || op == "cdx" || op == "cdy" || op == "cdz") { long h = a.n(); auto &p = *w->ch.at(h); std::vector<double> x; for (auto &k : p.ax) x.push_back(a.d()); e.f("h", h).f("x", x);
      e.run([&] { double r; if (x.size() == 1) r = op == "cval" ? p.b1()->Evaluate(x[0]) : p.b1()->Evaluate_derivative_x(x[0]);
        else if (x.size() == 2) r = op == "cval" ? p.b2()->Evaluate(x[0], x[1]) : op == "cdx" ? p.b2()->Evaluate_derivative_x(x[0], x[1]) : p.b2()->Evaluate_derivative_y(x[0], x[1]);
        else r = op == "cval" ? p.b3()->Evaluate(x[0], x[1], x[2]) : op == "cdx" ? p.b3()->Evaluate_derivative_x(x[0], x[1], x[2]) :
             op == "cdy" ? p.b3()->Evaluate_derivative_y(x[0], x[1], x[2]) : p.b3()->Evaluate_derivative_z(x[0], x[1], x[2]);
        e.f("r", r); }); }
    else if (op == "cb") { long h = a.n(); e.f("h", h); e.run([&] { e.f("r", w->ch.at(h)->b()); }); }
    else if (op == "pfrom") { long h = a.n(), g = a.n(); e.f("h", h).f("from", g);
      e.run([&] { auto &c = *w->ch.at(g); auto t = c.b(); w->pw[h] = PowS::make(c.ax, t); e.f("b", t); }); }
    else _exit(98);
  };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
