// Conformance driver for the interpolation engines of thirdparty/linterp.h.
#include "drv.h"
#include <algorithm>
#include <memory>
#include <stdexcept>
#include "MathUtils/MathUtilsBoost.h"
namespace vdrv {
using namespace drv;

template<class T> using VV = std::vector<std::vector<T>>;
template<class T> struct Obj {
  virtual ~Obj() {}
  virtual void again(const VV<T> &grids, std::vector<T> &f) = 0;
  virtual T ask(const std::vector<T> &p) = 0;
  virtual std::vector<T> batch(const VV<T> &pts) = 0;
  virtual int find(int i, T x) = 0;
  virtual T vert(const std::vector<int> &cell, const std::vector<int> &v, bool bits) = 0;
};
// the arrays of coordinates as the constructors want them; they are gone after the call
template<class T> struct Grids {
  VV<T> g; std::vector<T *> p; std::vector<int> n;
  explicit Grids(const VV<T> &o) : g(o) { for (auto &v : g) { p.push_back(v.data()); n.push_back((int) v.size()); } }
  ~Grids() { for (auto &v : g) std::fill(v.begin(), v.end(), T(-77)); }
};
template<class G, class T, int N> struct E : Obj<T> {
  std::unique_ptr<G> g;
  E(const VV<T> &grids, std::vector<T> &f) { Grids<T> s(grids); g.reset(new G(s.p.begin(), s.n.begin(), f.data(), f.data() + f.size())); }
  void again(const VV<T> &grids, std::vector<T> &f) override { Grids<T> s(grids); g->init(s.p.begin(), s.n.begin(), f.data(), f.data() + f.size()); }
  T ask(const std::vector<T> &p) override { return g->interp(p.begin()); }
  std::vector<T> batch(const VV<T> &pts) override { std::vector<T> r(pts[0].size() + 1, T(-77)); g->interp_vec((int) pts[0].size(), pts.begin(), pts.end(), r.begin());
    if (r.back() != T(-77)) r.push_back(0); r.pop_back(); return r; }
  int find(int i, T x) override { return g->find_cell(i, x); }
  T vert(const std::vector<int> &cell, const std::vector<int> &v, bool bits) override {
    std::array<int, N> c, w; int b = 0; for (int i = 0; i < N; i++) { c[i] = cell[i]; w[i] = v[i]; b = 2 * b + v[i]; }
    return bits ? g->get_f_val(c, b) : g->get_f_val(c, w); }
};
template<class T, int N> Obj<T> *mk(const std::string &kind, bool cont, bool copy, const VV<T> &g, std::vector<T> &f) {
  if (kind == "S") {
    if (copy) { if (cont) return new E<InterpSimplex<N, T, true, true>, T, N>(g, f); return new E<InterpSimplex<N, T, true, false>, T, N>(g, f); }
    if (cont) return new E<InterpSimplex<N, T, false, true>, T, N>(g, f);
    return new E<InterpSimplex<N, T, false, false>, T, N>(g, f);
  }
  if (copy) { if (cont) return new E<InterpMultilinear<N, T, true, true>, T, N>(g, f); return new E<InterpMultilinear<N, T, true, false>, T, N>(g, f); }
  if (cont) return new E<InterpMultilinear<N, T, false, true>, T, N>(g, f);
  return new E<InterpMultilinear<N, T, false, false>, T, N>(g, f);
}
// the named engines, up to five axes
template<class T> Obj<T> *mk5(const std::string &kind, const VV<T> &g, std::vector<T> &f) {
  if (kind == "S") return new E<InterpSimplex<5, T>, T, 5>(g, f);
  return new E<InterpMultilinear<5, T>, T, 5>(g, f);
}
inline Obj<double> *named(const std::string &kind, const VV<double> &g, std::vector<double> &f) {
  switch (g.size() + (kind == "S" ? 10 : 0)) {
    case 1: return new E<NDInterpolator_1_ML, double, 1>(g, f); case 2: return new E<NDInterpolator_2_ML, double, 2>(g, f); case 3: return new E<NDInterpolator_3_ML, double, 3>(g, f);
    case 4: return new E<NDInterpolator_4_ML, double, 4>(g, f); case 5: return new E<NDInterpolator_5_ML, double, 5>(g, f);
    case 11: return new E<NDInterpolator_1_S, double, 1>(g, f); case 12: return new E<NDInterpolator_2_S, double, 2>(g, f); case 13: return new E<NDInterpolator_3_S, double, 3>(g, f);
    case 14: return new E<NDInterpolator_4_S, double, 4>(g, f); default: return new E<NDInterpolator_5_S, double, 5>(g, f); }
}
inline Obj<float> *named(const std::string &, const VV<float> &, std::vector<float> &) { return nullptr; }
struct World { virtual ~World() {} virtual void step(Args &a) = 0; };
template<class T> struct W : World {
  std::map<long, std::vector<T>> buf;
  std::map<long, std::unique_ptr<Obj<T>>> o;
  explicit W(const char *t) { Ev e("types"); e.f("t", t); e.run([&] {}); }
  VV<T> vv(Args &a) { VV<T> g(a.n()); for (auto &v : g) v = a.vec<T>(); return g; }
  void step(Args &a) override {
    std::string op = a.t[0];
    Ev e(op);
    if (op == "buf") { long k = a.n(); auto v = a.vec<T>(); e.f("k", k).f("v", v); e.run([&] { buf[k] = v; }); }
    else if (op == "poke") { long k = a.n(), i = a.n(); T x = a.get<T>(); e.f("k", k).f("i", i).f("x", x); e.run([&] { buf[k][i] = x; }); }
    else if (op == "mk") { long h = a.n(); std::string kind = a.s(); bool cont = a.n(), copy = a.n(); long k = a.n(); auto g = vv(a);
      e.f("h", h).f("kind", kind).f("cont", cont).f("copy", copy).f("k", k).f("grids", g); auto &f = buf[k];
      e.run([&] { Obj<T> *n = cont && copy && sizeof(T) == 8 ? named(kind, g, f) : g.size() == 5 ? mk5<T>(kind, g, f) : g.size() == 1 ? mk<T, 1>(kind, cont, copy, g, f) : g.size() == 2 ? mk<T, 2>(kind, cont, copy, g, f) : g.size() == 3 ? mk<T, 3>(kind, cont, copy, g, f) : mk<T, 4>(kind, cont, copy, g, f); o[h].reset(n); }); }
    else if (op == "again") { long h = a.n(), k = a.n(); auto g = vv(a); e.f("h", h).f("k", k).f("grids", g); auto &f = buf[k]; e.run([&] { o.at(h)->again(g, f); }); }
    else if (op == "drop") { long h = a.n(); e.f("h", h); e.run([&] { o.erase(h); }); }
    else if (op == "ask") { long h = a.n(); auto p = a.vec<T>(); e.f("h", h).f("p", p); e.run([&] { e.f("r", o.at(h)->ask(p)); }); }
    else if (op == "batch") { long h = a.n(); auto p = vv(a); e.f("h", h).f("pts", p); e.run([&] { e.f("r", o.at(h)->batch(p)); }); }
    else if (op == "find") { long h = a.n(), i = a.n(); T x = a.get<T>(); e.f("h", h).f("i", i).f("x", x); e.run([&] { e.f("r", o.at(h)->find((int) i, x)); }); }
    else if (op == "vert" || op == "vertb") { long h = a.n(); auto c = a.vec<int>(), v = a.vec<int>(); e.f("h", h).f("cell", c).f("v", v); e.run([&] { e.f("r", o.at(h)->vert(c, v, op == "vertb")); }); }
    else if (op == "onecall") { long k = a.n(); auto g = vv(a), p = vv(a); e.f("k", k).f("grids", g).f("pts", p);
      std::vector<double> f(buf[k].begin(), buf[k].end()), r(p[0].size()); VV<double> gd, pd; std::vector<double *> gp, pp; std::vector<int> n;
      for (auto &v : g) gd.push_back(std::vector<double>(v.begin(), v.end())); for (auto &v : p) pd.push_back(std::vector<double>(v.begin(), v.end()));
      for (auto &v : gd) { gp.push_back(v.data()); n.push_back((int) v.size()); } for (auto &v : pd) pp.push_back(v.data());
      e.run([&] { (g.size() == 1 ? linterp_simplex_1 : g.size() == 2 ? linterp_simplex_2 : linterp_simplex_3)(gp.data(), n.data(), f.data(), (int) r.size(), pp.data(), r.data()); e.f("r", r); }); }
    else if (op == "cube") { auto f = a.vec<T>(), x = a.vec<T>(); e.f("f", f).f("xi", x); e.run([&] { e.f("r", InterpMultilinear<2, T>::linterp_nd_unitcube(f.begin(), f.end(), x.begin(), x.end())); }); }
    else _exit(98);
  }
};
static Step fresh() {
  auto w = std::make_shared<std::unique_ptr<World>>();
  return [w](Args &a) { if (a.t[0] == "types") { if (a.s() == "f") w->reset(new W<float>("f")); else w->reset(new W<double>("d")); } else (*w)->step(a); };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
