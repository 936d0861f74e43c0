// Conformance driver for RegularGridInterpolator and RegularGridNearest.
#include "drv.h"
#include "MathUtils/MathUtilsBoost.h"
namespace vdrv {
using namespace mathutils;
using namespace drv;

struct Obj { virtual ~Obj() {} virtual void step(const std::string &op, Ev &e, Args &a) = 0; virtual Obj *copy() const = 0; virtual void assign(const Obj &o) = 0; };

template<class T, size_t D> boost::multi_array<T, D> mkarray(const std::vector<size_t> &sh, const std::vector<T> &flat, bool fortran) {
  boost::array<size_t, D> ext; for (size_t i = 0; i < D; i++) ext[i] = sh[i];
  if (!fortran) { boost::multi_array<T, D> m(ext); std::copy(flat.begin(), flat.end(), m.data()); return m; }
  // the same logical array, stored the other way round
  boost::multi_array<T, D> f(ext, boost::fortran_storage_order());
  size_t n = flat.size();
  for (size_t k = 0; k < n; k++) { boost::array<size_t, D> ix; size_t r = k; for (size_t i = D; i-- > 0;) { ix[i] = r % sh[i]; r /= sh[i]; } f(ix) = flat[k]; }
  return f;
}
template<class T, size_t D> std::array<T, D> pt(const std::vector<T> &v) { std::array<T, D> p; for (size_t i = 0; i < D; i++) p[i] = v[i]; return p; }

template<class R, size_t D> struct I : Obj {
  using G = RegularGridInterpolator<R, D>;
  std::unique_ptr<G> g;
  I() : g(new G()) {}
  Obj *copy() const override { I *n = new I(); n->g.reset(new G(*g)); return n; }
  void assign(const Obj &o) override { *g = *dynamic_cast<const I &>(o).g; }
  void step(const std::string &op, Ev &e, Args &a) override {
    if (op == "coord") { auto v = a.vec<R>(); e.f("v", v); e.run([&] { g->AddCoord(v); }); }
    else if (op == "var") { bool ft = a.n(); std::vector<size_t> sh; for (int v : a.vec<int>()) sh.push_back(v); auto d = a.vec<R>();
      auto m = mkarray<R, D>(sh, d, ft); e.f("shape", sh).f("data", d); e.run([&] { g->AddVar(m); }); }
    else if (op == "getcoord") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", g->GetCoord(i)); }); }
    else if (op == "limits") { unsigned i = a.n(); e.f("i", i); e.run([&] { R lo = g->GetCoordMinVal(i), hi = g->GetCoordMaxVal(i); e.f("lo", lo).f("hi", hi); }); }
    else if (op == "first") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", g->GetCoordMinVal(i)); }); }
    else if (op == "last") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", g->GetCoordMaxVal(i)); }); }
    else if (op == "dim") { e.run([&] { e.f("r", g->GetDimension()); }); }
    else if (op == "valid") { e.run([&] { e.f("r", g->IsValid()); }); }
    else if (op == "interp") { auto p = a.vec<R>(); e.f("p", p); auto q = pt<R, D>(p); e.run([&] { e.f("r", g->Interp(q)); }); }
    else if (op == "interpc") { bool c = a.n(); auto p = a.vec<R>(); e.f("check", c).f("p", p); auto q = pt<R, D>(p); e.run([&] { e.f("r", g->Interp(q, c)); }); }
    else if (op == "at") { auto v = a.vec<int>(); std::array<size_t, D> ix; for (size_t i = 0; i < D; i++) ix[i] = v[i]; e.f("ix", v); e.run([&] { e.f("r", g->EvalAtIndice(ix)); }); }
    else _exit(98);
  }
};

// data of class type: a number held on the heap
struct Box { std::string s; Box() {} Box(double x) : s("a number kept out of the small buffer: " + std::to_string(x)) {} explicit operator double() const { return s.empty() ? 0. / 0. : std::stod(s.substr(s.find(':') + 1)); } };
// coordinates of any arithmetic type, logged as doubles
template<class C> std::vector<C> cvec(Args &a) { auto d = a.vec<double>(); return std::vector<C>(d.begin(), d.end()); }
template<class C> std::vector<double> dv(const std::vector<C> &v) { return std::vector<double>(v.begin(), v.end()); }
template<class T, size_t D, class C> std::string nodej(const GridNode<T, D, C> &n) {
  std::vector<size_t> ix; std::vector<C> co; auto i = n.indices(); auto c = n.coords();
  for (size_t k = 0; k < D; k++) { ix.push_back(i[k]); co.push_back(c[k]); }
  return "{\"ix\":" + js(ix) + ",\"co\":" + js(dv(co)) + ",\"val\":" + js((double) n.val()) + "}";
}
template<class T, size_t D, class C> struct N : Obj {
  using G = RegularGridNearest<T, D, C>;
  std::unique_ptr<G> g;
  N() : g(new G()) {}
  Obj *copy() const override { N *n = new N(); n->g.reset(new G(*g)); return n; }
  void assign(const Obj &o) override { *g = *dynamic_cast<const N &>(o).g; }
  void step(const std::string &op, Ev &e, Args &a) override {
    if (op == "coord") { auto v = cvec<C>(a); e.f("v", dv(v)); e.run([&] { g->AddCoord(v); }); }
    else if (op == "var") { bool ft = a.n(); std::vector<size_t> sh; for (int v : a.vec<int>()) sh.push_back(v); auto dd = a.vec<double>();
      std::vector<T> d(dd.begin(), dd.end()); auto m = mkarray<T, D>(sh, d, ft); std::vector<double> lg; for (auto &x : d) lg.push_back((double) x);
      e.f("shape", sh).f("data", lg); e.run([&] { g->AddVar(m); }); }
    else if (op == "getcoord") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", dv(g->GetCoord(i))); }); }
    else if (op == "limits") { unsigned i = a.n(); e.f("i", i); e.run([&] { C lo = g->GetCoordMinVal(i), hi = g->GetCoordMaxVal(i); e.f("lo", (double) lo).f("hi", (double) hi); }); }
    else if (op == "first") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", (double) g->GetCoordMinVal(i)); }); }
    else if (op == "last") { unsigned i = a.n(); e.f("i", i); e.run([&] { e.f("r", (double) g->GetCoordMaxVal(i)); }); }
    else if (op == "dim") { e.run([&] { e.f("r", g->GetDimension()); }); }
    else if (op == "valid") { e.run([&] { e.f("r", g->IsValid()); }); }
    else if (op == "nearest") { auto p = cvec<C>(a); e.f("p", dv(p)); auto q = pt<C, D>(p); e.run([&] { e.raw("r", nodej<T, D, C>(g->Nearest(q))); }); }
    else if (op == "data") { auto p = cvec<C>(a); e.f("p", dv(p)); auto q = pt<C, D>(p); e.run([&] { e.f("r", (double) g->GetData(q)); }); }
    else if (op == "around") { auto p = cvec<C>(a); e.f("p", dv(p)); auto q = pt<C, D>(p);
      e.run([&] { auto v = g->GetSurroundingGridNodes(q); std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += nodej<T, D, C>(v[i]); } e.raw("r", o + "]"); }); }
    else _exit(98);
  }
};

template<template<size_t> class F> Obj *bydim(long d) { return d == 1 ? F<1>::mk() : d == 2 ? F<2>::mk() : d == 3 ? F<3>::mk() : F<4>::mk(); }
template<size_t D> struct ID { static Obj *mk() { return new I<double, D>(); } };
template<size_t D> struct IF { static Obj *mk() { return new I<float, D>(); } };
template<size_t D> struct ND { static Obj *mk() { return new N<double, D, double>(); } };
template<size_t D> struct NI { static Obj *mk() { return new N<int, D, double>(); } };
template<size_t D> struct NK { static Obj *mk() { return new N<Box, D, int>(); } };
template<size_t D> struct NF { static Obj *mk() { return new N<int, D, float>(); } };

static Step fresh() {
  auto objs = std::make_shared<std::map<long, std::unique_ptr<Obj>>>();
  return [objs](Args &a) {
    auto &o = *objs;
    std::string op = a.t[0]; long h = a.n();
    Ev e(op); e.f("h", h);
    if (op == "new") { std::string k = a.s(); long d = a.n(); e.f("kind", k).f("d", d);
      e.run([&] { o[h].reset(k == "id" ? bydim<ID>(d) : k == "if" ? bydim<IF>(d) : k == "nd" ? bydim<ND>(d) : k == "ni" ? bydim<NI>(d) : k == "nk" ? bydim<NK>(d) : bydim<NF>(d)); }); }
    else if (op == "copy") { long g = a.n(); e.f("from", g); e.run([&] { std::unique_ptr<Obj> c(o.at(g)->copy()); o[h] = std::move(c); }); }
    else if (op == "assign") { long g = a.n(); e.f("from", g); e.run([&] { o.at(h)->assign(*o.at(g)); }); }
    else if (op == "del") { e.run([&] { o.erase(h); }); }
    else o.at(h)->step(op, e, a);
  };
}
}  // namespace vdrv: a name added to the library never clashes with one of ours
DRV_MAIN(vdrv::fresh)
