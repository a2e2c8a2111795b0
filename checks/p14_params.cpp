// P14: parameter vectors over histories of set, get, value, Jacobian, bounds and save, on one and on two functions.
#include "models.h"
#include <sstream>
#include <cstring>
using namespace mdl;
static vec X(int in, int k) { static const Pair Q[3] = { { geo::sph(0.4,0.3), geo::sph(0.7,2.5) }, { geo::sph(1.1,-1), geo::sph(0.2,1) }, { V3{0,0,1}, geo::sph(0.9,3) } }; auto co = geo::from(in, Q[k]); vec x(geo::DIMS[in]); for(int i=0;i<x.size();++i) x[i] = co[i].v; return x; }
static bool eq(const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(int i=0;i<a.size();++i) if(!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
struct Subject { NF f; vec last; bool set; };
static void observe(mc::Ctx& c, const std::string& n, Subject& s, const std::function<NF()>& fresh, int in, const std::string& w, int np) {
  c.check(s.f->nbParameters() == np, n + " nbParameters", w); vec mn = s.f->getParametersMin(), mx = s.f->getParametersMax(); c.check(mn.size() == np && mx.size() == np, n + " bounds size", w + " " + std::to_string(mn.size()) + "," + std::to_string(mx.size()) + " not " + std::to_string(np));
  if(mn.size() == np && mx.size() == np) for(int i=0;i<np;++i) c.check(mn[i] <= mx[i], n + " bounds order", w);
  if(!s.set) return; vec p = s.f->parameters(); c.check(eq(p, s.last), n + " parameters", w + " are " + mc::vstr(p) + " not " + mc::vstr(s.last)); NF g = fresh(); g->setParameters(s.last);
  for(int k=0;k<3;++k) c.check(eq(s.f->value(X(in,k)), g->value(X(in,k))), n + " value depends on history", w);
}
static vec alt(const Model& m, int ny, int k) { std::vector<int> a; int n = m.np*m.lobes + m.extra; for(int i=0;i<n;++i) a.push_back((k + (k == 2 ? i : 0)) % m.alpha[i].size()); vec q = pvec(m, ny, a); if(k == 2) for(int i=0;i<q.size();++i) q[i] *= 1.0 + 1e-3*i; return q; }
static void run(mc::Ctx& c, const std::string& n, const std::function<NF()>& fresh, const std::function<vec(int)>& sets, int in, int np, int len) {
  c.tag(n); Subject s[2]; for(int k=0;k<2;++k) { s[k].f = fresh(); s[k].set = false; if(!c.check((bool)s[k].f, "missing " + n, "")) return; } std::string w = n; uint64_t h = mc::hstr(n);
  for(int t=0;t<len;++t) { int op = c.pick(7, "op"); Subject& u = s[op == 6 ? 1 : 0]; vec mn0 = u.f->min(), mx0 = u.f->max();
    if(op < 3) { u.last = sets(op); u.f->setParameters(u.last); u.set = true; w += " set" + std::to_string(op); }
    else if(op == 3) { if(u.set) for(int k=0;k<3;++k) u.f->value(X(in,k)); w += " value"; }
    else if(op == 4) { if(u.set) for(int k=0;k<3;++k) u.f->parametersJacobian(X(in,k)); w += " jacobian"; }
    else if(op == 5) { if(u.set) { std::ostringstream o; u.f->save_call(o, arguments()); u.f->parameters(); u.f->getParametersMin(); u.f->getParametersMax(); } w += " save"; }
    else { u.last = sets(1); u.f->setParameters(u.last); u.set = true; w += " other"; }
    for(int k=0;k<2;++k) observe(c, n, s[k], fresh, in, w, np); c.check(eq(u.f->min(), mn0) && eq(u.f->max(), mx0), n + " domain changed", w); h = mc::mix(h, op); c.state(h); }
  if(s[0].set) { vec v = s[0].f->value(X(in,0)); for(int i=0;i<v.size();++i) c.outcome(v[i]); } c.outcome(n);
}
static void scen_models(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, 0), ny = 1 + c.pick(3, "channels"); int np = count(m, ny);
  run(c, m.name, [&]() { return make(m, ny, in); }, [&](int k) { return alt(m, ny, k); }, in, np, c.thorough ? 5 : 3);
}
static void scen_combined(mc::Ctx& c) {
  static const std::vector<int> PICK{ 0, 3, 8, 14, 17, 20 }; bool prod = c.flag("product"); int n = prod ? 2 : 1 + c.pick(c.thorough ? 3 : 2, "parts"), ny = c.flag("channels") ? 3 : 1; std::vector<int> id; std::vector<bool> fx; int np = 0; std::string name = prod ? "product" : "compound";
  for(int k=0;k<n;++k) { id.push_back(c.of(PICK, "part")); fx.push_back(c.flag("fixed")); if(!fx[k]) np += count(models()[id[k]], ny); }
  auto fresh = [&]() -> NF { std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as; for(int k=0;k<n;++k) { const Model& m = models()[id[k]]; NF f = make(m, ny, input(m,0)); if(!f) return NF(); f->setParameters(alt(m, ny, 0)); fs.push_back(f); as.push_back(arguments::create_arguments(fx[k] ? "--fixed" : "--free")); }
    if(prod) return NF(new product_function(fs[0], fs[1], fx[0], fx[1])); return NF(new compound_function(fs, as)); };
  auto sets = [&](int v) { std::vector<double> q; for(int k=0;k<n;++k) if(!fx[k]) { vec p = alt(models()[id[k]], ny, v); for(int i=0;i<p.size();++i) q.push_back(p[i]); } vec r(q.size()); for(size_t i=0;i<q.size();++i) r[i] = q[i]; return r; };
  NF f = fresh(); if(!c.check((bool)f, "missing part", "")) return; int in = -1; for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == f->parametrization().input_parametrization()) in = k; if(!c.check(in >= 0, "no parametrization", "")) return;
  run(c, name, fresh, sets, in, np, 2);
}
// --bootstrap [p1, p2, ...] sets the parameter vector
static void scen_bootstrap(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(std::string("bootstrap ") + m.name); int in = input(m, 0), ny = 1 + c.pick(2, "channels"), k = c.pick(3, "set"); NF f = make(m, ny, in); if(!c.check((bool)f, "missing", m.name)) return; vec q = alt(m, ny, k);
  std::ostringstream o; o.precision(17); o << "--bootstrap [" ; for(int i=0;i<q.size();++i) o << (i ? ", " : "") << q[i]; o << "]"; ptr<data> d = tiny(f->parametrization().dimX(), ny, f->parametrization().input_parametrization(), 0.5);
  f->nonlinear_function::bootstrap(d, arguments::create_arguments(o.str())); c.check(eq(f->parameters(), q), std::string("bootstrap ") + m.name, o.str() + " gives " + mc::vstr(f->parameters())); c.state(o.str()); c.outcome(o.str());
}
// any vector of numbers is kept as it is, however the function was bootstrapped before
static void scen_faithful(mc::Ctx& c) {
  static const char* BOOT[] = { "", "--isotropic", "--lobes 3", "--sg-type moment", "--sg-type back", "--retro", "--lobes 2", "--cos-fit" };
  int nm = (int)models().size(), id = c.pick(nm + 1, "model"), ny = 1 + c.pick(3, "channels"); std::string n = id < nm ? models()[id].name : "diffuse"; c.tag("faithful " + n); int in = id < nm ? input(models()[id], 0) : CART;
  NF f = id < nm ? make(models()[id], ny, in) : dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function("nonlinear_function_diffuse", parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); if(!c.check((bool)f, "missing", n)) return;
  int b1 = c.pick(8, "bootstrap"), b2 = c.pick(c.thorough ? 8 : 3, "second bootstrap"); for(int b : { b1, b2 }) if(BOOT[b][0]) f->bootstrap(tiny(f->parametrization().dimX(), ny, f->parametrization().input_parametrization(), 0.25), arguments::create_arguments(BOOT[b]));
  int np = f->nbParameters(), v = c.pick(6 + 2*np, "values"); vec p(np); static const double W[] = { 0.0, -0.0, 5e-324, 1e-300, 1e300, -1e300, 3.7, -2.5, 1.0, 12.25, 1e17 };
  for(int i=0;i<np;++i) p[i] = v == 0 ? 0.0 : v == 1 ? -1.5 - 0.25*i : v == 2 ? 0.37*(i + 1) : v == 3 ? W[i % 11] : v == 4 ? W[(i*3 + 4) % 11] : v == 5 ? 1e4*(np - i) : (v - 6)/2 == i ? (v % 2 ? -7.75 : 1e6) : 0.5 + i;
  std::string w = n + " " + BOOT[b1] + " " + BOOT[b2] + " set to " + mc::vstr(p); f->setParameters(p); vec r = f->parameters(); bool same = r.size() == p.size(); for(int i=0;same && i<np;++i) same = memcmp(&r[i], &p[i], 8) == 0;
  c.check(same, n + " keeps its parameters", w + " gives " + mc::vstr(r)); c.check(f->nbParameters() == np && f->getParametersMin().size() == np && f->getParametersMax().size() == np, n + " sizes", w); c.check(eq(f->parameters(), r), n + " bounds change the parameters", w); c.state(w); c.outcome(w);
}
// many channels, many lobes, many parts
static void scen_wide(mc::Ctx& c) { const Model& m = wide()[c.pick((int)wide().size(), "model")]; int in = input(m, 0), ny = c.of(CHANNELS, "channels"); run(c, m.name, [&]() { return make(m, ny, in); }, [&](int k) { return alt(m, ny, k); }, in, count(m, ny), c.thorough ? 3 : 2); }
static void scen_many(mc::Ctx& c) {
  static const std::vector<int> PICK{ 0, 1, 8, 14, 17, 3, 7, 20, 4 }; int n = 3 + c.pick(c.thorough ? 5 : 4, "parts"), first = c.pick(3, "first"), pat = c.pick(1 << n, "fixed"), ny = c.flag("channels") ? 3 : 1; std::vector<int> id; int np = 0; for(int k=0;k<n;++k) { id.push_back(PICK[(2*first + k*(1 + first)) % PICK.size()]); if(!(pat >> k & 1)) np += count(models()[id[k]], ny); }
  auto fresh = [&]() -> NF { std::vector<NF> fs; std::vector<arguments> as; for(int k=0;k<n;++k) { const Model& m = models()[id[k]]; NF f = make(m, ny, input(m,0)); if(!f) return NF(); f->setParameters(alt(m, ny, 0)); fs.push_back(f); as.push_back(arguments::create_arguments(pat >> k & 1 ? "--fixed" : "--free")); } return NF(new compound_function(fs, as)); };
  auto sets = [&](int v) { std::vector<double> q; for(int k=0;k<n;++k) if(!(pat >> k & 1)) { vec p = alt(models()[id[k]], ny, v); for(int i=0;i<p.size();++i) q.push_back(p[i]*(1 + 0.001*k)); } vec r(q.size()); for(size_t i=0;i<q.size();++i) r[i] = q[i]; return r; };
  NF f = fresh(); if(!c.check((bool)f, "missing part", "")) return; int in = -1; for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == f->parametrization().input_parametrization()) in = k; run(c, "compound", fresh, sets, in, np, 2); }
MC_MAIN({"wide", scen_wide, 3, 20}, {"many", scen_many, 3, 20}, {"models", scen_models, 4, 20}, {"combined", scen_combined, 4, 20}, {"bootstrap", scen_bootstrap, 2, 20}, {"faithful", scen_faithful, 2, 20})
