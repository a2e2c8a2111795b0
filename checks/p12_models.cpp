// P12: every analytic model against its published formula.
#include "models.h"
using namespace mdl;
static void compare(mc::Ctx& c, const Model& m, nonlinear_function& f, int ny, const vec& q, const Pair& p, int in, const std::string& w, bool positive) {
  if(p.v.z + p.l.z < 0.01) return;                 // the library requires a half vector above the horizon
  int nx = geo::DIMS[in]; vec x(nx); auto co = geo::from(in, p); for(int k=0;k<nx;++k) x[k] = co[k].v;
  Pair pp = nx >= 3 ? geo::to(in, &x[0]) : p; vec v = f.value(x), v2 = f(x); if(!c.check(v.size() == ny && v2.size() == ny, std::string("size ") + m.name, w)) return;
  for(int i=0;i<ny;++i) { double e = oracle(m, ny, i, q, pp, &x[0]); std::string ww = w + " channel " + std::to_string(i) + " at " + geo::ps(p); c.outcome(e); c.state(mc::mix(mc::hdbl(e), mc::hstr(w)));
    if(positive) { c.check(std::isfinite(v[i]), std::string(m.name) + " not finite", ww + " " + mc::dstr(v[i])); c.check(!(v[i] < 0), std::string(m.name) + " negative", ww + " " + mc::dstr(v[i])); }
    if(!std::isfinite(e) || e == -1) continue;
    c.check(mc::close(v[i], e, m.tol, 1e-12), std::string(m.name) + " value", ww + " is " + mc::dstr(v[i]) + " not " + mc::dstr(e));
    c.check(v[i] == v2[i] || v[i] != v[i], std::string(m.name) + " operator()", ww); }
}
static void scen_values(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), ny = 1 + 2*c.pick(2, "channels");
  std::vector<int> a = choose(c, m); const auto& D = dirs(c.thorough || m.np < 5); bool cart = geo::DIMS[in] == 6;
  int iv = c.pick((int)(D.size() + (cart && !m.upper ? low().size() : 0)), "view"); V3 v = iv < (int)D.size() ? D[iv] : low()[iv - D.size()];
  NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q = pvec(m, ny, a);
  if(!c.check(f->nbParameters() == count(m, ny), std::string("parameter count ") + m.name, "")) return; f->setParameters(q); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in];
  c.check(f->parametrization().dimX() == geo::DIMS[in] && f->parametrization().dimY() == ny && f->parametrization().input_parametrization() == geo::ALL[in], std::string("parametrization ") + m.name, w);
  for(size_t k=0;k<D.size();++k) compare(c, m, *f, ny, q, Pair{v, D[k]}, in, w, iv < (int)D.size());
  if(cart && !m.upper) for(auto& l : low()) compare(c, m, *f, ny, q, Pair{v, l}, in, w, false);
  if(cart && iv < (int)D.size()) { compare(c, m, *f, ny, q, Pair{v, v}, in, w, true); compare(c, m, *f, ny, q, Pair{v, V3{-v.x,-v.y,v.z}}, in, w, true); }
  if(m.in == CART && m.upper && m.plugin != std::string("nonlinear_shadowing_schlick") && m.plugin != std::string("nonlinear_shadowing_smith")) for(auto& l : low()) if(iv < (int)D.size()) compare(c, m, *f, ny, q, Pair{v, l}, in, w, false);   // zero below the horizon
}
// every angle and every parameter through its whole range in small steps: no threshold in between changes the formula
static void scen_sweep(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), axis = c.pick(axes(m), "axis"), base = c.pick(4, "direction"), b = c.pick(2, "parameters"), ny = 1 + 2*c.pick(2, "channels"); int n = m.np*m.lobes + m.extra; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = b % m.alpha[k].size();
  NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q0 = pvec(m, ny, a); std::vector<double> over; Pair p; int N = c.thorough ? 720 : 90;
  for(int s=0;s<=N;++s) { sweep(m, axis, base, s/double(N), p, over); vec q = with(m, ny, q0, over); f->setParameters(q); compare(c, m, *f, ny, q, p, in, std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in], axis < 5); }
}
// two of them at once
static void scen_grid(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, 0), n = m.np*m.lobes + m.extra, A = 5 + std::min(n, 6), a1 = c.pick(A, "axis"), a2 = c.pick(A, "second axis"); if(a2 <= a1) { c.trivial = true; return; } int base = c.pick(c.thorough ? 4 : 2, "direction"), b = c.pick(2, "parameters"); if(n > 6 && a1 >= 5) a1 = 5 + (a1 - 5 + base*5) % n; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = b % m.alpha[k].size();
  NF f = make(m, 1, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q0 = pvec(m, 1, a); std::vector<double> over; Pair p; int N = c.thorough ? 100 : 36;
  for(int s=0;s<=N;++s) for(int t=0;t<=N;++t) { sweep(m, a1, base, s/double(N), p, over, a2, t/double(N)); vec q = with(m, 1, q0, over); f->setParameters(q); compare(c, m, *f, 1, q, p, in, std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in], a2 < 5); }
}
// many channels and lobes
static void scen_wide(mc::Ctx& c) {
  const Model& m = wide()[c.pick((int)wide().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), ny = c.of(CHANNELS, "channels"); std::vector<int> a = choose(c, m); const auto& D = dirs(false); NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q = pvec(m, ny, a);
  if(!c.check(f->nbParameters() == count(m, ny), std::string("parameter count ") + m.name, "")) return; f->setParameters(q); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in]; for(size_t k=0;k<D.size();k+=3) for(size_t l=0;l<D.size();l+=2) compare(c, m, *f, ny, q, Pair{D[k], D[l]}, in, w, true);
}
// one parameter far from its usual size, or at an end of its range
static void scen_far(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), n = m.np*m.lobes + m.extra, k = c.pick(n, "parameter"), b = c.pick(2, "parameters"), ny = 1 + 2*c.pick(2, "channels"); static const std::vector<double> F{ 1e-9, 1e-6, 1e-3, 1e-2, 1e2, 1e3, 1e6, 0, 1 }; int z = c.pick((int)F.size(), "factor"); if(k > 0 || m.alpha[0] != SC) { if(z < 3 || z == 5 || z == 6 || (z == 4 && m.value == f_yoo) || (z == 7 && (m.np == 11))) { c.trivial = true; return; } } std::vector<int> a(n); for(int j=0;j<n;++j) a[j] = b % m.alpha[j].size();
  NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q = pvec(m, ny, a); int t = m.np*m.lobes; for(int i=0;i<(k < t ? ny : 1);++i) { double& x = q[k < t ? index(m, ny, i, k) : t*ny + k - t]; x = z < 7 ? x*F[z] : F[z]; }
  f->setParameters(q); const auto& D = dirs(c.thorough); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in]; for(auto& v : D) for(auto& l : D) compare(c, m, *f, ny, q, Pair{v,l}, in, w, false);
}
// one dimensional models over their whole variable, both ends and outside
static void scen_onedim(mc::Ctx& c) {
  static const char* N[] = { "blinn", "retroblinn", "abc" }; int k = c.pick(3, "model"); const Model* mp = 0; for(auto& m : models()) if(m.name == std::string(N[k])) mp = &m; const Model& m = *mp; c.tag(m.name);
  int in = input(m, c.pick(inputs(m), "input")), ny = 1 + c.pick(3, "channels"); std::vector<int> a = choose(c, m); NF f = make(m, ny, in); if(!c.check((bool)f, "missing", m.name)) return; vec q = pvec(m, ny, a); f->setParameters(q);
  for(int s=-4;s<=20;++s) { vec x(1); x[0] = s/20.0; vec v = f->value(x); for(int i=0;i<ny;++i) { double e = oracle(m, ny, i, q, Pair(), &x[0]); std::string w = std::string(m.name) + " " + mc::vstr(q) + " channel " + std::to_string(i) + " at " + mc::dstr(x[0]);
    c.check(std::isfinite(v[i]) && v[i] >= 0, std::string(m.name) + " not a reflectance", w); c.check(mc::close(v[i], e, 1e-9, 1e-12), std::string(m.name) + " value", w + " is " + mc::dstr(v[i]) + " not " + mc::dstr(e)); c.state(mc::mix(mc::hdbl(e), s)); c.outcome(e); } }
}
// the diffuse term: constant per channel, from a file or the smallest (cosine corrected) value of the data
static void scen_diffuse(mc::Ctx& c) {
  int ny = 1 + c.pick(3, "channels"), how = c.pick(4, "how"); c.tag("diffuse"); static const std::vector<double> V{ 0.3, 1.7, 0.05 };
  ptr<nonlinear_function> f = dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string("nonlinear_function_diffuse"), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); if(!c.check((bool)f, "missing diffuse", "")) return;
  std::vector<double> e(ny, 1e300);
  if(how == 0) { std::ostringstream o; o.precision(17); o << "#FUNC nonlinear_function_diffuse\n"; for(int i=0;i<ny;++i) { e[i] = c.of(V, "kd"); o << "kd " << e[i] << "\n"; } std::istringstream in(o.str()); c.check(f->load(in), "diffuse load", ""); }
  else { params::output out = how == 2 ? params::INV_STERADIAN_COSINE_FACTOR : params::INV_STERADIAN; bool cosw = how >= 2; int n = 1 + c.pick(3, "samples"); ptr<data> d(new vertical_segment(parameters(6, ny, params::CARTESIAN, out), (unsigned)n));
    for(int s=0;s<n;++s) { int id = c.pick(3, "dir"); Pair p{geo::sph(0.3 + 0.3*id, 0.4*s), geo::sph(1.0 - 0.2*id, 2.0)}; vec r(6+ny); double X[6] = { p.v.x,p.v.y,p.v.z,p.l.x,p.l.y,p.l.z }; for(int k=0;k<6;++k) r[k] = X[k]; int b = c.pick(3, "y"); for(int i=0;i<ny;++i) { r[6+i] = V[(b+i)%3]; e[i] = std::min(e[i], r[6+i] / (cosw ? p.v.z*p.l.z : 1)); } d->set(s, r); }
    f->bootstrap(d, arguments::create_arguments(how == 3 ? "--cos-fit" : "")); }
  for(auto& v : dirs(false)) for(auto& l : dirs(false)) { vec x(6); x << v.x,v.y,v.z,l.x,l.y,l.z; vec r = f->value(x); if(!c.check(r.size() == ny, "diffuse size", "")) return; for(int i=0;i<ny;++i) c.check(mc::close(r[i], e[i], 1e-12, 0), "diffuse value", "how " + std::to_string(how) + " channel " + std::to_string(i) + " " + mc::dstr(r[i]) + " not " + mc::dstr(e[i])); }
  for(double d : e) { c.state(mc::hdbl(d)); c.outcome(d); }
}
// the diffuse term of a Lafortune function is the smallest value of the data it is bootstrapped from, and adds to the lobes
static void scen_lafdiffuse(mc::Ctx& c) {
  const Model* mp = 0; int two = c.pick(2, "lobes"); for(auto& m : models()) if(m.name == std::string(two ? "lafortune 2 lobes" : "lafortune")) mp = &m; const Model& m = *mp; int ny = 1 + 2*c.pick(2, "channels"); c.tag("lafortune diffuse"); NF f = make(m, ny, CART); if(!c.check((bool)f, "missing", m.name)) return;
  static const std::vector<double> V{ 0.3, 1.7, 0.05 }; int n = 1 + c.pick(3, "samples"); ptr<data> d(new vertical_segment(parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN), (unsigned)n)); std::vector<double> kd(ny, 1e300);
  for(int s=0;s<n;++s) { vec r(6+ny); r << 0,0,1,0,0,1, vec::Zero(ny); int b = c.pick(3,"y"); for(int i=0;i<ny;++i) { r[6+i] = V[(b+i)%3]; kd[i] = std::min(kd[i], r[6+i]); } d->set(s, r); }
  f->bootstrap(d, arguments::create_arguments(m.boot)); vec q = pvec(m, ny, std::vector<int>(m.np*m.lobes, c.pick(2,"p"))); if(!c.check(f->nbParameters() == q.size(), "lafortune parameter count", "")) return; f->setParameters(q);
  for(auto& v : dirs(false)) for(auto& l : dirs(false)) { vec x(6); x << v.x,v.y,v.z,l.x,l.y,l.z; vec r = f->value(x); for(int i=0;i<ny;++i) { double e = kd[i] + oracle(m, ny, i, q, Pair{v,l}, &x[0]); c.check(mc::close(r[i], e, 1e-9, 0), "lafortune diffuse", mc::dstr(r[i]) + " not " + mc::dstr(e)); c.state(mc::hdbl(e)); c.outcome(e); } }
}
MC_MAIN({"values", scen_values, 4, 20}, {"sweep", scen_sweep, 4, 60}, {"grid", scen_grid, 3, 60}, {"wide", scen_wide, 3, 60}, {"far", scen_far, 4, 20}, {"onedim", scen_onedim, 3, 20}, {"diffuse", scen_diffuse, 3, 20}, {"lafdiffuse", scen_lafdiffuse, 3, 20})
