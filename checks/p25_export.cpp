// P25: exported source code against the function it was exported from: shaders are interpreted, C++ is compiled and run, Matlab is calculated.
#include "models.h"
#include "glsl.h"
#include "tools.h"
#include "core/rational_function.h"
#include <dlfcn.h>
using namespace mdl;
static const std::vector<const char*> SH{ "shader", "explorer" }, OTHER{ "C++", "c++", "cpp", "matlab" }, RAT{ "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" };
struct Out { bool refused; std::string why, text; };
static Out save(const function& f, const std::string& fmt, const std::string& plugin) { Out o; o.refused = false; std::string fn = tool::dir() + "/export"; unlink(fn.c_str());
  try { f.save(fn, arguments::create_arguments("--func " + plugin + " --export " + fmt)); } catch(const std::exception& e) { o.refused = true; o.why = e.what(); } if(!o.refused) o.text = tool::slurp(fn); return o; }
static std::string framed(const std::string& text, const std::string& fmt) { if(fmt != "explorer") return text; std::istringstream in(text); std::string l, r; std::getline(in, l); if(l != "analytic") throw glsl::Error("an explorer file starts with the line analytic"); bool on = false, done = false; int params = 0;
  while(std::getline(in, l)) { if(l == "::begin parameters") { ++params; continue; } if(l == "::end parameters") { --params; continue; } if(params) continue; if(l == "::begin shader" && !on && !done) { on = true; continue; } if(l == "::end shader" && on) { on = false; done = true; continue; } if(on) r += l + "\n"; else if(l.find_first_not_of(" \t\r") != std::string::npos) throw glsl::Error("text outside of the shader section: " + l); }
  if(!done) throw glsl::Error("no shader section"); return r; }
static glsl::Val gv(V3 a) { return glsl::vec3(a.x, a.y, a.z); }
// the text evaluates to the value of F for all pairs of directions
static void same(mc::Ctx& c, const function& f, const std::string& text, const std::string& fmt, const std::string& key, const std::string& w, bool low_, bool many) {
  int ny = f.parametrization().dimY(), nx = f.parametrization().dimX(); params::input in = f.parametrization().input_parametrization();
  try { glsl::Program pr(framed(text, fmt)); std::vector<V3> D = dirs(many); if(low_) D.insert(D.end(), low().begin(), low().end()); long n = 0;
    for(const V3& v : D) for(const V3& l : D) { if(geo::len(v + l) < 1e-6) continue; bool bok; geo::backv(Pair{v,l}, bok); if(!bok) continue; double cart[6] = { v.x, v.y, v.z, l.x, l.y, l.z }; vec x(nx); params::convert(cart, params::CARTESIAN, in, &x[0]); vec e = f.value(x);
      glsl::Val r = pr.call("BRDF", { gv(l), gv(v), gv(V3{0,0,1}), gv(V3{1,0,0}), gv(V3{0,1,0}) }); if(!c.check(r.n == 3, "shader result " + key, w)) return; ++n;
      for(int i=0;i<3;++i) { double want = e[ny == 1 ? 0 : i]; bool ok = (std::isnan(want) && std::isnan(r.d[i])) || want == r.d[i] || std::fabs(want - r.d[i]) <= 2e-5*std::fabs(want) + 1e-8; if(i == 0) c.outcome(want);
        if(!c.check(ok, "shader value " + key, w + " view " + mc::vstr(std::vector<double>{v.x,v.y,v.z}) + " light " + mc::vstr(std::vector<double>{l.x,l.y,l.z}) + " channel " + std::to_string(i) + ": the shader gives " + mc::dstr(r.d[i]) + ", the function " + mc::dstr(want))) return; } }
    // the frame is an argument: the same pair in a rotated frame
    double a = 0.9, b = 0.6; auto rot = [&](V3 q) { return geo::rotz(geo::roty(geo::rotz(q, a), b), -0.4); }; for(size_t k=0;k<D.size();k+=3) { V3 v = D[k], l = D[(k*5+2) % D.size()]; if(geo::len(v + l) < 1e-3 || v.z < 0.1 || l.z < 0.1) continue; glsl::Val r0 = pr.call("BRDF", { gv(l), gv(v), gv(V3{0,0,1}), gv(V3{1,0,0}), gv(V3{0,1,0}) }), r1 = pr.call("BRDF", { gv(rot(l)), gv(rot(v)), gv(rot(V3{0,0,1})), gv(rot(V3{1,0,0})), gv(rot(V3{0,1,0})) });
      for(int i=0;i<3;++i) if(!c.check(std::fabs(r0.d[i] - r1.d[i]) <= 1e-4*std::fabs(r0.d[i]) + 1e-7, "shader frame " + key, w + ": " + mc::dstr(r0.d[i]) + " becomes " + mc::dstr(r1.d[i]) + " in another frame")) return; }
    c.state(w + std::to_string(n)); }
  catch(const glsl::Error& e) { c.fail("shader code " + key, w + ": " + e.what() + "\n" + text); }
}
static int natural(const Model& m) { return std::string(m.name) == "retroblinn" ? 1 : std::string(m.name) == "abc" ? 0 : input(m, 0); }
static const Model* byname(const char* n) { for(auto& m : models()) if(std::string(m.name) == n) return &m; return 0; }
static bool exportable(const Model& m, int in) { std::string n = m.name; if(n == "sgd") return false; if(n == "abc" || n == "retroblinn") return in == natural(m); return true; }
static bool expect(mc::Ctx& c, const Out& o, bool supported, const std::string& key, const std::string& w) { if(o.refused) { c.outcome(0); c.state(w + o.why); c.check(!supported, "refused export " + key, w + ": " + o.why); c.check(!o.why.empty(), "unexplained refusal " + key, w); return false; } return true; }
static void scen_model(mc::Ctx& c) {
  auto& M = models(); int k = c.pick((int)M.size() + 1, "model"); std::string fmt = c.of(SH, "format"); static const std::vector<int> NY{1,3,2}; int ny = c.of(NY, "channels");
  if(k == (int)M.size()) { NF f = dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string("nonlinear_function_diffuse"), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); c.tag("diffuse"); if(!c.check((bool)f, "missing function", "diffuse")) return; vec q(ny); static const std::vector<double> A{ 0.3, 0.0, 2, 12345.5 }; double a = c.of(A, "kd"); for(int i=0;i<ny;++i) q[i] = a*(1 + 0.5*i); f->setParameters(q); std::string w = "diffuse " + mc::vstr(q) + " " + fmt; Out o = save(*f, fmt, "nonlinear_function_diffuse"); if(expect(c, o, ny != 2, "diffuse", w)) same(c, *f, o.text, fmt, "diffuse", w, true, false); return; }
  const Model& m = M[k]; int in = input(m, c.pick(inputs(m), "input")); c.tag(m.name); NF f = make(m, ny, in); if(!c.check((bool)f, "missing function", m.name)) return;
  std::vector<int> a = choose(c, m); vec q = pvec(m, ny, a); f->setParameters(q); std::ostringstream w; w << m.name << " in " << geo::NAMES[in] << ", " << ny << " channels, parameters " << mc::vstr(q) << ", " << fmt; Out o = save(*f, fmt, m.plugin);
  if(expect(c, o, exportable(m, in) && ny != 2, m.name, w.str())) same(c, *f, o.text, fmt, m.name, w.str(), !m.upper, c.thorough);
}
// diffuse term of the lobes
static void scen_lafortune(mc::Ctx& c) {
  int lobes = 1 + c.pick(3, "lobes"), ny = c.flag("channels") ? 3 : 1, where = c.pick(3, "position"); std::string fmt = c.of(SH, "format"); c.tag("lafortune with a diffuse term"); std::ostringstream t; t.precision(10); t << "#FUNC nonlinear_function_lafortune\n#NB_LOBES " << lobes << "\n"; for(int i=0;i<ny;++i) t << "kd " << 0.2 + 0.1*i << "\n";
  for(int n=0;n<lobes;++n) for(int i=0;i<ny;++i) t << "Cx " << -0.9 + 0.3*n << "\nCy " << -0.5 - 0.1*i << "\nCz " << 0.8 - 0.2*n + 0.1*i << "\nN " << 3 + 4*n + i << "\n"; t << "\n";
  auto mkf = [&]() { NF f = dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string("nonlinear_function_lafortune"), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); std::istringstream in(t.str()); if(!f || !f->load(in)) c.fail("lafortune load", t.str()); return f; };
  NF f = mkf(); if(!f) return; if(where) { const Model* s = byname("schlick"); NF g = make(*s, ny, CART); vec q(ny); for(int i=0;i<ny;++i) q[i] = 0.3 + 0.1*i; g->setParameters(q); if(where == 1) f = NF(new product_function(f, g)); else { std::vector<NF> fs{g, f}; f = NF(new compound_function(fs, std::vector<arguments>(2))); } }
  std::string w = "lafortune, " + std::to_string(lobes) + " lobes, " + std::to_string(ny) + " channels, " + (where == 0 ? "alone" : where == 1 ? "times schlick" : "in a sum") + ", " + fmt; Out o = save(*f, fmt, "nonlinear_function_lafortune"); if(expect(c, o, true, "lafortune", w)) same(c, *f, o.text, fmt, "lafortune diffuse", w, true, false);
}
static std::vector<std::string> partNames() { std::vector<std::string> r; for(auto& m : models()) r.push_back(m.name); r.push_back("diffuse"); return r; }
static NF part(const std::string& n, int ny, int variant, bool& ok, bool& up) { if(n == "diffuse") { NF f = dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string("nonlinear_function_diffuse"), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); vec q(ny); for(int i=0;i<ny;++i) q[i] = 0.2 + 0.1*i + 0.3*variant; f->setParameters(q); return f; }
  const Model& m = *byname(n.c_str()); NF f = make(m, ny, natural(m)); if(!f) return f; std::vector<int> a(m.np*m.lobes + m.extra); for(size_t k=0;k<a.size();++k) a[k] = (int)((k + variant) % m.alpha[k].size()); f->setParameters(pvec(m, ny, a)); ok = ok && exportable(m, natural(m)); up = up || m.upper; return f; }
static void scen_tree(mc::Ctx& c) {
  static const std::vector<std::string> PN = partNames(); int shape = c.pick(c.thorough ? 7 : 6, "shape"); std::string a = PN[c.pick((int)PN.size(), "first")], b = PN[c.pick((int)PN.size(), "second")], fmt = SH[(shape + (int)a.size()) % 2]; int ny = shape == 5 ? 3 : 1 + 2*(int)((a.size() + b.size() + shape) % 2); bool ok = true, up = false;
  c.tag("shape " + std::to_string(shape)); auto P = [&](const std::string& n, int v, int y) { return part(n, y, v, ok, up); }; auto sum = [&](std::vector<NF> v) { return NF(new compound_function(v, std::vector<arguments>(v.size()))); }; auto prod = [&](NF x, NF y) { return NF(new product_function(x, y)); }; NF f; std::string w;
  switch(shape) { case 0: f = sum({P(a,0,ny), P(b,1,ny)}); w = a + " + " + b; break; case 1: f = prod(P(a,0,ny), P(b,1,ny)); w = a + " * " + b; break; case 2: f = sum({P("diffuse",0,ny), prod(P(a,0,ny), P(b,1,ny)), P(a,1,ny)}); w = "diffuse + " + a + " * " + b + " + " + a; break;
    case 3: f = sum({prod(P(a,0,ny), P(b,1,ny)), prod(P(b,0,ny), P(a,1,ny))}); w = a + " * " + b + " + " + b + " * " + a; break; case 4: f = sum({P(a,1,ny)}); f = sum({f, P(b,0,ny)}); w = "(" + a + ") + " + b; break; case 5: f = prod(P(a,0,3), P(b,1,1)); w = a + " * one channel of " + b; break; default: f = prod(sum({P(a,0,ny), P("diffuse",0,ny)}), prod(P(b,0,ny), P("schlick",1,ny))); w = "(" + a + " + diffuse) * (" + b + " * schlick)"; }
  if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT) return; w += ", " + std::to_string(ny) + " channels, " + fmt; Out o = save(*f, fmt, "nonlinear_function_diffuse"); if(expect(c, o, ok, "shape " + std::to_string(shape), w)) same(c, *f, o.text, fmt, "shape " + std::to_string(shape), w, !up, false);
}
// longer sums: models repeat, products in between
static void scen_many(mc::Ctx& c) {
  static const std::vector<std::string> PN{ "beckmann", "blinn", "diffuse", "lafortune", "sg half", "schlick", "walter smith", "ward", "lafortune 2 lobes", "yoo" }; int n = 3 + c.pick(c.thorough ? 10 : 6, "parts"), first = c.pick((int)PN.size(), "first"), step = c.pick(4, "step"), shape = c.pick(3, "shape"), ny = c.flag("channels") ? 3 : 1; std::string fmt = SH[(n + first) % 2], w; bool ok = true, up = false; std::vector<NF> v; c.tag("many");
  for(int k=0;k<n;++k) { std::string a = PN[(first + k*step) % PN.size()]; NF f = part(a, ny, k % 3, ok, up); w += a; if(shape == 1 && k % 2) { f = NF(new product_function(f, part("schlick", ny, k % 2, ok, up))); w += " * schlick"; } if(shape == 2 && k % 3 == 2) { std::string b = PN[(first + k) % PN.size()]; f = NF(new product_function(part(b, ny, 1, ok, up), f)); w += " times " + b; } w += ", "; v.push_back(f); }
  NF f(new compound_function(v, std::vector<arguments>(v.size()))); if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT) return; w += std::to_string(ny) + " channels, " + fmt; Out o = save(*f, fmt, "nonlinear_function_diffuse"); if(expect(c, o, ok, "many", w)) same(c, *f, o.text, fmt, "many", w, !up, false);
}
// formats a function has no code for
static void scen_refuse(mc::Ctx& c) {
  auto& M = models(); static const std::vector<std::string> PN = partNames(); std::string a = PN[c.pick((int)PN.size(), "model")], fmt = OTHER[c.pick((int)OTHER.size(), "format")]; int shape = c.pick(3, "shape"), ny = c.flag("channels") ? 3 : 1; bool ok = true, up = false; (void)M; c.tag("no code: " + fmt);
  NF f = part(a, ny, 0, ok, up); if(shape == 1) { std::vector<NF> v{f, part("diffuse", ny, 1, ok, up)}; f = NF(new compound_function(v, std::vector<arguments>(2))); } if(shape == 2) f = NF(new product_function(f, part("schlick", ny, 1, ok, up)));
  std::string w = a + (shape == 0 ? "" : shape == 1 ? " + diffuse" : " * schlick") + " as " + fmt; Out o = save(*f, fmt, "nonlinear_function_diffuse"); if(o.refused) { c.check(!o.why.empty(), "unexplained refusal " + fmt, w); c.state(w); c.outcome(1); return; }
  // not refused: then it has to compile and agree
  if(fmt == "matlab") { try { matlab::Program p(o.text); int nx = f->parametrization().dimX(); for(auto& v : dirs(false)) for(auto& l : dirs(false)) { double cart[6] = { v.x, v.y, v.z, l.x, l.y, l.z }; vec x(nx); params::convert(cart, params::CARTESIAN, f->parametrization().input_parametrization(), &x[0]); vec e = f->value(x); std::vector<double> r = p.call(&x[0], nx); if(!c.check((int)r.size() == ny, "matlab size", w)) return; for(int i=0;i<ny;++i) if(!c.check(std::fabs(r[i]-e[i]) <= 2e-5*std::fabs(e[i]) + 1e-8, "matlab value of a nonlinear function", w)) return; } } catch(const glsl::Error& e) { c.fail("matlab code of a nonlinear function", w + ": " + e.what()); } return; }
  std::string src = tool::dir() + "/e.cpp", log = tool::dir() + "/e.log"; tool::spit(src, o.text); int st = system(("g++ -std=c++11 -w -O0 -shared -fPIC -Wl,-z,defs -I/usr/include/eigen3 " + src + " -o " + tool::dir() + "/e.so 2> " + log).c_str()); c.check(st == 0, "code of a nonlinear function does not link " + fmt, w + ": " + tool::slurp(log).substr(0, 300));
}
// rational functions
static const std::vector<double> PT{ 0.3, 0.9, 0.05, 1.0, 0.5, -0.25, 1.4 };
static std::vector<double> coefs(int n, int seed) { static const double A[] = { 2, -1, 0.5, 0, 3, -0.25, 0.0003, 1700 }; std::vector<double> r; for(int i=0;i<n;++i) r.push_back(A[(i*seed + seed + i/3) % (seed > 2 ? 8 : 6)]); return r; }
static vec tovec(const std::vector<double>& a) { vec v(a.size()); for(size_t i=0;i<a.size();++i) v[i] = a[i]; return v; }
struct Rat { ptr<rational_function> f; vec mn, mx; int nx, ny; std::string w; };
static Rat rat(mc::Ctx& c, int kind, int nx, int ny, int np, int nq, int dom, int seed) { Rat r; r.nx = nx; r.ny = ny; r.f = dynamic_pointer_cast<rational_function>(plugins_manager::get_function(std::string(RAT[kind]), parameters(nx, ny, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT))); if(!c.check((bool)r.f, "missing function", RAT[kind])) return r;
  r.mn = vec::Zero(nx); r.mx = vec::Ones(nx); for(int k=0;k<nx;++k) { if(dom == 1) { r.mn[k] = -1 - k; r.mx[k] = 3 + 2*k; } if(dom == 2) r.mn[k] = -1; if(dom == 3) { r.mn[k] = 0.125*k; r.mx[k] = 1.5 - 0.25*k; } } r.f->setMin(r.mn); r.f->setMax(r.mx); r.f->setSize(np, nq);
  for(int j=0;j<ny;++j) { std::vector<double> a = coefs(np, seed+j), b = coefs(nq, seed+1+j); if(b[0] == 0) b[0] = 1.5; r.f->get(j)->update(tovec(a), tovec(b)); }
  std::ostringstream w; w << RAT[kind] << ", " << nx << " to " << ny << ", np " << np << " nq " << nq << ", domain " << mc::vstr(r.mn) << " to " << mc::vstr(r.mx) << ", coefficients " << seed; r.w = w.str(); return r; }
typedef void (*Eval)(const double*, int, double*, int);
static void compare(mc::Ctx& c, const Rat& r, const std::string& key, const std::function<std::vector<double>(const vec&)>& ev) {
  int n = (int)PT.size(), tot = r.nx == 1 ? n : r.nx == 2 ? n*n : n*n*n; for(int s=0;s<tot;++s) { vec x(r.nx); for(int k=0, t=s;k<r.nx;++k, t/=n) x[k] = r.mn[k] + PT[t % n]*(r.mx[k] - r.mn[k]); vec e = r.f->value(x); std::vector<double> g = ev(x); if(!c.check((int)g.size() == r.ny, "result size " + key, r.w + ": " + std::to_string(g.size()) + " values")) return;
    for(int j=0;j<r.ny;++j) { rational_function_1d* q = r.f->get(j); double sp = 0, sq = 0, P = q->p(x)[0], Q = q->q(x)[0]; for(int i=0;i<q->getP().size();++i) sp += std::fabs(q->getP(i)*q->p(x,i)); for(int i=0;i<q->getQ().size();++i) sq += std::fabs(q->getQ(i)*q->q(x,i)); if(std::fabs(Q) < 1e-3*sq) continue; double tol = 2e-6*(sp + std::fabs(P/Q)*sq)/std::fabs(Q) + 1e-12; c.outcome(e[j]);
      if(!c.check(std::fabs(g[j] - e[j]) <= tol, "value " + key, r.w + " at " + mc::vstr(x) + " channel " + std::to_string(j) + ": the code gives " + mc::dstr(g[j]) + ", the function " + mc::dstr(e[j]))) return; } }
  c.state(r.w); }
static void evalcpp(mc::Ctx& c, const Rat& r, const Out& o, const std::string& fmt) {
  static int serial = 0; std::string b = tool::dir() + "/m" + std::to_string(serial++), src = b + ".cpp", so = b + ".so", log = b + ".log"; tool::spit(src, o.text + "\nextern \"C\" void verif_eval(const double* x, int nx, double* y, int ny, int* n) { vec v(nx); for(int i=0;i<nx;++i) v[i] = x[i]; vec w = brdf(v); *n = (int)w.size(); for(int i=0;i<ny && i<*n;++i) y[i] = w[i]; }\n");
  int st = system(("g++ -std=c++11 -w -O0 -shared -fPIC -Wl,-z,defs -I/usr/include/eigen3 " + src + " -o " + so + " 2> " + log).c_str()); if(!c.check(st == 0, "C++ code does not compile", r.w + " as " + fmt + ": " + tool::slurp(log).substr(0, 400) + "\n" + o.text)) { tool::clean(); return; }
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); typedef void (*E5)(const double*, int, double*, int, int*); E5 e = h ? (E5)dlsym(h, "verif_eval") : 0; if(!c.check(e != 0, "C++ code does not load", r.w)) return;
  compare(c, r, "C++", [&](const vec& x) { double y[8]; int n = 0; e(&x[0], r.nx, y, 8, &n); return std::vector<double>(y, y + std::max(0, std::min(n, 8))); }); dlclose(h); tool::clean(); }
static void scen_cpp(mc::Ctx& c) {
  int nx = 1 + c.pick(3, "nx"), ny = 1 + c.pick(3, "ny"), size = c.pick(c.thorough ? 5 : 3, "size"), dom = c.pick(c.thorough ? 4 : 2, "domain"); static const int NP[] = { 1, 3, 4, 2, 9 }, NQ[] = { 1, 2, 5, 6, 7 }; int dm = c.thorough ? dom : dom == 0 ? 3 : 1; int seed = c.thorough ? 1 + c.pick(4, "coefficients") : 1 + (nx + ny + size) % 4; std::string fmt = OTHER[(nx + size + dom) % 3]; c.tag("rational as " + fmt);
  Rat r = rat(c, 0, nx, ny, NP[size], NQ[size], dm, seed); if(!r.f) return; r.w += " as " + fmt; Out o = save(*r.f, fmt, RAT[0]); if(expect(c, o, true, "rational " + fmt, r.w)) evalcpp(c, r, o, fmt);
}
static void scen_matlab(mc::Ctx& c) {
  int nx = 1 + c.pick(c.thorough ? 4 : 3, "nx"), ny = 1 + c.pick(3, "ny"), np = 1 + c.pick(c.thorough ? 9 : 5, "np"), nq = 1 + c.pick(c.thorough ? 9 : 5, "nq"), dom = c.pick(4, "domain"), seed = 1 + c.pick(4, "coefficients"); c.tag("rational as matlab"); if(nx == 4) nx = 2;
  Rat r = rat(c, 0, nx, ny, np, nq, dom, seed); if(!r.f) return; r.w += " as matlab"; Out o = save(*r.f, "matlab", RAT[0]); if(!expect(c, o, true, "rational matlab", r.w)) return;
  try { matlab::Program p(o.text); compare(c, r, "matlab", [&](const vec& x) { return p.call(&x[0], r.nx); }); } catch(const glsl::Error& e) { c.fail("matlab code", r.w + ": " + e.what() + "\n" + o.text); }
}
static void scen_bases(mc::Ctx& c) {
  int kind = 1 + c.pick(3, "basis"), nx = 1 + c.pick(2, "nx"), ny = 1 + c.pick(2, "ny"); std::string fmt = OTHER[c.pick((int)OTHER.size(), "format")]; c.tag(RAT[kind]); Rat r = rat(c, kind, nx, ny, 4, 3, 2, 1); if(!r.f) return; r.w += " as " + fmt; Out o = save(*r.f, fmt, RAT[kind]); if(o.refused) { c.check(!o.why.empty(), "unexplained refusal", r.w); c.state(r.w); c.outcome(2); return; }
  if(fmt == "matlab") { try { matlab::Program p(o.text); compare(c, r, "matlab", [&](const vec& x) { return p.call(&x[0], r.nx); }); } catch(const glsl::Error& e) { c.fail("matlab code", r.w + ": " + e.what()); } } else evalcpp(c, r, o, fmt);
}
// a rational function as a shader, and one without coefficients in any format
static void scen_ratother(mc::Ctx& c) {
  int kind = c.pick(4, "basis"); std::string fmt = SH[c.pick(2, "format")]; int ny = c.flag("channels") ? 3 : 1; bool empty = c.flag("no coefficients"); c.tag("rational refused"); if(empty) fmt = OTHER[ny == 1 ? 0 : 3]; Rat r; if(!empty) { r = rat(c, kind, 3, ny, 3, 2, 2, 1); if(!r.f) return; } else { r.f = dynamic_pointer_cast<rational_function>(plugins_manager::get_function(std::string(RAT[kind]), parameters(2, ny, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT))); r.w = std::string(RAT[kind]) + " without coefficients"; }
  Out o = save(*r.f, fmt, RAT[kind]); c.state(r.w + fmt); c.outcome(3); c.check(o.refused && !o.why.empty(), "export that cannot be right is written", r.w + " as " + fmt);
}
// the tools write the same code
static void scen_tool(mc::Ctx& c) {
  static const std::vector<std::string> T{ "blinn", "ward", "sg half", "beckmann", "schlick" }; std::string n = c.of(T, "model"), fmt = c.of(SH, "format"); int ny = c.flag("channels") ? 3 : 1; bool ok = true, up = false; c.tag("brdf2brdf"); NF f = part(n, ny, 0, ok, up); const Model& m = *byname(n.c_str()); tool::clean(); std::string in = tool::dir() + "/f.func";
  f->save(in, arguments::create_arguments(std::string("--func ") + m.plugin + " " + m.boot)); tool::Run r = tool::run("brdf2brdf", { "--input", in, "--output", tool::dir() + "/g.out", "--export", fmt }); std::string w = n + " as " + fmt + " by brdf2brdf"; if(!c.check(r.ok(), "brdf2brdf", w + " " + r.str())) return;
  same(c, *f, tool::slurp(tool::dir() + "/g.out"), fmt, "brdf2brdf", w, !up, false); tool::clean();
}
MC_MAIN({"many", scen_many, 3, 60}, {"models",scen_model,3,20}, {"lafortune",scen_lafortune,3,20}, {"trees",scen_tree,2,20}, {"nonlinear",scen_refuse,2,20}, {"cpp",scen_cpp,3,60}, {"matlab",scen_matlab,3,20}, {"bases",scen_bases,2,60}, {"refused",scen_ratother,2,20}, {"tool",scen_tool,2,60})
