// P24: the Python module gives what the C++ calls give.  The interpreter runs inside the explorer: every execution runs a
// sequence of statements in Python and the calls they stand for in C++, and compares everything observable after each.
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "tools.h"
#include "models.h"
#include "core/rational_function.h"
#include "core/metrics.h"
namespace py = pybind11;
using namespace mdl;
typedef std::vector<double> D; typedef std::vector<std::string> Args;
static std::string path(const std::string& n) { return tool::dir() + "/" + n; }
struct Py { py::dict ns; std::string log;
  static void start() { static bool on = false; if(on) return; on = true; Py_InitializeEx(0); py::module_::import("sys").attr("path").attr("insert")(0, tool::env("VERIF_B", "/repo/_build") + "/python"); py::module_::import("alta"); }
  static Py* make() { start(); if(chdir(tool::dir().c_str())) {} Py* p = new Py; p->ns["__builtins__"] = py::module_::import("builtins"); p->run("import alta, gc\nIN = alta.input_parametrization\nOUT = alta.output_parametrization"); p->log.clear(); return p; }
  // the name of the exception, or nothing
  std::string run(const std::string& code) { log += code + "; "; PyErr_Clear(); try { py::exec(code, ns, ns); } catch(py::error_already_set& e) { std::string t = py::str(e.type().attr("__name__")); return t; } return ""; }
  bool nums(const std::string& expr, D& r, std::string& err) { err = run("_r = [float(_v) for _v in (" + expr + ")]"); r.clear(); if(!err.empty()) return false; for(auto h : py::list(ns["_r"])) r.push_back(PyFloat_AsDouble(h.ptr())); return true; }
  std::string text(const std::string& expr) { std::string e = run("_r = str(" + expr + ")"); return e.empty() ? std::string(py::str(ns["_r"])) : "!" + e; } };
struct Shell { Py* p; Shell() : p(Py::make()) {} ~Shell() { p->ns.clear(); delete p; } Py* operator->() { return p; } };
static std::string lit(double v) { if(std::isnan(v)) return "float('nan')"; if(std::isinf(v)) return v > 0 ? "float('inf')" : "-float('inf')"; return v == 0 && std::signbit(v) ? "-0.0" : mc::dstr(v); }
static std::string lit(const D& d) { std::string s = "alta.vec(["; for(size_t i=0;i<d.size();++i) s += (i ? "," : "") + lit(d[i]); return s + "])"; }
static std::string lit(const vec& v) { D d; for(int i=0;i<v.size();++i) d.push_back(v[i]); return lit(d); }
static std::string quote(const std::string& s) { std::string r = "'"; for(char ch : s) { if(ch == '\'' || ch == '\\') r += '\\'; r += ch; } return r + "'"; }
static bool eq(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || mc::close(a, b, 1e-13, 1e-300); }
static bool eq(const D& a, const vec& b) { if((int)a.size() != b.size()) return false; for(int i=0;i<b.size();++i) if(!eq(a[i], b[i])) return false; return true; }
static bool eq(const D& a, const D& b) { if(a.size() != b.size()) return false; for(size_t i=0;i<b.size();++i) if(!eq(a[i], b[i])) return false; return true; }
static std::string S(const D& d) { std::string s = "["; for(double v : d) s += mc::dstr(v) + " "; return s + "]"; }
static std::string S(const vec& d) { std::string s = "["; for(int i=0;i<d.size();++i) s += mc::dstr(d[i]) + " "; return s + "]"; }
static std::string param(const parameters& p) { return "alta.parameters(" + std::to_string(p.dimX()) + "," + std::to_string(p.dimY()) + ",IN." + (p.input_parametrization() == params::UNKNOWN_INPUT ? "UNKNOWN_INPUT" : params::get_name(p.input_parametrization())) + ",OUT." + (p.output_parametrization() == params::UNKNOWN_OUTPUT ? "UNKNOWN_OUTPUT" : params::get_name(p.output_parametrization())) + ")"; }
// what a C++ call gives: a vector, or an exception
template<typename F> static bool calls(F f, vec& r) { try { r = f(); return true; } catch(std::exception&) { return false; } }
static bool same(mc::Ctx& c, Shell& s, const std::string& expr, bool ok, const vec& want, const char* sig) { D r; std::string e; bool got = s->nums(expr, r, e); if(!ok) return c.check(!got, sig, s->log + ": no exception"); if(!c.check(got, sig, s->log + ": " + e)) return false; return c.check(eq(r, want), sig, s->log + ": " + S(r) + " not " + S(want)); }
static bool raises(mc::Ctx& c, Shell& s, const std::string& code, const char* sig, const char* type = 0) { std::string e = s->run(code); return c.check(!e.empty() && (!type || e == type), sig, s->log + ": " + (e.empty() ? "no exception" : e)); }
static bool runs(mc::Ctx& c, Shell& s, const std::string& code, const char* sig = "exception") { std::string e = s->run(code); return c.check(e.empty(), sig, s->log + ": " + e); }

// ---- vectors
static void scen_vec(mc::Ctx& c) {
  static const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
  static const std::vector<D> A{ {}, {1}, {1,2.5}, {-0.5,1e300,3}, {NaN,Inf,-0.0} }, B{ {}, {3}, {0.5,-2}, {1,1,-Inf} };
  Shell s; D a = c.of(A, "a"), b = c.of(B, "b"), z; runs(c, s, "a = " + lit(a)); runs(c, s, "b = " + lit(b)); bool alias = false; int n = c.thorough ? 3 : 2;
  for(int step=0;step<n;++step) { int op = c.pick(11, "op"); bool bad = a.size() != b.size(); D r(a);
    if(op == 0) { if(bad) raises(c, s, "a = a + b", "sum of different sizes", "ValueError"); else { runs(c, s, "a = a + b"); for(size_t i=0;i<a.size();++i) r[i] = a[i] + b[i]; a = r; if(alias) alias = false; } }
    else if(op == 1) { if(bad) raises(c, s, "a = b - a", "difference of different sizes", "ValueError"); else { runs(c, s, "a = b - a"); for(size_t i=0;i<a.size();++i) r[i] = b[i] - a[i]; a = r; alias = false; } }
    else if(op == 2) { runs(c, s, "b = alta.vec(a)"); b = a; alias = false; }
    else if(op == 3) { runs(c, s, "a = b"); a = b; alias = true; }
    else if(op == 4) { runs(c, s, "a = alta.vec(list(a))"); alias = false; }
    else if(op == 5) { int i = c.pick(4, "index"); double v = c.of(std::vector<double>{ 7.25, -1e-300 }, "value"); std::string code = "a[" + std::to_string(i) + "] = " + lit(v); if(i < (int)a.size()) { runs(c, s, code); a[i] = v; if(alias) b[i] = v; } else raises(c, s, code, "index", "IndexError"); }
    else if(op == 6) { int i = c.of(std::vector<int>{ -1, -2, 1000000, -2147483647 }, "index"); raises(c, s, "a[" + std::to_string(i) + "] = 1.0", "index"); raises(c, s, "a[" + std::to_string(i) + "]", "index"); }
    else if(op == 7) { raises(c, s, c.of(Args{ "a = a + 1", "a = a - [1.0]", "a = a + None", "a[0.5]", "a['x'] = 1", "a[0] = 'x'", "alta.vec(3)", "alta.vec(['x'])", "alta.norm(None)", "alta.vec([[1.0]])" }, "bad"), "wrong type", 0); }
    else if(op == 8) { runs(c, s, "c = a; del a; gc.collect(); a = c; del c"); }
    else if(op == 9) { runs(c, s, "a = (a - a) + a"); for(auto& v : a) v = (v - v) + v; alias = false; }
    else { runs(c, s, "b = alta.vec(b) if len(b) else alta.vec([2.0])"); if(b.empty()) b.push_back(2); alias = false; }
    D r1; std::string e; c.state(S(a) + S(b)); for(int w=0;w<2;++w) { const D& m = w ? b : a; std::string v = w ? "b" : "a"; if(!c.check(s->nums(v, r1, e) && eq(r1, m), "value", s->log + ": " + S(r1) + " not " + S(m))) return; s->nums("[len(" + v + ")]", r1, e); c.check(e.empty() && r1[0] == m.size(), "length", s->log); s->nums("[alta.norm(" + v + ")]", r1, e); double q = 0; for(double x : m) q += x*x; c.check(e.empty() && eq(r1[0], std::sqrt(q)), "norm", s->log);
      std::ostringstream o; o << "["; for(size_t i=0;i<m.size();++i) o << (i ? ", " : "") << m[i]; o << "]"; auto nn = [](std::string t) { size_t p; while((p = t.find("-nan")) != std::string::npos) t.erase(p, 1); return t; }; c.check(nn(s->text(v)) == nn(o.str()), "text", s->log + ": " + s->text(v)); for(size_t i=0;i<m.size();++i) { s->nums("[" + v + "[" + std::to_string(i) + "]]", r1, e); c.check(e.empty() && eq(r1[0], m[i]), "element", s->log); } raises(c, s, v + "[" + std::to_string(m.size()) + "]", "index", "IndexError"); s->log.resize(std::min<size_t>(s->log.size(), 400)); } } }

// ---- arguments
static void scen_args(mc::Ctx& c) {
  static const char* K[] = { "a", "np", "grid-size", "" }; static const char* V[] = { "'x y'", "10", "[2, 3]", "True", "0.5", "''", "None", "'[4, 5]'" }; static const char* T[] = { "x y", "10", "[2, 3]", "True", "0.5", "", "None", "[4, 5]" };
  Shell s; arguments m; std::string init; int n = c.pick(3, "entries"); for(int i=0;i<n;++i) { int k = c.pick(4, "key"), v = c.pick(8, "value"); init += std::string(i ? ", " : "") + quote(K[k]) + ": " + V[v]; m.update(K[k], T[v]); }
  runs(c, s, c.flag("dictionary") || n ? "a = alta.arguments({" + init + "})" : "a = alta.arguments()"); int u = c.pick(3, "updates"); for(int i=0;i<u;++i) { int k = c.pick(4, "key"), v = c.pick(c.thorough ? 8 : 3, "value"); runs(c, s, "a.update(" + quote(K[k]) + ", " + quote(T[v]) + ")"); m.update(K[k], T[v]); }
  for(const char* k : K) c.check(s->text("a[" + quote(k) + "]") == m[k], "value", s->log + k); c.check(s->text("a['missing']") == "", "missing key", s->log); c.state(m.get_cmd()); raises(c, s, "a[1]", "wrong type"); raises(c, s, "a.update('k', 1)", "wrong type"); raises(c, s, "alta.arguments([1])", "wrong type");
  if(m.is_defined("grid-size")) { parameters p(2, 3, params::STARK_2D, params::RGB_COLOR); ptr<data> g; try { g = plugins_manager::get_data("data_grid", 0, p, m); } catch(std::exception&) {} std::string e = s->run("g = alta.get_data('data_grid', 0, " + param(p) + ", a)"); c.check(!g ? (!e.empty() || s->text("g is None") == "True") : e.empty() && s->text("len(g)") == std::to_string(g->size()), "grid of the arguments", s->log + ": " + e); } }

// ---- functions
struct Kind { const char* name; std::string args; parameters p; bool linear; };   // args: through get_function(arguments)
static const std::vector<Kind>& kinds() { static std::vector<Kind> K; if(K.empty()) {
  for(auto& m : models()) if(!m.boot[0]) for(int ny : { 1, 3 }) { int in = input(m, 0); K.push_back({ m.plugin, std::string("--func ") + m.plugin, parameters(geo::DIMS[in], ny, geo::ALL[in], ny == 1 ? params::INV_STERADIAN : params::RGB_COLOR), true }); }
  parameters d3(6, 3, params::CARTESIAN, params::RGB_COLOR), r2(2, 2, params::RUSIN_TH_TD, params::UNKNOWN_OUTPUT); K.push_back({ "nonlinear_function_diffuse", "--func nonlinear_function_diffuse", d3, true });
  for(const char* r : { "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" }) K.push_back({ r, std::string("--func ") + r, r2, false });
  K.push_back({ "", "--func [nonlinear_function_diffuse, nonlinear_function_beckmann]", d3, true }); K.push_back({ "", "--func nonlinear_function_ward --fresnel nonlinear_fresnel_schlick", d3, true }); K.push_back({ "", "--func nonlinear_function_lafortune --lobes 2", d3, true }); K.push_back({ "", "", r2, false });
 } return K; }
static std::string dict(const std::string& cmd) { std::string r; size_t p = 0; while((p = cmd.find("--", p)) != std::string::npos) { size_t e = cmd.find(' ', p), n = cmd.find(" --", e); std::string k = cmd.substr(p+2, e-p-2), v = cmd.substr(e+1, n == std::string::npos ? n : n-e-1); r += (r.empty() ? "" : ", ") + quote(k) + ": " + quote(v); p = n == std::string::npos ? cmd.size() : n; } return "alta.arguments({" + r + "})"; }
static ptr<function> reference(const Kind& k, bool by_args) { if(by_args) return ptr<function>(plugins_manager::get_function(arguments::create_arguments(k.args), k.p)); return plugins_manager::get_function(std::string(k.name), k.p); }
static std::string construct(const Kind& k, bool by_args) { return by_args ? "alta.get_function(" + dict(k.args) + ", " + param(k.p) + ")" : "alta.get_function(" + quote(k.name) + ", " + param(k.p) + ")"; }
static std::vector<vec> points(const parameters& p, int n) { std::vector<vec> r; for(int q=0;q<n;++q) { vec x(p.dimX()); if(p.input_parametrization() == params::CARTESIAN) { V3 a = geo::sph(0.2 + 0.35*q, 0.4 + q), b = geo::sph(0.9 - 0.3*q, 2.1 - q); x << a.x, a.y, a.z, b.x, b.y, b.z; } else for(int i=0;i<x.size();++i) x[i] = std::fmod(0.15 + 0.37*(q+1)*(i+2), 0.95); r.push_back(x); } return r; }
static vec some(int n, int v) { vec p(n); for(int i=0;i<n;++i) p[i] = v == 0 ? 0.25 + 0.125*((i*5) % 7) : v == 1 ? 0.9 - 0.0625*(i % 11) : 0; return p; }
static bool compare(mc::Ctx& c, Shell& s, const std::string& v, const ptr<function>& f) {
  size_t l = s->log.size(); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(nf && !same(c, s, v + ".get()", true, nf->parameters(), "parameters")) return false; s->log.resize(l);
  for(auto& x : points(f->parametrization(), 3)) { vec y; bool ok = calls([&]{ return f->value(x); }, y); if(!same(c, s, v + ".value(" + lit(x) + ")", ok, y, "value")) return false; s->log.resize(l); } return true; }
static void scen_function(mc::Ctx& c) {
  tool::clean(); const Kind& k = c.of(kinds(), "function"); bool by_args = !k.name[0] || c.flag("by arguments"); Shell s; ptr<function> f = reference(k, by_args), g; c.tag(construct(k, by_args)); if(!c.check((bool)f, "missing", k.args)) return; if(!runs(c, s, "f = " + construct(k, by_args))) return; nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); int np = nf ? nf->nbParameters() : 0;
  if(rational_function* r = dynamic_cast<rational_function*>(f.get())) { std::string t = by_args && !k.args.empty() ? k.args : std::string("--func ") + (k.name[0] ? k.name : "rational_function"); ptr<function> h = reference(k, by_args); rational_function* q = dynamic_cast<rational_function*>(h.get()); q->setMin(vec::Zero(2)); q->setMax(vec::Constant(2, 1.5)); q->setSize(3, 2); for(int j=0;j<2;++j) { vec a(3), b(2); a << 1, -0.5, 0.25 + j; b << 1, 0.125; q->get(j)->update(a, b); } h->save(path("rat.func"), arguments::create_arguments(t)); if(!runs(c, s, "f.load('rat.func')")) return; std::ifstream i(path("rat.func").c_str()); arguments::parse_header(i); c.check(f->load(i), "reference", k.args); }
  if(nf) { vec p = some(np, 0); nf->setParameters(p); runs(c, s, "f.set(" + lit(p) + ")"); } if(!compare(c, s, "f", f)) return; int n = c.thorough ? 3 : 2;
  for(int step=0;step<n;++step) { int op = c.pick(11, "op"); const char* file = step ? "b.func" : "a.func"; 
    if(op < 2) { vec p = some(np, op + 1); if(nf) { nf->setParameters(p); runs(c, s, "f.set(" + lit(p) + ")"); } else raises(c, s, "f.set(" + lit(D(3, 1.0)) + ")", "parameters of a rational function"); }
    else if(op == 2) { int d = c.of(std::vector<int>{ -1, 1, 7 }, "by"); if(np + d >= 0) raises(c, s, "f.set(" + lit(D(np + d, 0.5)) + ")", "wrong number of parameters"); }
    else if(op == 3) { f->save(path("ref.func"), arguments()); runs(c, s, std::string("f.save('") + file + "')"); c.check(tool::slurp(path(file)) == tool::slurp(path("ref.func")), "saved file", s->log); }
    else if(op == 4 || op == 5) { std::string cmd = k.args.empty() ? "--func rational_function" : k.args; f->save(path("ref.func"), arguments::create_arguments(cmd)); runs(c, s, std::string("f.save('") + file + "', " + dict(cmd) + ")"); c.check(tool::slurp(path(file)) == tool::slurp(path("ref.func")), "saved file", s->log);
      ptr<function> h(plugins_manager::load_function(path(file))); if(!c.check((bool)h, "reload", s->log)) return; if(op == 4) { if(!runs(c, s, std::string("h = alta.load_function('") + file + "')")) return; if(!c.check(s->text("h is None") == "False", "reload", s->log)) return; if(!compare(c, s, "h", h)) return; }
      else { if(!runs(c, s, std::string("f.load('") + file + "')")) return; std::ifstream i(path(file).c_str()); arguments::parse_header(i); c.check(f->load(i), "reference", s->log); } }
    else if(op == 6) { tool::spit(path("junk.func"), c.of(Args{ "", "junk\n", "#ALTA FUNC HEADER\n#ALTA HEADER END\n\n#FUNC other\nx 1\n" }, "junk")); if(c.flag("module")) { std::string e = s->run("h = alta.load_function('junk.func')"); c.check(!e.empty() || s->text("h is None") == "True", "junk loaded", s->log); } else if(!c.flag("missing")) raises(c, s, "f.load('junk.func')", "junk loaded"); else { raises(c, s, "f.load('none.func')", "missing file loaded"); raises(c, s, "f.load('none.func', alta.arguments())", "missing file loaded"); } }
    else if(op == 7) { int d = c.of(std::vector<int>{ -1, 1 }, "by"), nx = f->parametrization().dimX(); if(nx + d >= 0) raises(c, s, "f.value(" + lit(D(nx + d, 0.5)) + ")", "point of another dimension"); }
    else if(op == 8) { raises(c, s, c.of(Args{ "f.value(None)", "f.value(1.0)", "f.set(None)", "f.load(3)", "f.save(None)", "f.save('x', {})", "f + 1", "f * 2.0", "3 * f", "f.save('no/such/dir')", "f.save('x', alta.arguments({'export': 'nothing'}))" }, "bad"), "wrong argument"); }
    else if(op == 9) { vec q; bool ok = nf; if(nf) { q = nf->parameters(); if(np) { runs(c, s, "p = f.get(); p[0] = 123.0"); } } if(!ok) s->run("f.get()"); }    // a copy
    else { g = reference(k, by_args); if(!runs(c, s, "g = f; f = " + construct(k, by_args) + "; del g; gc.collect()")) return; f = g; nf = dynamic_cast<nonlinear_function*>(f.get()); if(nf) { vec p = some(np, 1); nf->setParameters(p); runs(c, s, "f.set(" + lit(p) + ")"); } else return; }
    c.state(s->log); if(!compare(c, s, "f", f)) return; } }

// ---- sums and products, and the order in which things are released
static void scen_lifetime(mc::Ctx& c) {
  static const char* N[] = { "nonlinear_function_diffuse", "nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_fresnel_schlick" }; tool::clean(); Shell s; parameters p6(6, 3, params::CARTESIAN, params::RGB_COLOR); int i1 = c.pick(4, "first"), i2 = c.pick(4, "second"); ptr<function> f = plugins_manager::get_function(std::string(N[i1]), p6), g = plugins_manager::get_function(std::string(N[i2]), p6); NF nf = dynamic_pointer_cast<nonlinear_function>(f), ng = dynamic_pointer_cast<nonlinear_function>(g); nf->setParameters(some(nf->nbParameters(), 0)); ng->setParameters(some(ng->nbParameters(), 1));
  runs(c, s, std::string("f = alta.get_function('") + N[i1] + "', " + param(p6) + ")"); runs(c, s, std::string("g = alta.get_function('") + N[i2] + "', " + param(p6) + ")"); runs(c, s, "f.set(" + lit(nf->parameters()) + ")"); runs(c, s, "g.set(" + lit(ng->parameters()) + ")");
  std::map<std::string, ptr<function> > O{ {"f", f}, {"g", g} }; auto sum = [](NF a, NF b) { return ptr<function>(new compound_function(std::vector<NF>{ a, b }, std::vector<arguments>(2))); }; int t = c.pick(5, "tree"); bool bad = false;
  try { if(t == 0) O["h"] = sum(nf, ng); else if(t == 1) O["h"] = ptr<function>(new product_function(nf, ng)); else if(t == 2) O["h"] = sum(nf, nf); else if(t == 3) { O["h"] = sum(nf, ng); O["k"] = sum(dynamic_pointer_cast<nonlinear_function>(O["h"]), nf); } else { O["h"] = ptr<function>(new product_function(ng, nf)); O["k"] = sum(dynamic_pointer_cast<nonlinear_function>(O["h"]), ng); } } catch(std::exception&) { bad = true; }
  static const char* T[] = { "h = f + g", "h = f * g", "h = f + f", "h = f + g; k = h + f", "h = g * f; k = h + g" }; if(bad) { raises(c, s, T[t], "parts that do not go together"); return; } if(!runs(c, s, T[t])) return; for(auto& o : O) if(!compare(c, s, o.first, o.second)) return;
  Args left; for(auto& o : O) left.push_back(o.first); bool set = c.flag("set"); if(set) { ptr<function> o = O[left.back()]; NF no = dynamic_pointer_cast<nonlinear_function>(o); vec q = some(no->nbParameters(), 1); for(int i=0;i<q.size();++i) q[i] += 0.03*i; no->setParameters(q); if(!runs(c, s, left.back() + ".set(" + lit(q) + ")")) return; for(auto& w : O) if(!compare(c, s, w.first, w.second)) return; }
  while(left.size() > 1) { int k = c.pick((int)left.size(), "release"); runs(c, s, "del " + left[k] + "; gc.collect(); _x = [alta.vec([0.5]*64) for _ in range(20)]"); O.erase(left[k]); left.erase(left.begin() + k); c.state(s->log); for(auto& n : left) if(!compare(c, s, n, O[n])) return; } }

// ---- data
static std::string rows(int nx, int ny, const std::string& in, int n) { std::ostringstream o; o.precision(12); o << "#DIM " << nx << " " << ny << "\n#PARAM_IN " << in << "\n#PARAM_OUT RGB_COLOR\n"; for(int i=0;i<n;++i) { for(int k=0;k<nx;++k) o << 0.1 + 0.8*std::fmod((i+1)*0.618*(k+1), 1.0) << " "; for(int k=0;k<ny;++k) o << 1 + i*0.5 + k*0.25 << " "; o << "\n"; } return o.str(); }
struct DK { const char* python; ptr<data> (*make)(); };
static parameters R2() { return parameters(2, 3, params::RUSIN_TH_TD, params::RGB_COLOR); }
static const std::vector<DK>& DKS() { static const std::vector<DK> k{
  { "alta.load_data('vertical_segment', 'd.txt')", []{ return plugins_manager::load_data(path("d.txt"), "vertical_segment"); } }, { "alta.load_data('', 'd.txt')", []{ return plugins_manager::load_data(path("d.txt"), ""); } },
  { "alta.get_data('vertical_segment', 3, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR))", []{ return plugins_manager::get_data("vertical_segment", 3, R2()); } }, { "alta.get_data('vertical_segment', 0, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR))", []{ return plugins_manager::get_data("vertical_segment", 0, R2()); } },
  { "alta.get_data('data_grid', 0, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR), alta.arguments({'grid-size': [2, 3]}))", []{ return plugins_manager::get_data("data_grid", 0, R2(), arguments::create_arguments("--grid-size [2,3]")); } },
  { "alta.get_data('data_grid', 0, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR))", []{ return plugins_manager::get_data("data_grid", 0, R2()); } }, { "alta.load_data('data_rbf', 'd.txt')", []{ return plugins_manager::load_data(path("d.txt"), "data_rbf"); } },
  { "alta.get_data('data_brdf_slice', 0, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR))", []{ return plugins_manager::get_data("data_brdf_slice", 0, R2()); } }, { "alta.get_data('no_such_plugin', 2, alta.parameters(2,3,IN.RUSIN_TH_TD,OUT.RGB_COLOR))", []{ return plugins_manager::get_data("no_such_plugin", 2, R2()); } },
  { "alta.load_data('vertical_segment', 'missing.txt')", []{ return plugins_manager::load_data(path("missing.txt"), "vertical_segment"); } }, { "alta.load_data('vertical_segment', 'bad.txt')", []{ return plugins_manager::load_data(path("bad.txt"), "vertical_segment"); } }, { "alta.load_data('data_merl', 'bad.txt')", []{ return plugins_manager::load_data(path("bad.txt"), "data_merl"); } } }; return k; }
static bool compare(mc::Ctx& c, Shell& s, const std::string& v, const ptr<data>& d, bool all = true) {
  size_t l = s->log.size(); int n = d->size(); if(!c.check(s->text("len(" + v + ")") == std::to_string(n) && s->text(v + ".size()") == std::to_string(n), "size", s->log)) return false; s->log.resize(l); std::set<int> I; if(n <= 64) for(int i=0;i<n;++i) I.insert(i); else for(int i : { 0, 1, n/3, n/2, n-2, n-1 }) I.insert(i);
  for(int i : I) { vec x = d->get(i); if(!same(c, s, v + "[" + std::to_string(i) + "]", true, x, "sample") || !same(c, s, v + ".get(" + std::to_string(i) + ")", true, x, "sample")) return false; s->log.resize(l); } if(!all) return true;
  for(auto& x : points(d->parametrization(), 2)) { vec y; bool ok = n > 0 && calls([&]{ return d->value(x); }, y); if(n == 0) break; if(!same(c, s, v + ".value(" + lit(x) + ")", ok, y, "value")) return false; s->log.resize(l); } if(n <= 300) { D it; std::string e; bool ok = s->nums("[_y for _x in " + v + " for _y in _x]", it, e); D want; for(int i=0;i<n;++i) { vec x = d->get(i); want.insert(want.end(), x.data(), x.data() + x.size()); } c.check(ok && eq(it, want), "iteration", s->log + e); s->log.resize(l); } return true; }
static void scen_data(mc::Ctx& c) {
  tool::clean(); tool::spit(path("d.txt"), rows(2, 3, "RUSIN_TH_TD", 5)); tool::spit(path("bad.txt"), "#DIM 2 3\n1 2 3\n"); const DK& k = c.of(DKS(), "data"); Shell s; ptr<data> d; c.tag(k.python); try { d = k.make(); } catch(std::exception&) {} std::string e = s->run(std::string("d = ") + k.python); if(!d) { c.check(!e.empty() || s->text("d is None") == "True", "failure not reported", s->log); c.trivial = true; return; } if(!c.check(e.empty(), "exception", s->log + ": " + e) || !compare(c, s, "d", d)) return;
  int nx = d->parametrization().dimX(), ny = d->parametrization().dimY(), n = c.thorough ? 3 : 2; for(int step=0;step<n;++step) { int op = c.pick(7, "op"), size = d->size(); std::vector<int> I{ 0, size/2, size - 1 };
    if(op < 2) { int i = c.of(I, "index"), w = c.pick(5, "width"), width = w == 0 ? nx + ny : w == 1 ? nx + 3*ny : w == 2 ? nx + ny - 1 : w == 3 ? nx + ny + 1 : 0; if(i < 0 || i >= size) continue; vec x(width); for(int q=0;q<width;++q) x[q] = 0.3 + 0.01*q + step; if(w < 2) { vec o = d->get(i); for(int q=0;q<nx;++q) x[q] = o[q]; } vec dummy; bool ok = calls([&]{ if(width < nx + ny) throw std::runtime_error(""); d->set(i, x); return vec(); }, dummy); std::string code = op ? "d[" + std::to_string(i) + "] = " + lit(x) : "d.set(" + std::to_string(i) + ", " + lit(x) + ")"; if(ok) runs(c, s, code); else raises(c, s, code, "wrong sample accepted"); }
    else if(op == 2) { int i = c.of(std::vector<int>{ -1, size, size + 1000, 2147483647, -2147483647 }, "index"); std::string q = std::to_string(i); raises(c, s, "d[" + q + "]", "index", "IndexError"); raises(c, s, "d.get(" + q + ")", "index", "IndexError"); raises(c, s, "d[" + q + "] = " + lit(D(nx + ny, 1.0)), "index", "IndexError"); raises(c, s, "d.set(" + q + ", " + lit(D(nx + ny, 1.0)) + ")", "index", "IndexError"); }
    else if(op == 3) { int m = c.of(std::vector<int>{ -1, 1, 4 }, "by"); raises(c, s, "d.value(" + lit(D(nx + m, 0.5)) + ")", "point of another dimension"); }
    else if(op == 4) { std::string x = k.make == DKS()[7].make ? ".exr" : ".dat"; vec dummy; bool ok = calls([&]{ d->save(path("ref" + x)); return vec(); }, dummy); if(ok) { runs(c, s, "d.save('py" + x + "')"); c.check(tool::slurp(path("py" + x)) == tool::slurp(path("ref" + x)), "saved file", s->log); } else raises(c, s, "d.save('py" + x + "')", "failed save"); raises(c, s, "d.save('no/such" + x + "')", "failed save"); }
    else if(op == 5) { raises(c, s, c.of(Args{ "d['a']", "d.get(None)", "d.set(0, None)", "d.value(None)", "d.save(1)", "d[0] = 3", "d.set(0)", "alta.load_data('vertical_segment')", "alta.get_data('vertical_segment', -1, d.parametrization())", "alta.get_data('vertical_segment', 2, None)" }, "bad"), "wrong argument"); }
    else { runs(c, s, "p = d.parametrization(); e = d; del d; gc.collect(); d = e; del e; q = alta.get_data('vertical_segment', 1, p)"); c.check(s->text("len(q[0])") == std::to_string(nx + ny), "parametrization", s->log); }
    c.state(s->log); if(!compare(c, s, "d", d)) return; } }

// ---- conversions
static void scen_convert(mc::Ctx& c) {
  int a = c.pick(geo::NPAR, "from"), b = c.pick(geo::NPAR + 1, "to"), ny = c.of(std::vector<int>{ 3, 1 }, "channels"), wy = c.pick(3, "output"), dx = c.pick(3, "dimension"); if(wy && dx) c.prune(); if(wy && !c.thorough && a % 4) c.prune(); Shell s; tool::clean(); bool unknown = b == geo::NPAR; int my = wy == 0 ? ny : wy == 1 ? 4 - ny : 2; if(unknown) { b = 0; }
  parameters pin(geo::DIMS[a], ny, geo::ALL[a], ny == 3 ? params::RGB_COLOR : params::INV_STERADIAN), pout(geo::DIMS[b] + (dx == 1 ? 1 : dx == 2 ? -1 : 0), my, unknown ? params::UNKNOWN_INPUT : geo::ALL[b], my == 3 ? params::RGB_COLOR : my == 1 ? params::INV_STERADIAN : params::UNKNOWN_OUTPUT); c.tag(param(pin) + " to " + param(pout));
  static const int N = 3; ptr<data> d = plugins_manager::get_data("vertical_segment", N, pin); runs(c, s, "d = alta.get_data('vertical_segment', 3, " + param(pin) + ")"); for(int i=0;i<N;++i) { Pair p; p.v = geo::sph(0.3 + 0.3*i, 0.2 + 1.3*i); p.l = geo::sph(0.7 - 0.25*i, 1.9 - 0.7*i); auto co = geo::from(a, p); vec x(pin.dimX() + ny); for(int k=0;k<(int)pin.dimX();++k) x[k] = co[k].v; for(int k=0;k<ny;++k) x[pin.dimX() + k] = 1 + i + 0.25*k; d->set(i, x); runs(c, s, "d[" + std::to_string(i) + "] = " + lit(x)); }
  bool ok = !unknown && dx == 0; std::vector<vec> want; if(ok) try { for(int i=0;i<N;++i) { vec x = d->get(i), y(pout.dimX() + my); params::convert(&x[0], pin.input_parametrization(), pout.input_parametrization(), &y[0]); params::convert(&x[pin.dimX()], pin.output_parametrization(), ny, pout.output_parametrization(), my, &y[pout.dimX()]); want.push_back(y); } } catch(std::exception&) { ok = false; }
  s->log.clear(); if(!ok) { raises(c, s, "e = alta.data2data(d, " + param(pout) + ")", "impossible conversion"); return; } if(!runs(c, s, "e = alta.data2data(d, " + param(pout) + ")")) return; runs(c, s, "del d; gc.collect()"); c.check(s->text("len(e)") == "3", "size", s->log); for(int i=0;i<N;++i) { c.state(S(want[i])); if(!same(c, s, "e[" + std::to_string(i) + "]", true, want[i], "converted sample")) return; } runs(c, s, "e.save('e.txt')"); }
static void scen_evaluate(mc::Ctx& c) {
  tool::clean(); const Kind& k = c.of(kinds(), "function"); Shell s; ptr<function> f = reference(k, !k.name[0]); if(!c.check((bool)f, "missing", k.args)) return; c.tag(construct(k, !k.name[0])); runs(c, s, "f = " + construct(k, !k.name[0])); if(nonlinear_function* n = dynamic_cast<nonlinear_function*>(f.get())) { vec p = some(n->nbParameters(), 0); n->setParameters(p); runs(c, s, "f.set(" + lit(p) + ")"); } else { c.trivial = true; return; }
  int a = c.of(std::vector<int>{ CART, 20, 19, 3, 11 }, "positions"), fy = f->parametrization().dimY(), ny = c.of(std::vector<int>{ fy, fy == 1 ? 3 : 1, 2 }, "channels"), n = c.of(std::vector<int>{ 3, 1, 0 }, "rows"); parameters p(geo::DIMS[a], ny, geo::ALL[a], ny == 3 ? params::RGB_COLOR : params::INV_STERADIAN); runs(c, s, "d = alta.get_data('vertical_segment', " + std::to_string(n) + ", " + param(p) + ")");
  std::vector<vec> X; for(int i=0;i<n;++i) { Pair q; q.v = geo::sph(0.3 + 0.3*i, 0.2 + 1.3*i); q.l = geo::sph(0.7 - 0.25*i, 1.9 - 0.7*i); auto co = geo::from(a, q); vec x = vec::Constant(p.dimX() + ny, 9.0); for(int j=0;j<(int)p.dimX();++j) x[j] = co[j].v; X.push_back(x); runs(c, s, "d[" + std::to_string(i) + "] = " + lit(x)); } s->log.clear();
  bool ok = ny == fy && n > 0; if(ok) try { for(auto& x : X) { vec t(f->parametrization().dimX()); params::convert(&x[0], p.input_parametrization(), f->parametrization().input_parametrization(), &t[0]); x.tail(ny) = f->value(t); } } catch(std::exception&) { ok = false; }
  if(!ok) { raises(c, s, "alta.brdf2data(f, d)", "impossible evaluation"); return; } if(!runs(c, s, "alta.brdf2data(f, d)")) return; for(int i=0;i<n;++i) { c.state(S(X[i])); if(!same(c, s, "d[" + std::to_string(i) + "]", true, X[i], "evaluated sample")) return; } if(!compare(c, s, "f", f)) return; }
static void scen_stats(mc::Ctx& c) {
  static const int IN[] = { 3, CART, 11, 19 }; int a = IN[c.pick(4, "parametrization")], b = c.flag("other") ? 20 : a, n = c.of(std::vector<int>{ 3, 1, 0 }, "rows"), ny = c.of(std::vector<int>{ 3, 1 }, "channels"), my = c.flag("other channels") ? 4 - ny : ny, bits = c.pick(8, "values"); Shell s; parameters pa(geo::DIMS[a], ny, geo::ALL[a], ny == 3 ? params::RGB_COLOR : params::INV_STERADIAN), pb(geo::DIMS[b], my, geo::ALL[b], my == 3 ? params::RGB_COLOR : params::INV_STERADIAN); bool rbf = c.flag("interpolated"); tool::clean();
  ptr<data> A, B = plugins_manager::get_data("vertical_segment", n, pb), V = plugins_manager::get_data("vertical_segment", n, pa); auto fill = [&](ptr<data> d, int q, int k, int sh) { for(int i=0;i<n;++i) { Pair p; p.v = geo::sph(0.3 + 0.3*i, 0.2 + 1.3*i); p.l = geo::sph(0.7 - 0.25*i, 1.9 - 0.7*i); auto co = geo::from(q, p); int nx = d->parametrization().dimX(); vec x(nx + k); for(int j=0;j<nx;++j) x[j] = co[j].v; for(int j=0;j<k;++j) x[nx+j] = 1 + i + 0.25*j + (((bits >> (i+sh) % 3) & 1) ? 0.5 : 0); d->set(i, x); } }; fill(V, a, ny, 0); fill(B, b, my, 1); V->save(path("a.txt")); B->save(path("b.txt")); 
  const char* plug = rbf ? "data_rbf" : "vertical_segment"; bool ok = true; errors::metrics M; try { A = plugins_manager::load_data(path("a.txt"), plug); B = plugins_manager::load_data(path("b.txt"), "vertical_segment"); errors::compute(A.get(), B.get(), nullptr, M); } catch(std::exception&) { ok = false; }
  std::string e = s->run(std::string("a = alta.load_data('") + plug + "', 'a.txt'); b = alta.load_data('vertical_segment', 'b.txt')"); if(e.empty()) e = s->run("r = alta.data2stats(a, b)"); c.check(e.empty() == ok, "statistics", s->log + ": " + e); if(!ok || !e.empty()) return; c.check(s->text("type(r).__name__") == "dict" && s->text("len(r)") == std::to_string(M.size()), "statistics", s->log); for(auto& m : M) { std::string q = "r[" + quote(m.first) + "]"; c.state(m.first + S(m.second)); if(!same(c, s, q, true, m.second, "statistics")) return; } }

// ---- fits
static void scen_fit(mc::Ctx& c) {
  static const char* FT[] = { "rational_fitter_eigen", "rational_fitter_leastsquare", "rational_fitter_quadprog", "rational_fitter_parallel", "nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt", "no_such_fitter" }; static const char* FN[] = { "rational_function", "rational_function_legendre", "nonlinear_function_diffuse", "nonlinear_function_blinn" }; static const char* A[] = { 0, "--np 2 --nq 1", "--min-np 1 --min-nq 1 --np 2 --nq 2", "--np 3 --nq 2", "--dt 0.5" };
  int t = c.pick(8, "fitter"), fn = c.pick(4, "function"), ar = c.pick(5, "arguments"), n = c.of(std::vector<int>{ 4, 12, 1 }, "rows"), again = c.flag("twice"); tool::clean(); tool::spit(path("d.txt"), rows(1, 3, "COS_TH", n)); Shell s; c.tag(std::string(FT[t]) + " " + FN[fn]); parameters p(1, 3, params::COS_TH, params::RGB_COLOR); ptr<fitter> F = plugins_manager::get_fitter(FT[t]); runs(c, s, std::string("t = alta.get_fitter(") + quote(FT[t]) + ")"); if(!F) { c.check(s->text("t is None") == "True", "fitter", s->log); c.trivial = true; return; }
  if((t < 4) != (fn < 2)) { runs(c, s, "d = alta.load_data('vertical_segment', 'd.txt')"); runs(c, s, std::string("f = alta.get_function(") + quote(FN[fn]) + ", " + param(p) + ")"); std::string e = s->run("r = t.fit_data(d, f)"); c.check(!e.empty() || s->text("r") == "False", "fit of a function it does not know", s->log); return; }
  ptr<data> d = plugins_manager::load_data(path("d.txt"), "vertical_segment"); ptr<function> f = plugins_manager::get_function(std::string(FN[fn]), p); runs(c, s, "d = alta.load_data('vertical_segment', 'd.txt')"); runs(c, s, std::string("f = alta.get_function(") + quote(FN[fn]) + ", " + param(p) + ")"); if(nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get())) { vec q = some(nf->nbParameters(), 1); nf->setParameters(q); runs(c, s, "f.set(" + lit(q) + ")"); }
  for(int k=0;k<=again;++k) { arguments a; if(A[ar]) a = arguments::create_arguments(A[ar]); if(k && A[ar]) a = arguments::create_arguments("--np 1 --nq 1"); bool ok = false, threw = false; F->set_parameters(a); try { ok = F->fit_data(d, f, a); } catch(std::exception&) { threw = true; } std::string e = s->run(A[ar] ? "r = t.fit_data(d, f, " + dict(k ? "--np 1 --nq 1" : A[ar]) + ")" : "r = t.fit_data(d, f)"); c.outcome(ok + 2*threw); if(!c.check(threw == !e.empty(), "exception", s->log + e)) return; if(threw) return; if(!c.check(s->text("r") == (ok ? "True" : "False"), "result", s->log + s->text("r"))) return; c.state(s->log); if(ok && !compare(c, s, "f", f)) return; if(!ok) return; if(!compare(c, s, "d", d, false)) return; }
  runs(c, s, "del t, d; gc.collect()"); compare(c, s, "f", f); }

// ---- any call with any arguments ends with a value or an exception
static void scen_calls(mc::Ctx& c) {
  static const char* F[] = { "alta.norm", "alta.vec", "alta.arguments", "alta.parameters", "alta.get_function", "alta.load_function", "alta.get_data", "alta.load_data", "alta.get_fitter", "alta.data2data", "alta.data2stats", "alta.brdf2data", "v.__add__", "v.__sub__", "v.__getitem__", "v.__setitem__", "a.update", "a.__getitem__", "d.__getitem__", "d.__setitem__", "d.get", "d.set", "d.value", "d.save", "f.__add__", "f.__mul__", "f.value", "f.load", "f.save", "f.set", "f.get", "r.__add__", "r.__mul__", "r.set", "r.get", "r.load", "t.fit_data", "n.fit_data", "g.value", "g.get", "g.set", "i.value", "i.set", "alta.vec.__add__", "alta.vec.__getitem__", "alta.function.value", "alta.function.__add__", "alta.function.set", "alta.function.save", "alta.function.load", "alta.data.get", "alta.data.value", "alta.fitter.fit_data", "alta.fitter", "alta.function", "alta.data" };
  static const char* A[] = { "None", "0", "-1", "3", "1.5", "'d.txt'", "'nonlinear_function_diffuse'", "'data_grid'", "''", "[0.5, 0.25]", "{}", "v", "w", "alta.vec([])", "d", "i", "f", "r", "t", "a", "p", "q" }; const int NA = sizeof(A)/sizeof(*A);
  static Shell* keep = 0; std::string fn = F[c.pick(sizeof(F)/sizeof(*F), "call")], args; int n = c.pick(4, "arity"); if(n == 3 && !c.thorough && fn.find("get_data") == std::string::npos && fn.find("fit_data") == std::string::npos) c.prune(); int first = n ? c.pick(NA, "argument") : 0;      // the others below
  tool::clean(); tool::spit(path("d.txt"), rows(2, 3, "RUSIN_TH_TD", 4)); Shell s; runs(c, s, "v = alta.vec([0.5, 0.25]); w = alta.vec([0.5]*6); a = alta.arguments({'np': 2, 'nq': 1, 'func': 'nonlinear_function_diffuse'}); p = alta.parameters(2, 3, IN.RUSIN_TH_TD, OUT.RGB_COLOR); q = alta.parameters(6, 3, IN.CARTESIAN, OUT.RGB_COLOR)"); if(!runs(c, s, "d = alta.load_data('vertical_segment', 'd.txt'); i = alta.load_data('data_rbf', 'd.txt'); g = alta.get_data('data_grid', 0, p, alta.arguments({'grid-size': '[2,2]'})); f = alta.get_function('nonlinear_function_beckmann', q); r = alta.get_function('rational_function', p); t = alta.get_fitter('rational_fitter_eigen'); n = alta.get_fitter('nonlinear_fitter_eigen')")) return; s->log.clear();
  std::vector<int> k(n, 0); if(n) k[0] = first; while(true) { args = ""; for(int j=0;j<n;++j) args += std::string(j ? ", " : "") + A[k[j]]; c.tag(fn + "(" + args + ")"); std::string e = s->run(fn + "(" + args + ")"); c.outcome(e.empty()); c.state(fn + args + e); s->log.clear(); int j = n - 1; for(;j>=1;--j) { if(++k[j] < NA) break; k[j] = 0; } if(j < 1) break; }
  D x; std::string e; c.check(s->nums("d[0]", x, e) && x.size() == 5, "data lost", fn); c.check(s->nums("f.get()", x, e) && x.size() == 6, "function lost", fn); }

// ---- the module in an interpreter of its own, with whatever is alive when it ends
static void scen_process(mc::Ctx& c) {
  tool::clean(); tool::spit(path("d.txt"), rows(1, 3, "COS_TH", 4)); int mask = c.pick(128, "alive"), end = c.pick(3, "end"); static const char* V[] = { "v", "a", "d", "f", "h", "t", "i" }; std::string code = "import alta\nIN = alta.input_parametrization\nOUT = alta.output_parametrization\nv = alta.vec([1.0])\na = alta.arguments({'np': 1, 'nq': 1})\nd = alta.load_data('vertical_segment', 'd.txt')\ni = alta.load_data('data_rbf', 'd.txt')\nf = alta.get_function('nonlinear_function_diffuse', alta.parameters(1, 3, IN.COS_TH, OUT.RGB_COLOR))\nt = alta.get_fitter('nonlinear_fitter_eigen')\nok = t.fit_data(d, f, a)\nh = f + f\nh = h * f\nprint('RESULT', ok, [x for x in f.get()], [x for x in h.value(alta.vec([0.1, 0.2, 0.9, 0.3, -0.1, 0.8]))], len(d), [x for x in i.value(alta.vec([0.5]))])\n"; for(int k=0;k<7;++k) if(!((mask >> k) & 1)) code += std::string("del ") + V[k] + "\n"; if(end == 1) code += "x = [f for f in ()]\nimport sys\nsys.exit(3)\n"; else if(end == 2) code += "raise ValueError('end')\n"; tool::spit(path("s.py"), code);
  setenv("PYTHONPATH", (tool::env("VERIF_B", "/repo/_build") + "/python").c_str(), 1); tool::Run r = tool::run("/usr/bin/python3.12", { "s.py" }, 60); static const int ST[] = { 0, 3, 1 }; c.state(mask*3 + end); c.check(!r.signalled && !r.hung && r.status == ST[end], "exit", r.str() + " with " + std::to_string(mask) + " alive: " + r.err.substr(0, 300)); static std::map<int, std::string> first; size_t p = r.out.find("RESULT"); if(!c.check(p != std::string::npos, "no result", r.str() + r.err.substr(0, 300))) return;
  static std::string want; if(want.empty()) { Shell s; ptr<data> d = plugins_manager::load_data(path("d.txt"), "vertical_segment"), i = plugins_manager::load_data(path("d.txt"), "data_rbf"); parameters q(1, 3, params::COS_TH, params::RGB_COLOR); ptr<function> f = plugins_manager::get_function(std::string("nonlinear_function_diffuse"), q); ptr<fitter> t = plugins_manager::get_fitter("nonlinear_fitter_eigen"); arguments a = arguments::create_arguments("--np 1 --nq 1"); t->set_parameters(a); bool ok = t->fit_data(d, f, a); NF n = dynamic_pointer_cast<nonlinear_function>(f); compound_function* h = new compound_function(std::vector<NF>{ n, n }, std::vector<arguments>(2)); product_function m(NF(h), n); vec x = vec::Constant(1, 0.5), z(6), r1 = n->parameters(), r2, r3 = i->value(x); z << 0.1, 0.2, 0.9, 0.3, -0.1, 0.8; r2 = m.value(z); auto L = [](const vec& v) { return py::list(py::cast(std::vector<double>(v.data(), v.data() + v.size()))); }; want = std::string("RESULT ") + (ok ? "True " : "False ") + std::string(py::str(L(r1))) + " " + std::string(py::str(L(r2))) + " " + std::to_string(d->size()) + " " + std::string(py::str(L(r3))); }
  auto N = [](const std::string& s) { return tool::numbers(s); }; D g = N(r.out.substr(p, r.out.find('\n', p) - p)), w = N(want); bool same = g.size() == w.size(); for(size_t k=0;same && k<g.size();++k) same = mc::close(g[k], w[k], 1e-9, 1e-12); c.check(same && r.out.substr(p, 11) == want.substr(0, 11), "result", r.out.substr(p, 200) + " not " + want); }
// ---- the same calls on long vectors, many rows, many channels and many parts
static void scen_large(mc::Ctx& c) {
  static const std::vector<int> N{ 9, 16, 17, 33, 64, 65, 100, 255, 256, 257, 300, 1000, 1025, 4097 }; int what = c.pick(4, "what"); Shell s; tool::clean();
  if(what == 0) { int n = c.of(N, "size"), m = n + c.pick(3, "other size") - 1, at = c.of(std::vector<int>{ 0, 1, 7, 8, 127, 128, 255, 256, -1 }, "index"); if(at >= n) c.prune(); if(at < 0) at = n - 1; D a(n), b(m); for(int i=0;i<n;++i) a[i] = 0.5 + (i*37 % 101)*0.25; for(int i=0;i<m;++i) b[i] = -3 + (i*29 % 97)*0.125; runs(c, s, "a = " + lit(a)); runs(c, s, "b = " + lit(b)); s->log = "size " + std::to_string(n) + ": ";
    auto whole = [&](const char* v, const D& w) { D r; std::string e; bool ok = s->nums(v, r, e) && eq(r, w); s->log.resize(std::min<size_t>(s->log.size(), 300)); c.state(std::string(v) + S(w)); return c.check(ok, "value", s->log + v + ": " + e + (r.size() == w.size() ? "" : " length")); }; whole("a", a); whole("b", b);
    if(n == m) { D p(n), q(n); for(int i=0;i<n;++i) { p[i] = a[i] + b[i]; q[i] = a[i] - b[i]; } runs(c, s, "x = a + b"); whole("x", p); runs(c, s, "y = a - b"); whole("y", q); runs(c, s, "z = alta.vec(x)"); runs(c, s, "x[0] = 99.0"); whole("z", p); } else { raises(c, s, "x = a + b", "sum of different sizes", "ValueError"); raises(c, s, "x = a - b", "difference of different sizes", "ValueError"); raises(c, s, "x = b - a", "difference of different sizes", "ValueError"); }
    runs(c, s, "a[" + std::to_string(at) + "] = -7.5"); a[at] = -7.5; whole("a", a); D r; std::string e; double q = 0; for(double x : a) q += x*x; c.check(s->nums("[alta.norm(a), len(a)]", r, e) && mc::close(r[0], std::sqrt(q), 1e-12, 0) && r[1] == n, "norm", e + S(r)); std::ostringstream o; o << "["; for(int i=0;i<n;++i) o << (i ? ", " : "") << a[i]; o << "]"; c.check(s->text("a") == o.str(), "text", s->text("a").substr(0, 200)); s->log = ""; raises(c, s, "a[" + std::to_string(n) + "]", "index", "IndexError"); raises(c, s, "a[" + std::to_string(n) + "] = 1.0", "index", "IndexError"); raises(c, s, "a[-1]", "index"); whole("a", a); }
  else if(what == 1) { int n = c.of(N, "rows"), ny = c.of(std::vector<int>{ 1, 3, 2, 5, 9 }, "channels"); if(n > 300 && ny > 3) c.prune(); parameters p(2, ny, params::RUSIN_TH_TD, ny == 3 ? params::RGB_COLOR : ny == 1 ? params::INV_STERADIAN : params::UNKNOWN_OUTPUT), q(ny == 2 ? 2 : 3, ny, ny == 2 ? params::RUSIN_TH_TD : params::RUSIN_TH_TD_PD, p.output_parametrization()); ptr<data> d = plugins_manager::get_data("vertical_segment", n, p); runs(c, s, "d = alta.get_data('vertical_segment', " + std::to_string(n) + ", " + param(p) + ")"); std::string code = "_x = [";
    for(int i=0;i<n;++i) { vec x(2 + ny); x[0] = 0.05 + (i*37 % 101)*0.0125; x[1] = 0.1 + (i*53 % 97)*0.01; for(int k=0;k<ny;++k) x[2+k] = 1 + i + 0.25*k; d->set(i, x); code += (i ? "," : "") + lit(x); } runs(c, s, code + "]"); runs(c, s, "for _i, _v in enumerate(_x): d[_i] = _v"); s->log = std::to_string(n) + " rows: ";
    auto rows_of = [&](const char* v, const ptr<data>& w) { std::string e = s->run(std::string("_m = [list(") + v + "[_i]) for _i in range(len(" + v + "))]"); if(!c.check(e.empty() && s->text("len(_m)") == std::to_string(w->size()), "rows", s->log + e)) return false; py::list m = s.p->ns["_m"].cast<py::list>(); for(int i=0;i<w->size();++i) { D r = m[i].cast<D>(); vec x = w->get(i); if(!c.check(eq(r, x), "row", s->log + v + " row " + std::to_string(i) + ": " + S(r) + " not " + S(x))) return false; } c.state(std::string(v) + std::to_string(w->size())); return true; };
    if(!rows_of("d", d)) return; std::string past = "d[" + std::to_string(n) + "]"; raises(c, s, past, "index", "IndexError"); raises(c, s, past + " = _x[0]", "index", "IndexError"); raises(c, s, "d[-1]", "index"); raises(c, s, "d[0] = alta.vec([1.0])", "wrong size"); rows_of("d", d);
    d->save(path("r.txt")); runs(c, s, "d.save('p.txt')"); c.check(tool::slurp(path("r.txt")) == tool::slurp(path("p.txt")), "saved file", s->log); runs(c, s, "l = alta.load_data('vertical_segment', 'p.txt')"); ptr<data> l = plugins_manager::load_data(path("r.txt"), "vertical_segment"); rows_of("l", l);
    runs(c, s, "e = alta.data2data(d, " + param(q) + ")"); ptr<data> w = plugins_manager::get_data("vertical_segment", n, q); for(int i=0;i<n;++i) { vec x = d->get(i), y(q.dimX() + ny); params::convert(&x[0], p.input_parametrization(), q.input_parametrization(), &y[0]); y.tail(ny) = x.tail(ny); w->set(i, y); } rows_of("e", w); rows_of("d", d);
    if(ny == 1 || ny == 3) { errors::metrics M; bool ok = true; try { errors::compute(d.get(), l.get(), nullptr, M); } catch(std::exception&) { ok = false; } std::string e = s->run("r = alta.data2stats(d, l)"); c.check(e.empty() == ok, "statistics", e); if(ok && e.empty()) for(auto& m : M) if(!same(c, s, "r[" + quote(m.first) + "]", true, m.second, "statistics")) break; } }
  else if(what == 2) { int parts = c.of(std::vector<int>{ 2, 3, 4, 5, 6, 8, 11 }, "parts"), form = c.pick(3, "form"), n = c.of(std::vector<int>{ 9, 65, 257 }, "rows"); static const char* K[] = { "nonlinear_function_diffuse", "nonlinear_function_beckmann", "nonlinear_function_ward" }; parameters p(6, 3, params::CARTESIAN, params::RGB_COLOR); std::vector<NF> f; std::string make; for(int i=0;i<parts;++i) { f.push_back(dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string(K[i % 3]), p))); if(!c.check((bool)f.back(), "missing", K[i % 3])) return; vec v = some(f.back()->nbParameters(), i % 2); f.back()->setParameters(v); std::string nm = "f" + std::to_string(i); runs(c, s, nm + " = alta.get_function(" + quote(K[i % 3]) + ", " + param(p) + "); " + nm + ".set(" + lit(v) + ")"); }
    // sums and products, left to right or right to left
    NF h; std::string expr; if(form == 2) { h = f.back(); expr = "f" + std::to_string(parts-1); for(int i=parts-2;i>=0;--i) { h = NF(new compound_function(std::vector<NF>{ f[i], h }, std::vector<arguments>(2))); expr = "f" + std::to_string(i) + " + (" + expr + ")"; } } else { h = f[0]; expr = "f0"; for(int i=1;i<parts;++i) { std::string nm = "f" + std::to_string(i); if(form == 0 || i % 2 == 0) { h = NF(new compound_function(std::vector<NF>{ h, f[i] }, std::vector<arguments>(2))); expr = "(" + expr + " + " + nm + ")"; } else { h = NF(new product_function(h, f[i])); expr = "(" + expr + " * " + nm + ")"; } } }
    if(!runs(c, s, "h = " + expr)) return; s->log = expr + ": "; if(!compare(c, s, "h", h)) return; int np = h->nbParameters(); c.state(expr + std::to_string(np)); vec v(np); for(int i=0;i<np;++i) v[i] = 0.2 + 0.05*((i*7) % 13); h->setParameters(v); runs(c, s, "h.set(" + lit(v) + ")"); if(!compare(c, s, "h", h)) return; for(int i=0;i<parts;++i) if(!compare(c, s, "f" + std::to_string(i), f[i])) return; raises(c, s, "h.set(" + lit(D(np + 1, 0.5)) + ")", "wrong number of parameters"); raises(c, s, "h.set(" + lit(D(np - 1, 0.5)) + ")", "wrong number of parameters"); if(!compare(c, s, "h", h)) return;
    std::string gone = "del f0"; for(int i=1;i<parts;++i) gone += ", f" + std::to_string(i); runs(c, s, gone + "; gc.collect()"); if(!compare(c, s, "h", h)) return;
    parameters q(6, 3, params::CARTESIAN, params::RGB_COLOR); std::string code = "d = alta.get_data('vertical_segment', " + std::to_string(n) + ", " + param(q) + "); _x = ["; std::vector<vec> X; for(int i=0;i<n;++i) { V3 a = geo::sph(0.1 + (i*37 % 101)*0.014, 0.3*i), b = geo::sph(0.1 + (i*53 % 97)*0.014, 2 - 0.2*i); vec x(9); x << a.x, a.y, a.z, b.x, b.y, b.z, 9, 9, 9; X.push_back(x); code += (i ? "," : "") + lit(x); } runs(c, s, code + "]"); runs(c, s, "for _i, _v in enumerate(_x): d[_i] = _v"); runs(c, s, "alta.brdf2data(h, d)"); s->log = expr + ": "; for(int i=0;i<n;++i) { vec t(6); t = X[i].head(6); X[i].tail(3) = h->value(t); if(!same(c, s, "d[" + std::to_string(i) + "]", true, X[i], "evaluated sample")) return; s->log.resize(expr.size()); } }
  else { int n = c.of(std::vector<int>{ 5, 9, 12, 20, 40 }, "entries"), extra = c.pick(3, "updates"); arguments m; std::string init; for(int i=0;i<n;++i) { std::string k = "key-" + std::to_string(i*7 % n), v = "v" + std::to_string(i) + std::string(i*13 % 70, 'x'); init += std::string(i ? ", " : "") + quote(k) + ": " + quote(v); m.update(k, v); } runs(c, s, "a = alta.arguments({" + init + "})"); for(int i=0;i<extra*n;++i) { std::string k = "key-" + std::to_string(i*5 % (2*n)), v = std::to_string(i); m.update(k, v); s->run("a.update(" + quote(k) + ", " + quote(v) + ")"); } s->log = ""; for(int i=0;i<2*n+1;++i) { std::string k = "key-" + std::to_string(i); c.check(s->text("a[" + quote(k) + "]") == m[k], "value", k + ": " + s->text("a[" + quote(k) + "]") + " not " + m[k]); } c.state(init + std::to_string(extra)); } }
MC_MAIN({"vec", scen_vec, 3, 60}, {"args", scen_args, 3, 60}, {"function", scen_function, 3, 60}, {"lifetime", scen_lifetime, 3, 60}, {"data", scen_data, 3, 60}, {"convert", scen_convert, 2, 60}, {"evaluate", scen_evaluate, 3, 60}, {"stats", scen_stats, 3, 60}, {"fit", scen_fit, 3, 60}, {"calls", scen_calls, 3, 120}, {"process", scen_process, 2, 60}, {"large", scen_large, 2, 60})
