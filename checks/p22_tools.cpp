// P22: the command-line tools write what their inputs and options determine, and say so when they cannot.
#include "tools.h"
#include "tree.h"
#include "exr.h"
#include "core/rational_function.h"
#include "core/data_storage.h"
using namespace mdl;
typedef std::vector<double> D; typedef std::vector<D> Rows; typedef std::vector<std::string> Args;
static const double TOL = 1e-12;
static int named(params::input p) { for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == p) return k; return -1; }
static std::string path(const char* n) { return tool::dir() + "/" + n; }
static std::string cmd(const std::string& t, const Args& a) { std::string s = t; for(auto& x : a) s += " " + x; return s; }
static vec V(const D& d) { vec v(d.size()); for(size_t i=0;i<d.size();++i) v[i] = d[i]; return v; }
// ---- files
static const std::vector<Pair>& pts() { static const std::vector<Pair> P{ { geo::sph(0.4,0.3), geo::sph(0.7,2.5) }, { geo::sph(1.1,-1), geo::sph(0.2,1) }, { geo::sph(1.2,0.2), geo::sph(1.0,2.9) }, { geo::sph(0.9,0.2), geo::sph(0.8,0.5) }, { geo::sph(1.9,0.4), geo::sph(0.5,2) }, { geo::sph(0.3,-2), geo::sph(2.1,0.7) }, { geo::sph(2.2,1.1), geo::sph(1.8,-0.4) } }; return P; }
static D coords(int k, int i) { auto co = geo::from(k, pts()[i]); D r; for(auto& q : co) r.push_back(q.v); return r; }
static double yval(int i, int j) { static const double Y[] = { 0.25, -1.5, 1.0/3, 1234.5678901234, 0, 2e-7, 7 }; return Y[(i + 2*j) % 7]*(1 + j); }
static std::string head(int nx, int ny, const std::string& in, const std::string& out, const std::string& more = "") { std::ostringstream o; o << "#DIM " << nx << " " << ny << "\n#PARAM_IN " << in << "\n#PARAM_OUT " << out << "\n" << more; return o.str(); }
static std::string text(const Rows& r, int nx, int ny, const std::string& in, const std::string& out, int ci = 0) { std::ostringstream o; o.precision(17); o << head(nx, ny, in, out, ci ? "#VS 2\n" : ""); for(auto& x : r) { for(double v : x) o << v << " "; if(ci) for(int j=0;j<2*ny;++j) o << (j < ny ? x[nx+j] - 0.1 : x[nx+j-ny] + 0.2) << " "; o << "\n"; } return o.str(); }
static std::string binary(const Rows& r, int nx, int ny, const std::string& in, const std::string& out) { std::string s = head(nx, ny, in, out) + "#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n#SAMPLE_COUNT " + std::to_string(r.size()) + "\n#VS 0\n#ENDIAN little\n#BEGIN_STREAM\n"; for(auto& x : r) s.append((const char*)&x[0], x.size()*8); return s + "\n#END_STREAM\n"; }
// rows of an output file, text or binary, read independently of the library
static bool output(const std::string& f, std::map<std::string,std::string>& h, Rows& r) { std::string s = tool::slurp(f); size_t b = s.find("#BEGIN_STREAM\n"); if(b == std::string::npos) { tool::File t = tool::table(s); h = t.head; r = t.rows; return true; } h = tool::table(s.substr(0, b)).head; b += 14; int nx = 0, ny = 0; if(sscanf(h["DIM"].c_str(), "%d %d", &nx, &ny) != 2) return false; int n = atoi(h["SAMPLE_COUNT"].c_str()); size_t w = (nx + ny*(1 + atoi(h["VS"].c_str())))*8; if(s.size() < b + n*w || s.substr(b + n*w).find("#END_STREAM") == std::string::npos) return false; for(int i=0;i<n;++i) { D x(nx+ny); memcpy(&x[0], s.data() + b + i*w, (nx+ny)*8); r.push_back(x); } return true; }
static void compare(mc::Ctx& c, const std::string& f, int nx, int ny, const std::string& in, const std::string& out, const Rows& e, const std::string& w, double tol = TOL) {
  std::map<std::string,std::string> h; Rows r; if(!c.check(output(f, h, r), "unreadable output", w)) return; int a = 0, b = 0; sscanf(h["DIM"].c_str(), "%d %d", &a, &b);
  c.check(a == nx && b == ny, "dimensions", w + ": " + h["DIM"]); c.check(h["PARAM_IN"] == in, "input parametrization", w + ": " + h["PARAM_IN"]); c.check(h["PARAM_OUT"] == out, "output parametrization", w + ": " + h["PARAM_OUT"]); c.outcome((int)r.size());
  if(!c.check(r.size() == e.size(), "rows", w + ": " + std::to_string(r.size()) + " rows, not " + std::to_string(e.size()))) return;
  for(size_t i=0;i<e.size();++i) { if(!c.check(r[i].size() == e[i].size(), "row length", w + ": row " + std::to_string(i) + " has " + std::to_string(r[i].size()))) return; for(size_t k=0;k<e[i].size();++k) { c.outcome(r[i][k]); if(!c.check(mc::close(r[i][k], e[i][k], tol, tol*0.1), k < (size_t)nx ? "coordinate" : "value", w + ": row " + std::to_string(i) + " entry " + std::to_string(k) + " is " + mc::dstr(r[i][k]) + " not " + mc::dstr(e[i][k]))) return; } } }
static bool convert(const D& x, int from, int to, D& r) { r.assign(geo::DIMS[to] + 6, 0); D q = x; q.resize(16); try { params::convert(&q[0], geo::ALL[from], geo::ALL[to], &r[0]); } catch(std::exception&) { return false; } r.resize(geo::DIMS[to]); return true; }
static int above(const Pair& p) { return p.v.z > 1e-3 && p.l.z > 1e-3 ? 1 : p.v.z < -1e-3 || p.l.z < -1e-3 ? 0 : -1; }
static const std::vector<std::string> ON{ "INV_STERADIAN", "RGB_COLOR", "UNKNOWN_OUTPUT" };
// rows expected from a conversion; -1 for ones that may go either way
static int expected(int in, int out, const std::vector<int>& rows, int ny, bool all, Rows& e, Rows& given) { bool ok = true; for(int i : rows) { D x = coords(in, i), q; if(!convert(x, in, out, q)) { ok = false; continue; } for(double v : q) if(!std::isfinite(v)) return -1; Pair a = geo::to(in, &x[0]), b = geo::to(out, &q[0]); int ka = above(a), kb = above(b); if(!all && (ka < 0 || ka != kb)) continue; D g = x; for(int j=0;j<ny;++j) { g.push_back(yval(i, j)); q.push_back(yval(i, j)); } given.push_back(g); if(all || ka == 1) e.push_back(q); } return ok; }
static void scen_convert(mc::Ctx& c) {
  int in = c.pick(geo::NPAR, "in"), to = c.pick(geo::NPAR + 1, "to"), mode = c.pick(4, "mode"), ny = mode % 2 ? 3 : 1; int out = to == geo::NPAR ? in : to; tool::clean(); std::string po = ON[(in + to) % 3]; c.tag("convert"); Rows e, given; bool all = mode >= 2; int k = expected(in, out, { 0, 4, 1, 2, 6, 5, 3 }, ny, all, e, given); if(k < 0 || (k && given.empty())) c.prune();
  int nx = geo::DIMS[in]; bool bin = mode == 1 || mode == 2; tool::spit(path("in.dat"), bin ? binary(given, nx, ny, geo::NAMES[in], po) : text(given, nx, ny, geo::NAMES[in], po, mode == 3)); Args a{ "--input", "in.dat", "--output", "out.dat" }; if(to < geo::NPAR) { a.push_back("--param"); a.push_back(geo::NAMES[out]); } if(all) a.push_back("--all-values"); if(mode % 2 == 0) { a.push_back("--out-data"); a.push_back(bin ? "alta-binary" : "vertical_segment"); }
  std::string w = cmd("data2data", a) + " from " + geo::NAMES[in] + " mode " + std::to_string(mode); c.state(w); tool::Run r = tool::run("data2data", a); if(!k) { c.check(r.failed(), "impossible conversion", w + " " + r.str()); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; compare(c, path("out.dat"), geo::DIMS[out], ny, geo::NAMES[out], po, e, w); }
// every sequence of rows above and below the horizon
static void scen_rows(mc::Ctx& c) {
  static const std::vector<std::pair<int,int> > IO{ { 20, 22 }, { 22, 10 }, { 19, 20 } }; auto io = c.of(IO, "conversion"); int n = c.pick(c.thorough ? 6 : 5, "rows"); std::vector<int> rows; static const int R[] = { 0, 4, 1, 5 }; for(int i=0;i<n;++i) rows.push_back(R[c.pick(n < 4 ? 4 : 2, "row")]); int fmt = c.pick(2, "format"); bool all = c.flag("all"), bin = c.flag("binary output"); int ny = 1 + c.pick(2, "ny")*2; tool::clean(); c.tag("rows");
  Rows e, given; expected(io.first, io.second, rows, ny, all, e, given); int nx = geo::DIMS[io.first]; tool::spit(path("in.dat"), fmt ? binary(given, nx, ny, geo::NAMES[io.first], "RGB_COLOR") : text(given, nx, ny, geo::NAMES[io.first], "RGB_COLOR")); Args a{ "--output", "out.dat", "--input", "in.dat", "--param", geo::NAMES[io.second] }; if(all) a.push_back("--all-values"); if(bin) { a.push_back("--out-data"); a.push_back("alta-binary"); }
  std::string w = cmd("data2data", a); for(int i : rows) w += " " + std::to_string(i); c.state(w); tool::Run r = tool::run("data2data", a); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; compare(c, path("out.dat"), geo::DIMS[io.second], ny, geo::NAMES[io.second], "RGB_COLOR", e, w); }
// filters of the input
static void scen_filter(mc::Ctx& c) {
  int nx = 1 + c.pick(2, "nx"), ny = 1 + c.pick(2, "ny"), in = nx == 1 ? 0 : 5; static const D B{ 0.2, 0.5, 0.8 }; std::string o[4]; D lim[4]; Args a{ "--input", "in.dat", "--output", "out.dat", "--all-values" }; static const char* NM[] = { "--min", "--max", "--ymin", "--ymax" };
  for(int f=0;f<4;++f) { int k = c.pick(4, "bound"); if(!k) continue; int dim = f < 2 ? nx : ny; a.push_back(NM[f]); std::ostringstream s; s << "["; for(int j=0;j<dim;++j) { double b = j ? B[1] + (f % 2 ? 0.25 : -0.25) : B[k-1]; lim[f].push_back(b); s << (j ? ", " : "") << b; } s << "]"; std::istringstream ss(s.str()); std::string t; while(ss >> t) a.push_back(t); }
  Rows given, e; tool::clean(); c.tag("filter"); static const D X{ 0.1, 0.2, 0.45, 0.5, 0.55, 0.8, 0.9 }; int i = 0; for(double p : X) for(double q : D{ 0.1, 0.3, 0.6, 0.85 }) { D r{ p }; if(nx == 2) r.push_back(q); D y; y.push_back(X[(i*3) % 7]); if(ny == 2) y.push_back(X[(i*5 + 1) % 7]); ++i; bool keep = true; for(int k=0;k<nx;++k) if((!lim[0].empty() && r[k] < lim[0][k]) || (!lim[1].empty() && r[k] > lim[1][k])) keep = false; for(int k=0;k<ny;++k) if((!lim[2].empty() && y[k] < lim[2][k]) || (!lim[3].empty() && y[k] > lim[3][k])) keep = false; r.insert(r.end(), y.begin(), y.end()); given.push_back(r); if(keep) e.push_back(r); if(nx == 1 && q > 0.2) break; }
  tool::spit(path("in.dat"), text(given, nx, ny, geo::NAMES[in], "ENERGY")); std::string w = cmd("data2data", a) + " " + std::to_string(nx) + "x" + std::to_string(ny); c.state(w); tool::Run r = tool::run("data2data", a); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; compare(c, path("out.dat"), nx, ny, geo::NAMES[in], "ENERGY", e, w, 1e-11); }
// ---- measurement formats on either side
static const int NU = 288*288;
static std::string utia_file() { static std::string s; if(s.empty()) for(int ch=0;ch<3;++ch) for(int i=0;i<NU;++i) exr::put<double>(s, 1 + (i*7 + ch*13)%101); return s; }
static std::string slice_file(int w, int h) { std::vector<float> p; for(int i=0;i<3*w*h;++i) p.push_back(0.5f + (i*5)%17); return exr::file(w, h, p); }
static std::string scatter(int k, int ny) { Rows r; for(int i=0;i<6;++i) { D x; for(int j=0;j<geo::DIMS[k];++j) x.push_back(0.1 + 0.9*std::fmod((i+1)*0.6180339887*(j+1) + 0.31*j, 1.0)); for(int j=0;j<ny;++j) x.push_back(1 + i*i + 0.5*j*i); r.push_back(x); } return text(r, geo::DIMS[k], ny, geo::NAMES[k], "RGB_COLOR"); }
static std::string astm_file() { return "NUM_POINTS 3\nVARS theta_i,phi_i,theta_s,phi_s,Red,Green,Blue\n0.1,0.2,0.3,0.4,1,2,3\n0.5,0,0.2,1,4,5,6\n0.7,3,0.4,2,7,8,9\n"; }
struct Src { const char* plugin; int kind; }; static const std::vector<Src> SRC{ { "data_rbf", 0 }, { "data_utia", 1 }, { "data_brdf_slice", 2 }, { "data_grid", 3 }, { "data_rbf", 4 }, { "vertical_segment", 5 }, { "data_astm", 6 }, { "data_merl", 7 } };
static const char* src(int kind) { return kind == 1 ? "src.bin" : "src.exr"; }
static void make_source(int kind) { if(kind == 0) tool::spit(path(src(kind)), scatter(4, 3)); if(kind == 1) tool::spit(path(src(kind)), utia_file()); if(kind == 2) tool::spit(path(src(kind)), slice_file(5, 4)); if(kind == 3) { ptr<data> g = plugins_manager::get_data("data_grid", 0, parameters(2, 3, params::STARK_2D, params::RGB_COLOR), arguments::create_arguments("--grid-size [4,5]")); for(int i=0;i<g->size();++i) { vec x = g->get(i); for(int k=0;k<3;++k) x[2+k] = 1 + i*i + k; g->set(i, x); } g->save(path(src(kind))); } if(kind == 4) tool::spit(path(src(kind)), scatter(10, 3)); if(kind == 5) tool::spit(path(src(kind)), scatter(22, 3)); if(kind == 6) tool::spit(path(src(kind)), astm_file());
  if(kind == 7) { std::string s; int n[3] = { 90, 90, 180 }; s.append((char*)n, 12); for(int ch=0;ch<3;++ch) for(int i=0;i<90*90*180;++i) exr::put<double>(s, 1 + (i*7 + ch*13)%1009); tool::spit(path(src(kind)), s); } }
struct Dst { const char* plugin; const char* name; const char* args; }; static const std::vector<Dst> DST{ { "data_utia", "out.bin", "" }, { "data_brdf_slice", "out.exr", "" }, { "data_grid", "out.dat", "--grid-size [3,4]" }, { "data_utia", "out.exr", "" }, { "data_grid", "out.dat", "--grid-size [3,2,4] --param RUSIN_TH_TD_PD" }, { "", "out.dat", "" }, { "data_merl", "out.binary", "" } };
static Args split(const std::string& s) { Args r; std::istringstream i(s); std::string w; while(i >> w) r.push_back(w); return r; }
static std::string loaded(const std::string& p) { return p == "data_utia" || p == "data_merl" || p == "data_brdf_slice" || p == "data_grid" ? p : ""; }
static void scen_formats(mc::Ctx& c) {
  int s = c.pick(c.thorough ? 8 : 7, "source"), d = c.pick(c.thorough ? 7 : 6, "destination"); const Dst& T = DST[d]; if(s == 7 && d == 5) c.prune(); bool all = d == 5 && c.flag("all"); tool::clean(); c.tag(std::string(SRC[s].plugin) + " to " + T.plugin); make_source(SRC[s].kind); Args a{ "--input", src(SRC[s].kind), "--in-data", SRC[s].plugin, "--output", T.name }; if(T.plugin[0]) { a.push_back("--out-data"); a.push_back(T.plugin); } for(auto& x : split(T.args)) a.push_back(x); if(d == 5) { a.push_back("--param"); a.push_back("CARTESIAN"); } if(all) a.push_back("--all-values");
  std::string w = cmd("data2data", a); c.state(w); tool::Run r = tool::run("data2data", a, 300); ptr<data> in = plugins_manager::load_data(path(src(SRC[s].kind)), SRC[s].plugin, arguments::create_arguments(T.args)); if(!c.check((bool)in, "source", w)) return; const parameters& pi = in->parametrization(); bool plain = dynamic_pointer_cast<vertical_segment>(in) && SRC[s].kind != 3;
  if(plain && d != 5) { c.check(r.failed(), "no interpolation", w + " " + r.str()); return; } arguments la = arguments::create_arguments(std::string(T.args) + " --filename " + path(T.name)); ptr<data> ref; if(d != 5) try { ref = plugins_manager::get_data(T.plugin, in->size(), parameters(pi.dimX(), pi.dimY(), pi.input_parametrization(), pi.output_parametrization()), arguments::create_arguments(T.args)); } catch(std::exception&) {} if(d != 5 && !ref) { c.check(r.failed(), "unsupported format", w + " " + r.str()); return; }
  if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return;
  if(d == 5) { Rows e; int k = named(pi.input_parametrization()); for(int i=0;i<in->size();++i) { vec x = in->get(i); D q(x.data(), x.data() + pi.dimX()), o; if(!convert(q, k, CART, o)) { c.fail("conversion", w); return; } if(!all) { bool keep = params::is_above_hemisphere(&o[0], params::CARTESIAN); if(!keep) continue; } for(int j=0;j<pi.dimY();++j) o.push_back(x[pi.dimX()+j]); e.push_back(o); } compare(c, path(T.name), 6, pi.dimY(), "CARTESIAN", params::get_name(pi.output_parametrization()), e, w); return; }
  ptr<data> out = plugins_manager::load_data(path(T.name), T.plugin, la); if(!c.check(out && ref, "output not loaded", w)) return; if(!c.check(out->size() == ref->size(), "size", w)) return; const parameters& po = out->parametrization(); bool flt = std::string(T.name).find("exr") != std::string::npos; int ko = named(po.input_parametrization()), ki = named(pi.input_parametrization()); if(d == 4) c.check(po.input_parametrization() == params::RUSIN_TH_TD_PD, "parametrization", w);
  for(int i=0;i<out->size();++i) { vec x = out->get(i), x0 = ref->get(i); for(int k=0;k<po.dimX();++k) if(!mc::close(x[k], x0[k], 1e-12, 1e-12)) { c.fail("coordinates", w + ": row " + std::to_string(i)); return; } D q(x.data(), x.data() + po.dimX()), cart, z; if(!convert(q, ko, CART, cart)) { c.fail("conversion", w); return; } vec y = vec::Zero(po.dimY()); if(std::fabs(cart[2]) < 1e-9 || std::fabs(cart[5]) < 1e-9 || !std::isfinite(cart[2] + cart[5])) continue; if(cart[2] > 0 && cart[5] > 0) { convert(cart, CART, ki, z); z.resize(16); y = in->value(V(D(z.begin(), z.begin() + pi.dimX()))); } for(int k=0;k<po.dimY();++k) { double v = x[po.dimX()+k]; if(i < 40) c.outcome(v); if(!mc::close(v, y[k], flt ? 1e-6 : 1e-11, flt ? 1e-6 : 1e-11)) { c.fail("value", w + ": row " + std::to_string(i) + " channel " + std::to_string(k) + " is " + mc::dstr(v) + " not " + mc::dstr(y[k])); return; } } } }
// rows copied by index between files of one format
static void scen_splat(mc::Ctx& c) {
  int s = 1 + c.pick(3, "format"); bool all = c.flag("all"), plain = c.flag("text output"); tool::clean(); c.tag("splat"); make_source(SRC[s].kind); const char* GA = "--grid-size [4,5]"; std::string o = s == 1 ? "o.bin" : s == 2 ? "o.exr" : "o.dat"; if(plain) o = "o.dat"; std::string plug = SRC[s].plugin; if(s == 2 && !plain) c.prune();     // the size of a slice is fixed
  Args a{ "--input", src(SRC[s].kind), "--in-data", plug, "--output", o, "--splat" }; if(!plain) { a.push_back("--out-data"); a.push_back(plug); if(s == 3) for(auto& x : split(GA)) a.push_back(x); } if(all) a.push_back("--all-values"); std::string w = cmd("data2data", a); c.state(w); ptr<data> in = plugins_manager::load_data(path(src(SRC[s].kind)), plug, arguments()); if(!c.check((bool)in, "source", w)) return;
  tool::Run r = tool::run("data2data", a, 300); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return; ptr<data> out = plugins_manager::load_data(path(o.c_str()), plain ? "" : plug, arguments()); if(!c.check((bool)out, "output not loaded", w)) return; if(!c.check(out->size() == in->size(), "size", w + ": " + std::to_string(out->size()))) return; const parameters& p = in->parametrization(); int nx = p.dimX(), ny = p.dimY(); c.check(out->parametrization().input_parametrization() == p.input_parametrization(), "parametrization", w);
  for(int i=0;i<in->size();++i) { vec x = in->get(i), y = out->get(i); if(!all && params::is_below_hemisphere(&x[0], p.input_parametrization())) continue; for(int k=0;k<nx+ny;++k) { if(i < 40) c.outcome(y[k]); if(!mc::close(y[k], x[k], 1e-12, 1e-12)) { c.fail(k < nx ? "coordinates" : "value", w + ": row " + std::to_string(i) + " entry " + std::to_string(k) + " is " + mc::dstr(y[k]) + " not " + mc::dstr(x[k])); return; } } } }
// ---- functions evaluated by brdf2data and brdf2gnuplot
static const int NF_EXTRA = 4;
static bool write_function(mc::Ctx& c, int mi, int ny, int variant, std::string& w) { std::string f = path("f.func"); int NM = (int)models().size();
  if(mi < NM) { const Model& m = models()[mi]; int in = input(m, variant % inputs(m)); NF g = make(m, ny, in); if(!g) return false; std::vector<int> a(m.np*m.lobes + m.extra, 0); for(size_t i=0;i<a.size();++i) a[i] = (variant + (int)i) % (int)m.alpha[i].size(); g->setParameters(pvec(m, ny, a)); w = std::string(m.name) + " in " + geo::NAMES[in]; g->save(f, arguments::create_arguments(std::string("--func ") + m.plugin)); return true; }
  int k = mi - NM; static const char* CMD[] = { "--func [nonlinear_function_blinn, nonlinear_function_diffuse]", "--func nonlinear_function_beckmann --fresnel nonlinear_fresnel_schlick", "", "" };
  if(k < 2) { ptr<function> g(plugins_manager::get_function(arguments::create_arguments(CMD[k]), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); nonlinear_function* n = dynamic_cast<nonlinear_function*>(g.get()); if(!n) return false; vec q(n->nbParameters()); for(int i=0;i<q.size();++i) q[i] = 0.3 + 0.11*i; n->setParameters(q); w = CMD[k]; g->save(f, arguments::create_arguments(CMD[k])); return true; }
  static const int IN[] = { 0, 4, 10 }; int in = IN[variant % 3], nx = geo::DIMS[in]; bool un = k == 3; ptr<rational_function> g(new rational_function(parameters(nx, ny, un ? params::UNKNOWN_INPUT : geo::ALL[in], params::INV_STERADIAN))); vec lo = vec::Constant(nx, -2.0), hi = vec::Constant(nx, 4.0); g->setMin(lo); g->setMax(hi); g->setSize(4, 2); for(int j=0;j<ny;++j) { vec a(4), b(2); a << 1, -0.5, 0.25 + j, 2; b << 1, 0.125; g->get(j)->update(a, b); } w = std::string("rational ") + (un ? "without parametrization" : geo::NAMES[in]); g->save(f, arguments::create_arguments("--func rational_function")); return true; }
static vec evaluate(const function& f, const D& x, int k) { const parameters& p = f.parametrization(); D q; if(p.input_parametrization() == params::UNKNOWN_INPUT) { q = x; q.resize(p.dimX()); } else if(!convert(x, k, named(p.input_parametrization()), q)) throw std::runtime_error("conversion"); return f.value(V(q)); }
static const std::vector<int> TPL{ CART, 20, 10, 4, 0 };
static void scen_brdf2data(mc::Ctx& c) {
  int mi = c.pick((int)models().size() + NF_EXTRA, "function"), k = c.of(TPL, "template"), v = c.pick(c.thorough ? 12 : 3, "variant"), ny = v % 2 ? 3 : 1; bool diff = c.flag("diff"); tool::clean(); c.tag("brdf2data"); std::string w; if(!c.check(write_function(c, mi, ny, v, w), "no function", w)) return; ptr<function> f(plugins_manager::load_function(path("f.func"))); if(!c.check((bool)f, "function not loaded", w)) return; std::string po = ON[v % 3]; bool bin = (mi + k + v) % 3 == 0; Rows given, e; int fx = f->parametrization().dimX(); bool un = f->parametrization().input_parametrization() == params::UNKNOWN_INPUT, can = !un || fx <= geo::DIMS[k];
  for(int i=0;i<4;++i) { D x = coords(k, i), r = x; if(can) { vec y = evaluate(*f, x, k); bool ok = true; for(int j=0;j<ny;++j) { double t = yval(i, j), z = diff ? t - y[j] : y[j]; ok = ok && std::isfinite(z); r.push_back(z); } if(!ok) continue; e.push_back(r); } for(int j=0;j<ny;++j) x.push_back(yval(i, j)); given.push_back(x); } if(given.empty()) c.prune();
  tool::spit(path("t.dat"), bin ? binary(given, geo::DIMS[k], ny, geo::NAMES[k], po) : text(given, geo::DIMS[k], ny, geo::NAMES[k], po)); Args a{ "--input", "f.func", "--output", "o.dat", "--data-file", "t.dat" }; if(diff) a.push_back("--export-diff"); w += ": " + cmd("brdf2data", a) + " template " + geo::NAMES[k] + " ny " + std::to_string(ny); c.state(w); tool::Run r = tool::run("brdf2data", a); if(!can) { c.check(r.failed(), "impossible evaluation", w + " " + r.str()); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; compare(c, path("o.dat"), geo::DIMS[k], ny, geo::NAMES[k], po, e, w, 1e-11); }
// many rows and channels, in all row-wise tools; every so often a row below the horizon
static D spread(int k, int i) { Pair p{ geo::sph(0.1 + 1.35*std::fmod(i*0.6180339887, 1.0), -3 + 6*std::fmod(i*0.7548776662, 1.0)), geo::sph(0.1 + 1.35*std::fmod(i*0.5698402910 + 0.3, 1.0), -3 + 6*std::fmod(i*0.4142135624 + 0.1, 1.0)) }; if(i % 7 == 3) p.v = geo::sph(M_PI - 0.3 - 0.01*(i % 50), 0.5); auto co = geo::from(k, p); D r; for(auto& q : co) r.push_back(q.v); return r; }
static void scen_large(mc::Ctx& c) {
  static const std::vector<int> NS{ 50, 257, 1000, 4100 }; int tool_ = c.pick(3, "tool"), n = c.of(NS, "rows"); static const std::vector<int> NY{ 1, 3, 4, 9 }; int ny = c.of(NY, "channels"), in = c.of(std::vector<int>{ CART, 20, 19 }, "in"), out = c.of(std::vector<int>{ CART, 20, 10, 22 - 22 }, "out"), var = c.pick(4, "variant"); bool bin = var & 1, opt = var & 2; tool::clean(); c.tag("large"); int nx = geo::DIMS[in]; if(out == 0) out = in; else if(out == in) { c.trivial = true; return; } if(tool_ && (out != in || n > 1000)) { c.trivial = true; return; }
  std::string w; ptr<function> f; if(tool_) { int fy = ny == 3 || ny == 1 ? ny : ny; if(!c.check(write_function(c, opt ? 0 : 7, fy, 0, w), "no function", w)) return; f = ptr<function>(plugins_manager::load_function(path("f.func"))); if(!c.check((bool)f, "function not loaded", w)) return; }
  Rows given, e; for(int i=0;i<n;++i) { D x = spread(in, i), q; if(i % 7 == 3 && (tool_ || in == 19)) continue; if(!convert(x, in, out, q)) continue; bool fin = true; for(double v : q) fin = fin && std::isfinite(v); if(!fin) continue; Pair a = geo::to(in, &x[0]), b = geo::to(out, &q[0]); if(above(a) < 0 || above(a) != above(b)) continue; D g = x; for(int j=0;j<ny;++j) g.push_back(1 + i*0.5 + 100*j + (i*j) % 5);
    if(tool_ == 0) { for(int j=0;j<ny;++j) q.push_back(g[nx+j]); if(opt || above(a)) e.push_back(q); } else { vec y = evaluate(*f, x, in); bool ok = true; for(int j=0;j<ny;++j) { double z = tool_ == 1 && opt ? g[nx+j] - y[j] : y[j]; ok = ok && std::isfinite(z); x.push_back(z); } if(!ok) continue; e.push_back(x); } given.push_back(g); }
  std::string po = ON[ny % 3]; tool::spit(path("in.dat"), bin ? binary(given, nx, ny, geo::NAMES[in], po) : text(given, nx, ny, geo::NAMES[in], po)); Args a; static const char* T[] = { "data2data", "brdf2data", "brdf2gnuplot" };
  if(tool_ == 0) { a = { "--input", "in.dat", "--output", "out.dat" }; if(out != in) { a.push_back("--param"); a.push_back(geo::NAMES[out]); } if(opt) a.push_back("--all-values"); if(bin) { a.push_back("--out-data"); a.push_back("alta-binary"); } } else { a = { "--input", "f.func", "--output", "out.dat", "--data-file", "in.dat" }; if(tool_ == 1 && opt) a.push_back("--export-diff"); }
  w += cmd(T[tool_], a) + " with " + std::to_string(given.size()) + " rows of " + std::to_string(ny) + " channels, from " + geo::NAMES[in]; c.state(w); tool::Run r = tool::run(T[tool_], a, 120); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return;
  if(tool_ < 2) { compare(c, path("out.dat"), geo::DIMS[out], ny, geo::NAMES[out], po, e, w, 1e-11); return; }
  Rows g = tool::table(tool::slurp(path("out.dat"))).rows; if(!c.check(g.size() == e.size(), "rows", w)) return; for(size_t i=0;i<e.size();++i) { if(!c.check(g[i].size() == e[i].size(), "row length", w)) return; for(size_t j=0;j<e[i].size();++j) if(!c.check(mc::close(g[i][j], e[i][j], 1e-9, 1e-9), "entry", w + ": row " + std::to_string(i) + " entry " + std::to_string(j) + " is " + mc::dstr(g[i][j]) + " not " + mc::dstr(e[i][j]))) return; } c.outcome((int)e.size()); }
static void scen_brdf2plugin(mc::Ctx& c) {
  int mi = c.pick(c.thorough ? (int)models().size() + 3 : 4, "function"), d = c.pick(c.thorough ? 7 : 5, "destination"); if(!c.thorough) { static const int M[] = { 0, 9, 17, 23 }; mi = M[mi]; } const Dst& T = DST[d]; if(d == 5) c.prune(); tool::clean(); c.tag(std::string("brdf2data ") + T.plugin); std::string w; if(!c.check(write_function(c, mi, 3, 0, w), "no function", w)) return; Args a{ "--input", "f.func", "--output", T.name, "--data", T.plugin }; for(auto& x : split(T.args)) a.push_back(x); if(d == 2) { a.push_back("--param"); a.push_back("STARK_2D"); } w += ": " + cmd("brdf2data", a); c.state(w); tool::Run r = tool::run("brdf2data", a, 300); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return;
  if(d == 2 || d == 4) { std::string t = tool::slurp(path(T.name)); if(t.find("nan") != std::string::npos || t.find("inf") != std::string::npos) c.prune(); }   // the model is singular there
  ptr<function> f(plugins_manager::load_function(path("f.func"))); ptr<data> out = plugins_manager::load_data(path(T.name), T.plugin, arguments::create_arguments("--filename " + path(T.name))); if(!c.check(f && out, "not loaded", w)) return; const parameters& po = out->parametrization(); int ko = named(po.input_parametrization()); bool flt = std::string(T.name).find("exr") != std::string::npos; if(!c.check(po.dimY() == 3, "channels", w)) return;
  for(int i=0;i<out->size();++i) { vec x = out->get(i); D q(x.data(), x.data() + po.dimX()); vec y = evaluate(*f, q, ko); for(int k=0;k<3;++k) { double v = x[po.dimX()+k], ev = y[k]; if(i < 40) c.outcome(v); if(!std::isfinite(ev) || std::fabs(ev) > 1e30) continue; if(!mc::close(v, ev, flt ? 1e-6 : 1e-11, flt ? 1e-6 : 1e-11)) { c.fail("value", w + ": row " + std::to_string(i) + " channel " + std::to_string(k) + " is " + mc::dstr(v) + " not " + mc::dstr(ev)); return; } } } }
static void scen_gnuplot(mc::Ctx& c) {
  int mi = c.pick((int)models().size() + NF_EXTRA, "function"), k = c.of(TPL, "data"), kind = c.pick(3, "plot"); bool cosp = c.flag("cos"); int v = c.pick(c.thorough ? 6 : 2, "variant"), ny = v % 2 ? 3 : 1; tool::clean(); c.tag("brdf2gnuplot"); std::string w; if(!c.check(write_function(c, mi, ny, v, w), "no function", w)) return; ptr<function> f(plugins_manager::load_function(path("f.func"))); if(!c.check((bool)f, "function not loaded", w)) return; params::input fin = f->parametrization().input_parametrization(); bool un = fin == params::UNKNOWN_INPUT, can = !un || f->parametrization().dimX() <= geo::DIMS[k]; Rows given, e;
  for(int i=0;i<4;++i) { D x = coords(k, i), r; if(can) { vec y = evaluate(*f, x, k); if(cosp && !un) { D q, ct; convert(x, k, named(fin), q); convert(q, named(fin), CART, ct); for(int j=0;j<ny;++j) y[j] *= ct[2]*ct[5]; } if(kind == 2) r.push_back((double)e.size()); else r = x; bool ok = true; for(int j=0;j<ny;++j) { double t = yval(i, j), z = kind == 0 ? y[j] : kind == 1 ? t - y[j] : (t - y[j])/t; if(kind == 2 && t == 0) ok = false; ok = ok && std::isfinite(z); r.push_back(z); } if(!ok) continue; e.push_back(r); } for(int j=0;j<ny;++j) x.push_back(yval(i, j)); given.push_back(x); } if(given.empty()) c.prune();
  tool::spit(path("t.dat"), text(given, geo::DIMS[k], ny, geo::NAMES[k], "INV_STERADIAN")); Args a{ "--input", "f.func", "--output", "o.dat", "--data-file", "t.dat" }; if(kind) a.push_back(kind == 1 ? "--error" : "--linear_error"); if(cosp) a.push_back("--cos-plot"); w += ": " + cmd("brdf2gnuplot", a) + " data " + geo::NAMES[k] + " ny " + std::to_string(ny); c.state(w); tool::Run r = tool::run("brdf2gnuplot", a); if(!can) { c.check(r.failed(), "impossible evaluation", w + " " + r.str()); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return;
  Rows g = tool::table(tool::slurp(path("o.dat"))).rows; if(!c.check(g.size() == e.size(), "rows", w)) return; for(size_t i=0;i<e.size();++i) { if(!c.check(g[i].size() == e[i].size(), "row length", w)) return; for(size_t j=0;j<e[i].size();++j) { c.outcome(g[i][j]); if(!c.check(mc::close(g[i][j], e[i][j], 1e-9, 1e-9), "entry", w + ": row " + std::to_string(i) + " entry " + std::to_string(j) + " is " + mc::dstr(g[i][j]) + " not " + mc::dstr(e[i][j]))) return; } } }
static void scen_polar(mc::Ctx& c) {
  int mi = c.pick((int)models().size() + 3, "function"), ai = c.pick(c.thorough ? 6 : 3, "angle"), si = c.pick(4, "samples"), v = c.pick(c.thorough ? 4 : 1, "variant"), ny = (ai + si + v) % 2 ? 3 : 1; static const double A[] = { 0, 0.5, 1.25, 0.0078125, 0.875, 1.5 }; static const int S[] = { 2, 10, 7, 100 }; tool::clean(); c.tag("polar"); std::string w; if(!c.check(write_function(c, mi, ny, v, w), "no function", w)) return; ptr<function> f(plugins_manager::load_function(path("f.func"))); if(!c.check((bool)f, "function not loaded", w)) return; Args a{ "--input", "f.func", "--output", "o.dat", "--polar-plot" }; if(ai) { std::ostringstream o; o << A[ai]; a.push_back("--inc-angle"); a.push_back(o.str()); } if(si < 3) { a.push_back("--samples"); a.push_back(std::to_string(S[si])); } w += ": " + cmd("brdf2gnuplot", a); c.state(w); tool::Run r = tool::run("brdf2gnuplot", a); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return;
  Rows g = tool::table(tool::slurp(path("o.dat"))).rows; int N = S[si]/2; if(!c.check((int)g.size() == 2*N, "rows", w + ": " + std::to_string(g.size()))) return;
  for(int i=0;i<2*N;++i) { double t = 0.5*M_PI*(i % N)/N; D x{ A[ai], M_PI, t, i < N ? M_PI : 0.0 }; vec y = evaluate(*f, x, 20); if(!c.check((int)g[i].size() == 1 + ny, "row length", w)) return; c.check(mc::close(g[i][0], i < N ? -t : t, 1e-9, 1e-9), "angle", w + " row " + std::to_string(i)); for(int j=0;j<ny;++j) { if(!std::isfinite(y[j])) continue; c.outcome(g[i][1+j]); if(!c.check(mc::close(g[i][1+j], y[j], 1e-9, 1e-9), "value", w + ": row " + std::to_string(i) + " is " + mc::dstr(g[i][1+j]) + " not " + mc::dstr(y[j]))) return; } } }
// ---- re-exporting a function
static std::string body(const std::string& s) { std::istringstream i(s); std::string l, r; while(std::getline(i, l)) if(l.compare(0, 4, "#CMD")) r += l + "\n"; return r; }
static void scen_brdf2brdf(mc::Ctx& c) {
  int mi = c.pick((int)models().size() + NF_EXTRA, "function"), v = c.pick(c.thorough ? 12 : 3, "variant"), x = c.pick(8, "export"), ny = v % 2 ? 3 : 1; tool::clean(); c.tag("brdf2brdf"); std::string w; if(!c.check(write_function(c, mi, ny, v, w), "no function", w)) return; static const char* E[] = { "", "alta", "matlab", "C++", "shader", "explorer", "nonsense", "" }; Args a{ "--input", "f.func", "--output", x == 7 ? "f.func" : "g.func" }; if(E[x][0]) { a.push_back("--export"); a.push_back(E[x]); } w += ": " + cmd("brdf2brdf", a); c.state(w); std::string was = tool::slurp(path("f.func")); int how = c.pick(3, "written by");      // the command line in the header may name files and a format of its own
  if(how == 1) { size_t at = was.find("#CMD "), e = was.find('\n', at); if(at == std::string::npos) { c.trivial = true; return; } was.insert(e, " --input d.dat --output old.func --export alta"); tool::spit(path("f.func"), was); w += " (header with files)"; }
  if(how == 2) { if(x >= 2 && x < 6) { c.trivial = true; return; } a.push_back("--export-append"); a.push_back("#NOTE 12 kept"); w += " --export-append"; }
  ptr<function> f(plugins_manager::load_function(path("f.func"))); if(!c.check((bool)f, "function not loaded", w)) return;
  bool can = x != 6; if(x >= 2 && x < 6) try { f->save(path("ref.txt"), arguments::create_arguments("--func nothing --export " + std::string(E[x]))); } catch(std::exception&) { can = false; }
  tool::Run r = tool::run("brdf2brdf", a); if(!can) { c.check(r.failed(), "impossible export", w + " " + r.str()); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; std::string t = tool::slurp(path(a[3].c_str())); c.outcome(t); if(x >= 2 && x < 6) { c.check(t == tool::slurp(path("ref.txt")), "export", w); return; }
  if(how == 2) { size_t n = t.find("#NOTE 12 kept\n"); c.check(n != std::string::npos && n < t.find("#ALTA HEADER END"), "appended line", w + ": " + t); } std::string rest = t; if(how == 2 && rest.find("#NOTE 12 kept\n") != std::string::npos) rest.erase(rest.find("#NOTE 12 kept\n"), 14); c.check(body(rest) == body(was), "changed", w + ": " + t); ptr<function> g(plugins_manager::load_function(path(a[3].c_str()))); if(!c.check((bool)g, "not loaded", w + ": " + t)) return; c.check(typeid(*f) == typeid(*g), "kind", w); for(int i=0;i<4;++i) { if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT) break; D p = coords(CART, i); vec y = evaluate(*f, p, CART), z = evaluate(*g, p, CART); for(int j=0;j<ny;++j) c.check(mc::close(y[j], z[j], 1e-8, 1e-300) || !(y[j] == y[j]), "value", w); } }
// ---- fitting from the command line
static void scen_data2brdf(mc::Ctx& c) {
  int k = c.pick(7, "fit"), ny = 1 + 2*c.pick(2, "ny"), fmt = c.pick(2, "format"); static const char* F[] = { "rational_fitter_eigen", "rational_fitter_leastsquare", "rational_fitter_quadprog", "rational_fitter_parallel", "nonlinear_fitter_eigen", "nonlinear_fitter_eigen", "rational_fitter_leastsquare" }; static const char* O[] = { "--np 3 --nq 1", "--np 3 --nq 1", "--np 3 --nq 1 --min-np 3 --min-nq 1", "--np 4 --min-np 3", "--func nonlinear_function_diffuse", "--func nonlinear_function_lafortune --bootstrap [1]", "--func rational_function_legendre --np 3 --nq 1" }; bool ci = k == 2 || k == 3; int in = k == 4 || k == 5 ? CART : 0; if(k == 5) c.prune(); bool rough = c.flag("residual"); tool::clean(); c.tag("data2brdf"); Rows given; int n = in == 0 ? 6 : 4;
  for(int i=0;i<n;++i) { D x; if(in == 0) x.push_back(0.1 + 0.15*i); else x = coords(in, i); for(int j=0;j<ny;++j) x.push_back((in == 0 ? 1 + (j+1)*x[0] - 0.5*x[0]*x[0] : 0.25*(j+1)) + (rough ? 0.03*((i*3 + j) % 5 - 2) : 0)); given.push_back(x); }
  tool::spit(path("in.dat"), fmt && !ci ? binary(given, geo::DIMS[in], ny, geo::NAMES[in], "INV_STERADIAN") : text(given, geo::DIMS[in], ny, geo::NAMES[in], "INV_STERADIAN", ci)); Args a{ "--input", "in.dat", "--output", "o.func", "--fitter", F[k] }; for(auto& x : split(O[k])) a.push_back(x); std::string w = cmd("data2brdf", a) + " ny " + std::to_string(ny) + (rough ? " residual" : ""); c.state(w); tool::Run r = tool::run("data2brdf", a, 60); ptr<data> d = plugins_manager::load_data(path("in.dat"), "", arguments::create_arguments("")); ptr<fitter> fit = plugins_manager::get_fitter(F[k]); if(!c.check(d && fit, "no fitter", w)) return; arguments args = arguments::create_arguments(O[k]); fit->set_parameters(args); ptr<function> f(plugins_manager::get_function(args, d->parametrization())); if(!c.check((bool)f, "no function", w)) return; bool ok = fit->fit_data(d, f, args); c.outcome(ok);
  if(!ok) { c.check(r.failed(), "fit failed", w + " " + r.str()); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return; ptr<function> g(plugins_manager::load_function(path("o.func"))); if(!c.check((bool)g, "not loaded", w)) return; for(int i=0;i<n;++i) { D x(given[i].begin(), given[i].begin() + geo::DIMS[in]); vec y = f->value(V(x)), z = g->value(V(x)); for(int j=0;j<ny;++j) { c.outcome(z[j]); c.check(mc::close(y[j], z[j], 1e-7, 1e-8), "value", w + ": " + mc::dstr(z[j]) + " not " + mc::dstr(y[j])); } }
  std::string t = tool::slurp(path("o.func")); size_t z = t.find("#CMD"); arguments h = arguments::create_arguments(t.substr(z + 4, t.find('\n', z) - z - 4)); double s = 0, m = 0; for(int i=0;i<n;++i) { vec y = f->value(V(D(given[i].begin(), given[i].begin() + geo::DIMS[in]))); for(int j=0;j<ny;++j) { double e = y[j] - given[i][geo::DIMS[in]+j]; s += e*e/n; m = std::max(m, std::fabs(e)); } } c.check(mc::close(atof(h["L2"].c_str()), std::sqrt(s), 1e-4, 1e-7), "L2", w + ": " + h["L2"] + " not " + mc::dstr(std::sqrt(s))); c.check(mc::close(atof(h["Linf"].c_str()), m, 1e-4, 1e-7), "Linf", w + ": " + h["Linf"]); }
// ---- data in any parametrization, with and without a change to that of the function
static double hz(const Pair& p) { double x = p.v.x + p.l.x, y = p.v.y + p.l.y, z = p.v.z + p.l.z; return z/std::sqrt(x*x + y*y + z*z); }
static void scen_fitparam(mc::Ctx& c) {
  static const char* FT[] = { "nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt", "rational_fitter_eigen", "rational_fitter_leastsquare" }; static const char* FN[] = { "nonlinear_function_diffuse", "nonlinear_function_beckmann", "[nonlinear_function_diffuse, nonlinear_function_beckmann]", "nonlinear_function_diffuse --fresnel nonlinear_fresnel_schlick", "nonlinear_function_blinn", "nonlinear_function_lafortune" }; static const char* RN[] = { "rational_function_legendre --np 2 --nq 1", "", "rational_function_chebychev --np 2 --nq 2" };
  int in = c.pick(geo::NPAR + 3, "in"), t = c.pick(c.thorough ? 5 : 4, "fitter"); bool rat = t >= 3; int u = in - geo::NPAR; if(u >= 0 && !rat) c.prune(); int q = c.pick(rat ? 3 : c.thorough ? 6 : 5, "function"), ny = 1 + 2*c.pick(2, "ny"); bool change = c.flag("change"); int load = c.pick(2, "loaded as"); if(!c.thorough && t && ny == 1) c.prune(); tool::clean(); c.tag("fitparam");
  int nx = u >= 0 ? u + 1 : geo::DIMS[in]; Rows given; for(int i=0;i<(rat ? 7 : 12);++i) { Pair pr{ geo::sph(0.15 + 0.09*i, 0.3*i), geo::sph(0.2 + 0.35*(i % 4), 2.8 - 0.2*i) }; D x; for(auto& e : geo::from(u >= 0 ? CART : in, rat ? pts()[i] : pr)) x.push_back(e.v); x.resize(nx); bool fin = true; for(double v : x) fin = fin && std::isfinite(v); if(!fin) continue; for(int j=0;j<ny;++j) x.push_back(0.5 + 0.25*j + (rat ? 0.1*((i*2 + j) % 4) : 0.4*std::pow(hz(pr), 8))); given.push_back(x); } if(given.size() < 2) c.prune(); std::string pi = u >= 0 ? "UNKNOWN_INPUT" : geo::NAMES[in];
  std::string o = rat ? (q == 1 ? "--np 2 --nq 1" : "--func " + std::string(RN[q])) : "--func " + std::string(FN[q]); if(change) o += " --change-param --next 1"; tool::spit(path("in.dat"), load ? binary(given, nx, ny, pi, "RGB_COLOR") : text(given, nx, ny, pi, "RGB_COLOR")); Args a{ "--input", "in.dat", "--output", "o.func", "--fitter", FT[t] }; for(auto& x : split(o)) a.push_back(x); std::string w = cmd("data2brdf", a) + " from " + pi + " ny " + std::to_string(ny); c.state(w); tool::Run r = tool::run("data2brdf", a, 60); c.check(!r.signalled && !r.hung, "crash", w + " " + r.str() + " " + r.err.substr(0, 300));
  ptr<function> f; ptr<data> d; bool ok = false, sure = true; std::string why; try { arguments args = arguments::create_arguments(o); d = plugins_manager::load_data(path("in.dat"), "", args); ptr<fitter> fit = plugins_manager::get_fitter(FT[t]); if(!c.check(d && fit, "no fitter", w)) return; fit->set_parameters(args); f = ptr<function>(plugins_manager::get_function(args, d->parametrization())); if(f) { params::input fi = f->parametrization().input_parametrization();
      if(change && fi != params::UNKNOWN_INPUT && u < 0 && fi != geo::ALL[in]) { int k = named(fi); if(!c.check(k >= 0, "parametrization", w)) return; ptr<vertical_segment> n(new vertical_segment(parameters(geo::DIMS[k], ny, fi, params::RGB_COLOR), given.size())); for(size_t i=0;i<given.size();++i) { D y; if(!convert(D(given[i].begin(), given[i].begin() + nx), in, k, y)) throw std::runtime_error("conversion"); for(int j=0;j<ny;++j) y.push_back(given[i][nx+j]); for(double v : y) if(!std::isfinite(v)) sure = false; n->set(i, V(y)); } d = n; }
      if(f->parametrization().dimY() != ny) throw std::runtime_error("outputs"); ok = fit->fit_data(d, f, args); if(ok) { f->L2_distance(d); for(int i=0;i<d->size();++i) { vec x = d->get(i); D y; if(u < 0 && !convert(D(x.data(), x.data() + d->parametrization().dimX()), named(d->parametrization().input_parametrization()), named(f->parametrization().input_parametrization()), y)) throw std::runtime_error("distance"); } } } } catch(std::exception& e) { ok = false; why = e.what(); }
  c.outcome(ok); if(!sure) { c.trivial = true; return; } if(!ok) { c.check(r.failed(), "fit failed", w + " " + r.str() + " although " + why); return; } if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return;
  ptr<function> g(plugins_manager::load_function(path("o.func"))); if(!c.check((bool)g, "not loaded", w)) return; params::input fi = f->parametrization().input_parametrization(); c.check(g->parametrization().input_parametrization() == fi && g->parametrization().dimX() == f->parametrization().dimX() && g->parametrization().dimY() == ny, "parametrization", w + ": " + params::get_name(g->parametrization().input_parametrization())); double s = 0, m = 0;
  for(int i=0;i<d->size();++i) { vec x = d->get(i); int dn = d->parametrization().dimX(); D p(x.data(), x.data() + dn), y = p; if(u < 0) convert(p, named(d->parametrization().input_parametrization()), named(fi), y); vec v = f->value(V(y)), z = g->value(V(y)); for(int j=0;j<ny;++j) { c.outcome(z[j]); c.check(mc::close(v[j], z[j], 1e-6, 1e-7) || v[j] != v[j], "value", w + ": " + mc::dstr(z[j]) + " not " + mc::dstr(v[j])); double e = v[j] - x[dn+j]; s += e*e/d->size(); m = std::max(m, std::fabs(e)); } }
  if(!std::isfinite(s)) return; std::string h0 = tool::slurp(path("o.func")); size_t z = h0.find("#CMD"); arguments h = arguments::create_arguments(h0.substr(z + 4, h0.find('\n', z) - z - 4)); c.check(mc::close(atof(h["L2"].c_str()), std::sqrt(s), 1e-4, 1e-7), "L2", w + ": " + h["L2"] + " not " + mc::dstr(std::sqrt(s))); c.check(mc::close(atof(h["Linf"].c_str()), m, 1e-4, 1e-7), "Linf", w + ": " + h["Linf"]); }
// ---- moments
static void scen_moments(mc::Ctx& c) {
  int k = c.pick(3, "data"), ny = 3, dm = c.pick(k == 1 ? 4 : 3, "dimensions"), sp = c.pick(5, "samples"); int in = k == 1 ? 10 : 4, nx = geo::DIMS[in]; const char* plugin = k == 2 ? "data_grid" : "data_rbf"; int rot = c.pick(c.thorough ? 6 : 3, "order"); tool::clean(); c.tag("data2moments"); { std::string s = scatter(in, ny); Rows rr = tool::table(s).rows; static const int ROT[] = { 0, 1, 5, 2, 3, 4 }; for(size_t i=0;i<rr.size();++i) for(int j=0;j<ny;++j) { int q = ((int)i + ROT[rot]) % 6; rr[i][nx+j] = 1 + q*q + 0.5*j*q; } if(k < 2) tool::spit(path("src.dat"), text(rr, nx, ny, geo::NAMES[in], "RGB_COLOR")); else { ptr<data> g = plugins_manager::get_data("data_grid", 0, parameters(), arguments::create_arguments(std::string("--param ") + geo::NAMES[in] + " --PARAM_OUT RGB_COLOR --grid-size [4,3]")); if(!c.check((bool)g && g->size() == 12, "grid source", geo::NAMES[in])) return; for(int i=0;i<12;++i) { vec x = g->get(i); for(int j=0;j<ny;++j) x[nx+j] = rr[(size_t)i % rr.size()][nx+j] + i; g->set(i, x); } g->save(path("src.dat")); } } static const int DM[][2] = { { 0, 1 }, { 0, 1 }, { 1, 0 }, { 2, 1 } }; std::vector<int> S(nx, k == 1 ? 7 : 100); Args a{ "--input", "src.dat", "--data", plugin, "--output", "o.txt" }; if(dm) { a.push_back("--dim"); a.push_back("[" + std::to_string(DM[dm][0]) + ","); a.push_back(std::to_string(DM[dm][1]) + "]"); } if(sp || k == 1) { std::ostringstream s; s << "["; for(int i=0;i<nx;++i) { S[i] = sp == 1 ? 1 : sp == 3 ? (i ? 2 : 1500) : sp == 4 ? (i == nx-1 ? 1200 : 2) : 3 + 2*i + sp; s << (i ? "," : "") << S[i]; } s << "]"; a.push_back("--samples"); a.push_back(s.str()); }
  std::string w = cmd("data2moments", a); c.state(w); tool::Run r = tool::run("data2moments", a, 60); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 300))) return; ptr<data> d = plugins_manager::load_data(path("src.dat"), plugin, arguments::create_arguments("")); if(!c.check((bool)d, "source", w)) return; D lo(ny, 1e300); for(int i=0;i<d->size();++i) { vec x = d->get(i); for(int j=0;j<ny;++j) lo[j] = std::min(lo[j], x[nx+j]); } int N = 1; double dt = 1; for(int i=0;i<nx;++i) { N *= S[i]; dt *= (d->max()[i] - d->min()[i])/S[i]; } int ax = DM[dm][0], ay = DM[dm][1]; std::vector<D> M(ny, D(10, 0));
  for(int i=0;i<N;++i) { vec x(nx); int g = i; for(int q=0;q<nx;++q) { x[q] = d->min()[q] + (d->max()[q] - d->min()[q])*(g % S[q])/S[q]; g /= S[q]; } vec y = d->value(x); double X = x[ax], Y = x[ay], B[] = { 1, X, Y, X*X, X*Y, Y*Y, X*X*X, X*X*Y, X*Y*Y, Y*Y*Y }; for(int j=0;j<ny;++j) for(int b=0;b<10;++b) M[j][b] += (y[j] - lo[j])*dt*B[b]; }
  std::string t = tool::slurp(path("o.txt")); static const char* K[] = { "_0", "_x", "_y", "_{xx}", "_{xy}", "_{yy}", "_{xxx}", "_{xxy}", "_{xyy}", "_{yyy}" }; for(int b=0;b<10;++b) { size_t z = t.find(std::string("\\mu") + K[b] + " ="); if(!c.check(z != std::string::npos, "moment missing", w + " " + K[b])) return; D g = tool::numbers(t.substr(t.find('=', z), t.find('\n', z) - t.find('=', z))); if(!c.check((int)g.size() == ny, "moment", w + " " + K[b])) return; for(int j=0;j<ny;++j) { double e = b ? M[j][b]/M[j][0] : M[j][b]; if(!std::isfinite(e)) continue; c.outcome(g[j]); c.check(mc::close(g[j], e, 1e-4, 1e-6), "moment", w + " " + K[b] + " is " + mc::dstr(g[j]) + " not " + mc::dstr(e)); } } }
// ---- what cannot be done
struct Opt { const char* name; std::vector<const char*> vals; int good; bool must; };      // the first `good` values are usable; must: fails without
struct Tool { const char* name; std::vector<Opt> opts; };
static const std::vector<Tool>& TOOLS() { static const std::vector<Tool> T{
  { "data2data", { { "--input", { "d.dat", "nofile", "dirdir", "bad.dat", "cut.bin", "no/where", "" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where", "" }, 1, true }, { "--in-data", { "vertical_segment", "no_plugin", "nonlinear_fitter_eigen", "data_merl", "data_utia", "data_grid", "data_brdf_slice", "data_astm" }, 1, false }, { "--out-data", { "alta-binary", "no_plugin", "nonlinear_function_diffuse" }, 1, false }, { "--param", { "CARTESIAN", "NONSENSE" }, 1, false } } },
  { "brdf2data", { { "--input", { "f.func", "nofile", "dirdir", "d.dat", "bad.func", "plugin.func", "cut.func", "" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, true }, { "--data-file", { "d.dat", "nofile", "bad.dat", "y2.dat", "dirdir" }, 1, true }, { "--data", { "vertical_segment", "no_plugin" }, 1, false } } },
  { "brdf2brdf", { { "--input", { "f.func", "nofile", "dirdir", "d.dat", "bad.func", "plugin.func", "cut.func", "" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where", "" }, 1, true }, { "--export", { "shader", "nonsense", "matlab", "" }, 1, false } } },
  { "brdf2gnuplot", { { "--input", { "f.func", "nofile", "dirdir", "d.dat", "bad.func", "plugin.func", "cut.func" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, true }, { "--data-file", { "d.dat", "nofile", "bad.dat", "y2.dat" }, 1, true }, { "--data", { "vertical_segment", "no_plugin", "data_merl" }, 1, false } } },
  { "brdf2stats", { { "--brdf", { "f.func", "nofile", "d.dat", "bad.func", "plugin.func" }, 1, true }, { "--input", { "d.dat", "nofile", "bad.dat", "dirdir" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, false } } },
  { "data2stats", { { "--input", { "d.dat", "nofile", "bad.dat", "dirdir" }, 1, true }, { "--ref", { "d.dat", "nofile", "bad.dat", "y2.dat" }, 1, true }, { "--in-data", { "data_rbf", "vertical_segment", "no_plugin", "nonlinear_fitter_eigen" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, false } } },
  { "data2moments", { { "--input", { "d.dat", "nofile", "bad.dat" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, true }, { "--data", { "data_rbf", "vertical_segment", "no_plugin", "data_merl" }, 1, true }, { "--samples", { "[4,4]", "[4]", "[0,4]", "[4,4,4]" }, 1, false }, { "--dim", { "[1,0]", "[1]", "[0,2]" }, 1, false } } },
  { "data2brdf", { { "--input", { "d.dat", "nofile", "bad.dat", "dirdir", "empty.dat" }, 1, true }, { "--output", { "o.dat", "dirdir", "no/where" }, 1, true }, { "--fitter", { "nonlinear_fitter_eigen", "no_plugin", "nonlinear_function_diffuse", "" }, 1, true }, { "--func", { "nonlinear_function_diffuse", "no_plugin", "nonlinear_fitter_eigen", "[nonlinear_function_diffuse, no_plugin]", "[]" }, 1, true }, { "--data", { "vertical_segment", "no_plugin", "data_utia" }, 1, false } } },
 }; return T; }
static void bad_files() {
  Rows r; for(int i=0;i<4;++i) { D x{ 0.2 + 0.3*i, 0.1 + 0.25*i*(i%3), 1.0 + i*i, 2.0, 3.0 - i }; r.push_back(x); } tool::spit(path("d.dat"), text(r, 2, 3, "RUSIN_TH_TD", "RGB_COLOR")); Rows y2; for(auto& x : r) y2.push_back(D(x.begin(), x.begin() + 4)); tool::spit(path("y2.dat"), text(y2, 2, 2, "RUSIN_TH_TD", "RGB_COLOR")); tool::spit(path("bad.dat"), head(2, 3, "RUSIN_TH_TD", "RGB_COLOR") + "0.1 0.2 1 2 3\n0.3 what 1 2 3\n"); tool::spit(path("empty.dat"), head(2, 3, "RUSIN_TH_TD", "RGB_COLOR")); std::string b = binary(r, 2, 3, "RUSIN_TH_TD", "RGB_COLOR"); tool::spit(path("cut.bin"), b.substr(0, b.size() - 60)); mkdir(path("dirdir").c_str(), 0755);
  std::string h = "#ALTA FUNC HEADER\n#CMD --func nonlinear_function_blinn\n#DIM 1 3\n#PARAM_IN COS_TH\n#PARAM_OUT RGB_COLOR\n#ALTA HEADER END\n\n", f = "#FUNC nonlinear_function_blinn\nKs 0.5\nN 3\nKs 0.25\nN 4\nKs 1\nN 10\n"; tool::spit(path("f.func"), h + f); tool::spit(path("bad.func"), h + "#FUNC nonlinear_function_blinn\nKs what\nN 3\nKs 0.25\nN 4\nKs 1\nN 10\n"); tool::spit(path("cut.func"), h + f.substr(0, 50)); tool::spit(path("plugin.func"), "#ALTA FUNC HEADER\n#CMD --func nonlinear_function_missing\n#DIM 1 3\n#PARAM_IN COS_TH\n#PARAM_OUT RGB_COLOR\n#ALTA HEADER END\n\n" + f); }
struct Made { Made() {} ~Made() { rmdir(path("dirdir").c_str()); } };
static void scen_refuse(mc::Ctx& c) {
  const Tool& T = TOOLS()[c.pick((int)TOOLS().size(), "tool")]; tool::clean(); Made m; bad_files(); c.tag(T.name); std::string w = T.name; Args a; bool fails = false; int odd = 0, maxodd = c.thorough ? 3 : 2; if(c.flag("help")) { tool::Run r = tool::run(T.name, { "--help" }); c.check(r.ok() && r.out.find("Usage") != std::string::npos, "help", w + " " + r.str()); c.state(w + " help"); c.outcome(0); return; }
  for(auto& o : T.opts) { int n = odd < maxodd ? 1 + (int)o.vals.size() : 1 + o.good; int k = c.pick(n, o.name); if(!o.must) k = k == 0 ? -1 : k-1; else if(k == (int)o.vals.size()) k = -1; if(o.must && n == 1 + o.good && k == o.good) { k = 0; c.prune(); } if(k < 0) { if(o.must) { ++odd; fails = true; } continue; } if(k >= o.good) { ++odd; fails = true; } a.push_back(o.name); std::istringstream s(o.vals[k]); std::string t; while(s >> t) a.push_back(t); }
  w = cmd(T.name, a); c.state(w); tool::Run r = tool::run(T.name, a, 60); c.outcome(r.status); c.check(!r.signalled && !r.hung, "crash", w + " " + r.str() + " " + r.err.substr(0, 200)); if(fails) c.check(r.failed() || r.signalled || r.hung, "success reported", w + " " + r.str()); else c.check(r.ok(), "refused", w + " " + r.str() + " " + r.err.substr(0, 300)); }
MC_MAIN({"large", scen_large, 4, 120}, {"formats", scen_formats, 2, 400}, {"splat", scen_splat, 2, 300}, {"brdf2plugin", scen_brdf2plugin, 2, 400}, {"convert", scen_convert, 2, 60}, {"rows", scen_rows, 3, 60}, {"filter", scen_filter, 4, 60}, {"brdf2data", scen_brdf2data, 2, 60}, {"gnuplot", scen_gnuplot, 2, 60}, {"polar", scen_polar, 2, 60}, {"brdf2brdf", scen_brdf2brdf, 2, 60}, {"data2brdf", scen_data2brdf, 2, 120}, {"fitparam", scen_fitparam, 2, 120}, {"moments", scen_moments, 2, 120}, {"refuse", scen_refuse, 4, 120})
