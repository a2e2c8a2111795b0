// P17: error metrics and distances against their definitions.
#include "tools.h"
#include "models.h"
#include "core/metrics.h"
using namespace mdl;
static const std::vector<double> VAL{ 0, 1, -2.5, 300 };
// n well separated pairs of directions, and parametrizations that tell them apart
// (in the plane of incidence, so that the two-dimensional ones lose nothing)
static const std::vector<Pair> PTS{ geo::rusin(0.25,0,0.4,0), geo::rusin(0.7,0,0.1,0), geo::rusin(0.1,0,1.2,0), geo::rusin(0.5,0,0.7,0), geo::rusin(1.1,0,0.3,0) };
static Pair place(int i) { return i < (int)PTS.size() ? PTS[i] : geo::rusin(0.053 + 0.037*(i % 17), 0, 0.047 + 0.043*(i / 17), 0); }
static int named(params::input p) { for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == p) return k; return -1; }
static const std::vector<params::input> PAR{ params::CARTESIAN, params::COS_TH_TD, params::RUSIN_TH_TD_PD, params::SPHERICAL_TL_PL_TV_PV, params::RUSIN_TH_PH_TD_PD };
static vec coords(params::input in, int i) { int k = named(in); auto co = geo::from(k, place(i)); vec x(geo::DIMS[k]); for(int j=0;j<x.size();++j) x[j] = co[j].v; return x; }
// data and functions that answer with the stored sample nearest to the query
struct Near { int in; std::vector<vec> xs, ys; Near() : in(-1) {} vec at(const vec& x) const { int b = -1; double d = 1e300; for(size_t i=0;i<xs.size();++i) { double e; if(in < 0) e = (xs[i]-x).squaredNorm(); else { Pair p = geo::to(in, &xs[i][0]), q = geo::to(in, &x[0]); V3 u = p.v - q.v, w = p.l - q.l; e = geo::dot(u,u) + geo::dot(w,w); } if(e < d) { d = e; b = (int)i; } } return ys[b]; } };
struct NearData : data, Near { NearData(const parameters& p, int n) : data(p, n) {} vec get(int i) const { vec r(xs[i].size() + ys[i].size()); r << xs[i], ys[i]; return r; } vec value(const vec& x) const { return at(x); } void set(int, const vec&) {} };
struct NearFunc : function, Near { NearFunc(const parameters& p) : function(p) {} vec value(const vec& x) const { return at(x); } bool load(std::istream&) { return true; } };
typedef std::vector<std::vector<double> > Rows;
struct Stat { double l1, l2, l3, li, mse, rmse, mean, var; };
static Stat stat_of(const std::vector<double>& d) { Stat s; s.l1 = s.l2 = s.l3 = s.li = s.mean = s.var = 0; for(double e : d) { double a = std::fabs(e); s.l1 += a; s.l2 += a*a; s.l3 += a*a*a; s.li = std::max(s.li, a); s.mean += e/d.size(); } s.mse = s.l2/d.size(); s.rmse = std::sqrt(s.mse); s.l2 = std::sqrt(s.l2); s.l3 = std::cbrt(s.l3); for(double e : d) s.var += (e - s.mean)*(e - s.mean)/d.size(); return s; }
static ptr<data> mkdata(bool vs, params::input in, const std::vector<int>& at, const Rows& y) {
  int k = named(in), nx = in == params::UNKNOWN_INPUT ? 6 : geo::DIMS[k], ny = (int)y[0].size(), n = (int)at.size(); parameters p(nx, ny, in, params::INV_STERADIAN);
  if(vs) { ptr<data> d(new vertical_segment(p, (unsigned)n)); for(int i=0;i<n;++i) { vec r(nx+ny); r.head(nx) = coords(in == params::UNKNOWN_INPUT ? params::CARTESIAN : in, at[i]); for(int j=0;j<ny;++j) r[nx+j] = y[i][j]; d->set(i, r); } return d; }
  NearData* d = new NearData(p, n); d->in = k; for(int i=0;i<n;++i) { d->xs.push_back(coords(in, at[i])); vec v(ny); for(int j=0;j<ny;++j) v[j] = y[i][j]; d->ys.push_back(v); } return ptr<data>(d); }
static void compare(mc::Ctx& c, errors::metrics& r, const Rows& a, const Rows& b, const std::vector<bool>& sel, const std::string& w) {
  int ny = (int)a[0].size(); const char* K[] = { "L1", "L2", "L3", "LInf", "MSE", "RMSE" };
  for(const char* k : K) if(!c.check(r.count(k) && r[k].size() == ny, "missing", w + " " + k)) return;
  for(int j=0;j<ny;++j) { std::vector<double> d; for(size_t i=0;i<a.size();++i) if(sel[i]) d.push_back(a[i][j]-b[i][j]); Stat s = stat_of(d); double e[] = { s.l1, s.l2, s.l3, s.li, s.mse, s.rmse };
    for(int k=0;k<6;++k) { double g = r[K[k]][j]; c.check(mc::close(g, e[k], 1e-12, 0), K[k], w + " channel " + std::to_string(j) + " is " + mc::dstr(g) + " not " + mc::dstr(e[k])); c.check((g == 0) == (s.li == 0), "zero", w + " " + K[k]); c.outcome(g); } }
}
static void scen_metrics(mc::Ctx& c) {
  int ny = 1 + c.pick(c.thorough ? 3 : 2, "ny"), n = 1 + c.pick(ny == 1 ? 3 : 2, "n"); Rows a, b; std::vector<int> at; std::vector<bool> sel; bool any = false, masked = c.flag("masked"); std::vector<double> m;
  for(int i=0;i<n;++i) { at.push_back(i); a.push_back({}); b.push_back({}); for(int j=0;j<ny;++j) { int big = ny == 1 ? 4 : ny == 2 ? 3 : 2; a[i].push_back(VAL[c.pick(big, "a")]); b[i].push_back(VAL[c.pick(big, "b")]); }
    static const std::vector<double> MV{ 0.0, 1.0, -1.0, 1e-300, -0.0 }; double v = masked ? MV[c.pick(n <= 2 && ny == 1 ? 5 : 2, "mask")] : 1; m.push_back(v); sel.push_back(v != 0); any = any || v != 0; }
  if(!any) c.prune();
  params::input pr = PAR[(n + ny) % 4], pi = PAR[(2*n + 3*ny + masked) % 4]; c.tag("metrics"); std::string w = "n " + std::to_string(n) + " ny " + std::to_string(ny) + " in " + params::get_name(pi) + " ref " + params::get_name(pr) + (masked ? " mask " + mc::vstr(m) : "");
  ptr<data> in = mkdata(false, pi, at, a), ref = mkdata(false, pr, at, b); Rows mr; for(double v : m) mr.push_back({ v }); ptr<data> mask = masked ? mkdata(n % 2, params::CARTESIAN, at, mr) : ptr<data>();
  errors::metrics r; r["stale"] = vec::Zero(1); errors::compute(in.get(), ref.get(), mask.get(), r); compare(c, r, a, b, sel, w); c.check(r.size() == 6, "stale entries", w);
  ptr<data> in2 = mkdata(false, pr, at, a); errors::metrics s; errors::compute(mkdata(false, pi, at, b).get(), in2.get(), mask.get(), s); compare(c, s, a, b, sel, w + " reversed");
  c.state(w + mc::vstr(m)); for(auto& q : a) c.state(mc::vstr(q));
}
// every order of the samples, every mask and parametrization pair
static void scen_order(mc::Ctx& c) {
  int n = c.thorough ? 5 : 4; std::vector<int> at; std::vector<bool> used(n, false); for(int i=0;i<n;++i) { std::vector<int> f; for(int j=0;j<n;++j) if(!used[j]) f.push_back(j); int k = f[c.pick((int)f.size(), "next")]; used[k] = true; at.push_back(k); }
  params::input pr = c.of(PAR, "ref"), pi = c.of(PAR, "in"); static const double A[5][2] = { {1,2}, {-3,0.5}, {0,0}, {7,-7}, {0.1,1e4} }, B[5][2] = { {1,1.5}, {2,0.5}, {4,-9}, {6.5,-7}, {0.3,1e3} };
  Rows a, b, ao, bo; for(int i=0;i<n;++i) { a.push_back({A[i][0],A[i][1]}); b.push_back({B[i][0],B[i][1]}); } for(int i : at) { ao.push_back(a[i]); bo.push_back(b[i]); }
  std::vector<int> id; for(int i=0;i<n;++i) id.push_back(i); int nm = 1 << n; ptr<data> in = mkdata(false, pi, id, a), ref = mkdata(false, pr, at, bo); c.tag("order");
  for(int m=1;m<nm;++m) { std::vector<bool> sel; Rows mr; for(int i=0;i<n;++i) { bool s = (m >> at[i]) & 1; sel.push_back(s); mr.push_back({ s ? 1.0 : 0.0 }); } ptr<data> mask = mkdata(true, params::COS_TH, at, mr); errors::metrics r; errors::compute(in.get(), ref.get(), m == nm-1 && n % 2 == 0 ? (data*)0 : mask.get(), r); compare(c, r, ao, bo, sel, "order " + mc::vstr(at) + " mask " + std::to_string(m) + " " + params::get_name(pi) + " against " + params::get_name(pr)); c.state(mc::vstr(at) + std::to_string(m)); }
}
// distances from a function to data
static void scen_function(mc::Ctx& c) {
  int ny = 1 + c.pick(3, "ny"), n = 1 + c.pick(ny == 1 ? 3 : 2, "n"), np = (int)PAR.size() + 1; int fi = c.pick(np, "function"), di = fi == np-1 ? np-1 : c.pick(np-1, "data"); params::input fp = fi == np-1 ? params::UNKNOWN_INPUT : PAR[fi], dp = di == np-1 ? params::UNKNOWN_INPUT : PAR[di];
  Rows a, b; std::vector<int> at; for(int i=0;i<n;++i) { at.push_back(n-1-i); a.push_back({}); b.push_back({}); for(int j=0;j<ny;++j) { int big = ny == 1 ? (n == 3 ? 3 : 4) : ny*n == 2 ? 3 : 2; a[i].push_back(VAL[c.pick(big, "a")]); b[i].push_back(VAL[c.pick(big, "b")]); } }
  int nx = fp == params::UNKNOWN_INPUT ? 6 : geo::DIMS[named(fp)]; NearFunc f(parameters(nx, ny, fp, params::INV_STERADIAN)); f.in = named(fp); for(int i=0;i<n;++i) { f.xs.push_back(coords(fp == params::UNKNOWN_INPUT ? params::CARTESIAN : fp, at[i])); vec v(ny); for(int j=0;j<ny;++j) v[j] = a[i][j]; f.ys.push_back(v); }
  ptr<data> d = mkdata(true, dp, at, b); std::ostringstream o; o.precision(15); std::streambuf* old = std::cout.rdbuf(o.rdbuf()); std::streamsize pr = std::cout.precision(15); double l2 = f.L2_distance(d), li = f.Linf_distance(d); std::cout.rdbuf(old); std::cout.precision(pr);
  double s = 0, m = 0; std::vector<Stat> st; for(int j=0;j<ny;++j) { std::vector<double> e; for(int i=0;i<n;++i) e.push_back(b[i][j]-a[i][j]); st.push_back(stat_of(e)); s += st[j].mse; m = std::max(m, st[j].li); }
  std::string w = "n " + std::to_string(n) + " ny " + std::to_string(ny) + " function " + params::get_name(fp) + " data " + params::get_name(dp); c.tag("function");
  c.check(mc::close(l2, std::sqrt(s), 1e-12, 0), "L2 distance", w + " is " + mc::dstr(l2) + " not " + mc::dstr(std::sqrt(s))); c.check(mc::close(li, m, 1e-12, 0), "Linf distance", w + " is " + mc::dstr(li) + " not " + mc::dstr(m));
  std::string t = o.str(); size_t k = t.find("Mean"), v = t.find("Var"); if(k != std::string::npos && v != std::string::npos && v > k) { auto x = tool::numbers(t.substr(k, v-k)), y = tool::numbers(t.substr(v)); if(c.check((int)x.size() == ny && (int)y.size() == ny, "statistics", w + " " + t)) for(int j=0;j<ny;++j) { c.check(mc::close(std::fabs(x[j]), std::fabs(st[j].mean), 1e-9, 1e-12), "mean", w + " is " + mc::dstr(x[j]) + " not " + mc::dstr(st[j].mean)); c.check(mc::close(y[j], st[j].var, 1e-9, 1e-9), "variance", w + " is " + mc::dstr(y[j]) + " not " + mc::dstr(st[j].var)); } }
  c.outcome(l2); c.outcome(li); c.state(w + mc::vstr(f.ys[0]));
}
// many samples and channels: every sample counts once, whatever its position
static void scen_many(mc::Ctx& c) {
  static const std::vector<int> N{ 6, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 257 }; int n = N[c.pick((int)N.size() - (c.thorough ? 0 : 2), "n")], ny = 1 + c.pick(4, "ny"), sp = c.pick(4, "where"), masked = c.pick(3, "mask"); params::input pr = PAR[n % 4], pi = PAR[(n/2 + ny) % 4]; Rows a, b; std::vector<int> at, rev; std::vector<bool> sel; Rows mr;
  for(int i=0;i<n;++i) { at.push_back(i); rev.push_back(n-1-i); a.push_back({}); b.push_back({}); for(int j=0;j<ny;++j) { double v = 1 + (i*7 + j*3) % 11; a[i].push_back(v); b[i].push_back(v + 0.001*((i*5 + j) % 9 - 4)); } bool s = masked == 0 || (masked == 1 ? i % 3 != 1 : i == n-1 || i == 0); sel.push_back(s); }
  int big = sp == 0 ? 0 : sp == 1 ? n-1 : sp == 2 ? n/2 : -1; if(big >= 0) for(int j=0;j<ny;++j) b[big][j] += j % 2 ? -25.0 : 40.0;      // one sample carries nearly all of the error
  Rows ar(a.rbegin(), a.rend()), br(b.rbegin(), b.rend()); std::vector<bool> selr(sel.rbegin(), sel.rend()); for(int i=0;i<n;++i) mr.push_back({ selr[i] ? 1.0 : 0.0 });
  std::string w = "n " + std::to_string(n) + " ny " + std::to_string(ny) + " in " + params::get_name(pi) + " ref " + params::get_name(pr) + " mask " + std::to_string(masked) + " error at " + std::to_string(big); c.tag("many"); c.state(w);
  ptr<data> in = mkdata(false, pi, at, a), ref = mkdata(false, pr, rev, br), mask = masked ? mkdata(true, params::COS_TH, rev, mr) : ptr<data>(); errors::metrics r; errors::compute(in.get(), ref.get(), mask.get(), r); compare(c, r, ar, br, selr, w);
  if(masked) return; NearFunc f(parameters(geo::DIMS[named(pi)], ny, pi, params::INV_STERADIAN)); f.in = named(pi); for(int i=0;i<n;++i) { f.xs.push_back(coords(pi, i)); vec v(ny); for(int j=0;j<ny;++j) v[j] = a[i][j]; f.ys.push_back(v); }
  ptr<data> d = mkdata(true, pr, at, b); std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); double l2 = f.L2_distance(d), li = f.Linf_distance(d); std::cout.rdbuf(old); double s = 0, m = 0; for(int j=0;j<ny;++j) { std::vector<double> e; for(int i=0;i<n;++i) e.push_back(b[i][j]-a[i][j]); Stat st = stat_of(e); s += st.mse; m = std::max(m, st.li); }
  c.check(mc::close(l2, std::sqrt(s), 1e-11, 0), "L2 distance", w + " is " + mc::dstr(l2) + " not " + mc::dstr(std::sqrt(s))); c.check(mc::close(li, m, 1e-11, 0), "Linf distance", w + " is " + mc::dstr(li) + " not " + mc::dstr(m)); c.outcome(l2); c.outcome(li);
}
// the tools' reports
static std::map<std::string, std::vector<double> > report(const std::string& s) { std::map<std::string, std::vector<double> > r; std::istringstream in(s); std::string l, key; while(std::getline(in, l)) { if(!l.empty() && l[0] == '#') continue; size_t k = l.find(" :"); if(k != std::string::npos) { key = ""; for(char ch : l.substr(0, k)) if(!strchr(" *", ch)) key += ch; l = l.substr(k+2); } for(double d : tool::numbers(l)) r[key].push_back(d); } return r; }
static void text_data(const std::string& f, params::input in, const char* out, const std::vector<int>& at, const Rows& y) { std::ofstream o(f.c_str()); o.precision(17); int nx = geo::DIMS[named(in)]; o << "#DIM " << nx << " " << y[0].size() << "\n#PARAM_IN " << params::get_name(in) << "\n#PARAM_OUT " << out << "\n"; for(size_t i=0;i<at.size();++i) { vec x = coords(in, at[i]); for(int k=0;k<nx;++k) o << x[k] << " "; for(double v : y[i]) o << v << " "; o << "\n"; } }
static void expect(mc::Ctx& c, std::map<std::string, std::vector<double> >& r, const std::string& key, const std::vector<double>& e, double tol, const std::string& w) { if(!c.check(r.count(key) && r[key].size() == e.size(), "report", w + " has no " + key)) return; for(size_t j=0;j<e.size();++j) { c.check(mc::close(r[key][j], e[j], tol, tol*1e-3), "report " + key, w + " says " + mc::dstr(r[key][j]) + " not " + mc::dstr(e[j])); c.outcome((double)(float)e[j]); } }
static void scen_brdf2stats(mc::Ctx& c) {
  static const std::vector<int> MOD{ 0 /*beckmann*/, 1 /*blinn*/, 9 /*sg mirror*/, 17 /*schlick*/ }; int mi = c.of(MOD, "model"), ny = 1 + c.pick(2,"ny")*2, k = c.pick((int)PAR.size(), "data"), n = c.of(std::vector<int>{ 1, 2, 3, 4, 150 }, "n"), out = c.pick(3, "out"); const Model& m = models()[mi];
  const std::string &D = tool::dir(); tool::clean(); NF f = make(m, ny, m.in >= 0 ? m.in : CART); std::vector<int> a(m.np*m.lobes + m.extra, 0); vec q = pvec(m, ny, a); f->setParameters(q); params::input fin = f->parametrization().input_parametrization(); int fk = named(fin); f->save(D + "/f.func", arguments::create_arguments(std::string("--func ") + m.plugin + " " + m.boot));
  Rows y; std::vector<int> at; int dy = out == 2 ? (ny == 1 ? 3 : 1) : ny; for(int i=0;i<n;++i) { at.push_back(i % 4); y.push_back({}); for(int j=0;j<dy;++j) y[i].push_back(0.1 + 0.35*(i % 9) - 0.2*j + 0.01*(i % 7)*j); } params::input dp = PAR[k]; if(geo::DIMS[k == 0 ? CART : named(dp)] < geo::DIMS[fk] && fin == params::CARTESIAN) {}
  static const char* ON[] = { "INV_STERADIAN", "ENERGY", "ENERGY" }; text_data(D + "/d.txt", dp, ON[out], at, y);
  tool::Run r = tool::run("brdf2stats", { "--brdf", "f.func", "--input", "d.txt", "--output", "o.txt" }); std::string w = std::string(m.name) + " ny " + std::to_string(ny) + " data " + params::get_name(dp) + " " + ON[out] + " dimension " + std::to_string(dy) + " n " + std::to_string(n); c.tag("brdf2stats " + w); c.state(w);
  if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err)) return; auto R = report(tool::slurp(D + "/o.txt")); std::vector<double> l1, l2, l3, li, ms, rm, wl, rwl, wlv, rwlv; double tot = 0, mx = 0;
  for(int j=0;j<ny;++j) { std::vector<double> d, dl, dlv; for(int i=0;i<n;++i) { vec x = coords(dp, at[i]); Pair p = geo::to(named(dp), &x[0]); auto co = geo::from(fk, p); double fx[6]; for(size_t u=0;u<co.size();++u) fx[u] = co[u].v; Pair fpair = fin == dp ? p : geo::to(fk, fx); double v = oracle(m, ny, j, q, fpair, fx), yy = dy == ny ? y[i][j] : dy == 1 ? y[i][0] : (y[i][0]+y[i][1]+y[i][2])/3; d.push_back(yy - v); dl.push_back((yy - v)*fpair.l.z); dlv.push_back((yy - v)*fpair.l.z*fpair.v.z); }
    Stat s = stat_of(d), sl = stat_of(dl), sv = stat_of(dlv); l1.push_back(s.l1); l2.push_back(s.l2); l3.push_back(s.l3); li.push_back(s.li); ms.push_back(s.mse); rm.push_back(s.rmse); wl.push_back(sl.mse); rwl.push_back(sl.rmse); wlv.push_back(sv.mse); rwlv.push_back(sv.rmse); tot += s.mse; mx = std::max(mx, s.li); }
  double T = 1e-4; expect(c, R, "L1", l1, T, w); expect(c, R, "L2", l2, T, w); expect(c, R, "L3", l3, T, w); expect(c, R, "LINF", li, T, w); expect(c, R, "MSE", ms, T, w); expect(c, R, "RMSE", rm, T, w);
  expect(c, R, "MSEcos(theta_light)", wl, T, w); expect(c, R, "RMSEcos(theta_light)", rwl, T, w); expect(c, R, "MSEcos(theta_light)cos(theta_view)", wlv, T, w); expect(c, R, "RMSEcos(theta_light)cos(theta_view)", rwlv, T, w);
  size_t z = r.out.find("L2, (computed"); if(z != std::string::npos) { auto e = tool::numbers(r.out.substr(r.out.find('=', z), 40)); c.check(!e.empty() && mc::close(e[0], std::sqrt(tot), T, 1e-6), "printed L2", w); } z = r.out.find("Linf distance"); if(z != std::string::npos) { auto e = tool::numbers(r.out.substr(r.out.find('=', z), 40)); c.check(!e.empty() && mc::close(e[0], mx, T, 1e-6), "printed Linf", w); }
}
static void scen_data2stats(mc::Ctx& c) {
  params::input pi = PAR[c.pick(2, "in")], pr = PAR[c.pick(4, "ref")]; int ny = 1 + c.pick(2,"ny")*2, n = 4, v = c.pick(4, "values"); const std::string& D = tool::dir(); tool::clean(); Rows a, b; std::vector<int> at, rev; for(int i=0;i<n;++i) { at.push_back(i); rev.push_back(n-1-i); a.push_back({}); for(int j=0;j<ny;++j) a[i].push_back(1 + 2*i - 0.5*j); }
  int m = 1 + v; for(int i=0;i<m;++i) { b.push_back(a[n-1-i]); for(int j=0;j<ny;++j) b[i][j] += v == 0 ? 0.25 : (i % 2 ? 0.5*j - 0.125 : (v == 3 ? -40.0 : 3.0) + j); } rev.resize(m); text_data(D + "/a.txt", pi, "INV_STERADIAN", at, a); text_data(D + "/b.txt", pr, "INV_STERADIAN", rev, b);
  tool::Run r = tool::run("data2stats", { "--input", "a.txt", "--in-data", "data_rbf", "--ref", "b.txt", "--output", "o.txt" }); std::string w = std::string("in ") + params::get_name(pi) + " ref " + params::get_name(pr) + " ny " + std::to_string(ny) + " n " + std::to_string(m); c.tag("data2stats"); c.state(w);
  if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err)) return; auto R = report(tool::slurp(D + "/o.txt")); std::vector<double> l1, l2, l3, li, ms, rm; for(int j=0;j<ny;++j) { std::vector<double> d; for(int i=0;i<m;++i) d.push_back(a[n-1-i][j] - b[i][j]); Stat s = stat_of(d); l1.push_back(s.l1); l2.push_back(s.l2); l3.push_back(s.l3); li.push_back(s.li); ms.push_back(s.mse); rm.push_back(s.rmse); }
  double T = 1e-4; expect(c, R, "L1", l1, T, w); expect(c, R, "L2", l2, T, w); expect(c, R, "L3", l3, T, w); expect(c, R, "LINF", li, T, w); expect(c, R, "MSE", ms, T, w); expect(c, R, "RMSE", rm, T, w);
}
MC_MAIN({"metrics", scen_metrics, 5, 20}, {"many", scen_many, 3, 60}, {"order", scen_order, 3, 20}, {"function", scen_function, 4, 20}, {"brdf2stats", scen_brdf2stats, 4, 60}, {"data2stats", scen_data2stats, 3, 60})
