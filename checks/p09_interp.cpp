// P09: interpolating data sets against the formulas they document, at nodes, between them, on the border and outside.
#include "mc.h"
#include "exr.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/plugins_manager.h>
using namespace alta;
static std::string path(const std::string& n) { return std::string(getenv("VERIF_SCRATCH")) + "/" + std::to_string(getpid()) + "." + n; }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o.write(s.data(), s.size()); }
static ptr<data> load(const std::string& f, const char* p, const std::string& a = "") { return plugins_manager::load_data(f, p, arguments::create_arguments(a)); }
static vec V(const std::vector<double>& v) { vec x(v.size()); for(size_t i=0;i<v.size();++i) x[i] = v[i]; return x; }
typedef std::vector<double> D;
// ---- RBF: weighted mean of the three nearest samples
struct S { D x, y; };
static ptr<data> rbf(const std::vector<S>& s, int dx, int dy) { static const char* N[] = { "", "COS_TH", "RUSIN_TH_TD", "RUSIN_TH_TD_PD" }; std::ostringstream o; o.precision(17); o << "#ALTA HEADER BEGIN\n#DIM " << dx << " " << dy << "\n#PARAM_IN " << N[dx] << "\n#VS 0\n#ALTA HEADER END\n"; for(auto& p : s) { for(double v : p.x) o << v << " "; for(double v : p.y) o << v << " "; o << "\n"; } std::string f = path("rbf.alta"); spit(f, o.str()); ptr<data> d = load(f, "data_rbf"); unlink(f.c_str()); return d; }
static void rbf_at(mc::Ctx& c, const std::vector<S>& s, const ptr<data>& d, const D& q, const std::string& w) {
  vec y = d->value(V(q)); int dy = (int)s[0].y.size(), n = (int)s.size(); if(!c.check(y.size() == dy, "rbf dimension", w)) return; std::vector<std::pair<double,int> > o; for(int i=0;i<n;++i) { double e = 0; for(size_t k=0;k<q.size();++k) e += (q[k]-s[i].x[k])*(q[k]-s[i].x[k]); o.push_back({ e, i }); } std::sort(o.begin(), o.end()); int K = std::min(3, n); double cut = o[K-1].first; std::vector<int> in, tie; for(auto& p : o) { if(p.first < cut - 1e-9) in.push_back(p.second); else if(p.first <= cut + 1e-9) tie.push_back(p.second); }
  for(int k=0;k<dy;++k) { double lo = 1e300, hi = -1e300; for(auto& p : o) { lo = std::min(lo, s[p.second].y[k]); hi = std::max(hi, s[p.second].y[k]); } double t = 1e-9*(1 + std::abs(lo) + std::abs(hi)); if(!c.check(y[k] >= lo - t && y[k] <= hi + t, "rbf range", w + ": " + mc::dstr(y[k]))) return; if(o[0].first == 0) c.check(mc::close(y[k], s[o[0].second].y[k], 1e-6, 1e-6), "rbf sample", w + ": " + mc::dstr(y[k]) + " not " + mc::dstr(s[o[0].second].y[k])); }
  bool any = false; int need = K - (int)in.size(), T = (int)tie.size(); for(int m=0;m<(1<<T) && !any;++m) { if(__builtin_popcount(m) != need) continue; std::vector<int> u = in; for(int b=0;b<T;++b) if(m >> b & 1) u.push_back(tie[b]); bool ok = true; for(int k=0;k<dy;++k) { double a = 0, z = 0; for(int i : u) { double e = 0; for(size_t j=0;j<q.size();++j) e += (q[j]-s[i].x[j])*(q[j]-s[i].x[j]); double g = 1/(1e-10 + e); a += g*s[i].y[k]; z += g; } ok = ok && mc::close(y[k], a/z, 1e-6, 1e-9); } any = ok; } c.check(any, "rbf mean", w + ": " + mc::vstr(y)); }
static void rbf_all(mc::Ctx& c, const std::vector<S>& s, int dx, int dy, const D& Q, const std::string& w) { ptr<data> d = rbf(s, dx, dy); if(!c.check((bool)d, "refused", w)) return; c.check(d->size() == (int)s.size(), "size", w); for(int i=0;i<(int)s.size();++i) { vec x = d->get(i); bool ok = x.size() == dx + dy; for(int k=0;ok && k<dx+dy;++k) ok = x[k] == (k < dx ? s[i].x[k] : s[i].y[k-dx]); c.check(ok, "rbf get", w); rbf_at(c, s, d, s[i].x, w + " at sample " + std::to_string(i)); } int N = (int)Q.size(), M = 1; for(int k=0;k<dx;++k) M *= N; for(int m=0;m<M;++m) { D q; for(int k=0,r=m;k<dx;++k,r/=N) q.push_back(Q[r%N]); rbf_at(c, s, d, q, w + " at " + mc::vstr(q)); } }
static void scen_rbf(mc::Ctx& c) { int dx = 1 + c.pick(3, "dx"), n = 1 + c.pick(dx == 1 ? 4 : c.thorough ? 5 : 4, "n"), P = dx == 1 ? 5 : dx == 2 ? 9 : 8, dy = 1 + c.pick(2, "dy"); std::vector<S> s; int at = -1; static const D Y{ 1, -2, 5 }; std::string w = "rbf"; for(int i=0;i<n;++i) { int room = P - (n - i) - at; if(room < 1) { c.trivial = true; return; } at += 1 + c.pick(room, "point"); S p; for(int k=0,r=at;k<dx;++k) { int b = dx == 1 ? 5 : dx == 2 ? 3 : 2; p.x.push_back(r%b*(k == 1 ? 0.75 : 0.5)); r /= b; } int y = i < 2 || n < 4 ? c.pick(3, "y") : (at + i)%3; p.y.push_back(Y[y]); if(dy == 2) p.y.push_back(3 - 2*Y[(y+i)%3]); s.push_back(p); w += " " + mc::vstr(p.x) + mc::vstr(p.y); } c.state(w); c.tag(w.substr(0, 200)); c.outcome(n*10 + dx); rbf_all(c, s, dx, dy, dx == 3 ? D{ -0.25, 0, 0.3, 0.5, 1 } : D{ -0.25, 0, 0.25, 0.5, 0.6, 0.75, 1, 1.5, 2, 2.5 }, w); }
static void scen_rbf_many(mc::Ctx& c) { int dx = 1 + c.pick(3, "dx"), n = 1 + c.pick(dx == 3 ? 6 : 12, "side"), order = c.pick(3, "order"); std::vector<S> s; int N = 1; for(int k=0;k<dx;++k) N *= n; for(int m=0;m<N;++m) { int j = order == 0 ? m : order == 1 ? N-1-m : (m*7)%N; if(order == 2 && N%7 == 0) j = m; S p; for(int k=0,r=j;k<dx;++k,r/=n) p.x.push_back(0.125*(r%n)*(k+1)); p.y = { 1.0 + j%17, -0.5*(j%5) }; s.push_back(p); } std::string w = "rbf " + std::to_string(dx) + "d side " + std::to_string(n) + " order " + std::to_string(order); c.state(w); c.tag(w); c.outcome(N); rbf_all(c, s, dx, 2, D{ -0.1, 0.05, 0.2, 0.33, 0.7, 1.2 }, w); }
// ---- grid: multilinear between the nodes, clamped outside
struct G { const char* n; int dim; double lo[3], hi[3]; };
static const double H = M_PI/2;
static const std::vector<G> GS{ { "COS_TH", 1, {0}, {1} }, { "COS_TK", 1, {0}, {1} }, { "COS_TLV", 1, {-1}, {1} }, { "COS_TLR", 1, {-1}, {1} }, { "COS_TH_TD", 2, {0,0}, {1,1} }, { "RUSIN_TH_TD", 2, {0,0}, {H,H} }, { "ISOTROPIC_TV_PROJ_DPHI", 2, {-H,-H}, {H,H} }, { "STARK_2D", 2, {0,0}, {1,1} }, { "RUSIN_TH_TD_PD", 3, {0,0,0}, {H,H,2*M_PI} }, { "STARK_3D", 3, {0,0,0}, {1,1,2*M_PI} } };
static double gval(int fill, int i, int k) { return fill == 0 ? 1.0 + i + 100*k : fill == 1 ? (i*i*7 + k*3)%11 - 4.0 : i == (k ? 0 : 1) ? 8 : 0; }
static void grid_at(mc::Ctx& c, const ptr<data>& d, const G& g, const std::vector<int>& n, int dy, int fill, const D& q, const std::string& w) { vec y = d->value(V(q)); if(!c.check(y.size() == dy, "grid dimension", w)) return; int base[3]; double a[3]; for(int k=0;k<g.dim;++k) { double t = (n[k]-1)*(q[k]-g.lo[k])/(g.hi[k]-g.lo[k]); t = std::max(0.0, std::min(t, n[k]-1.0)); base[k] = std::min((int)t, std::max(n[k]-2, 0)); a[k] = t - base[k]; }
  for(int j=0;j<dy;++j) { double e = 0; for(int m=0;m<(1<<g.dim);++m) { double u = 1; int id = 0; for(int k=0;k<g.dim;++k) { int b = m >> k & 1; u *= b ? a[k] : 1 - a[k]; id = id*n[k] + std::min(base[k] + b, n[k]-1); } if(u) e += u*gval(fill, id, j); } c.check(mc::close(y[j], e, 1e-9, 1e-9), "grid value", w + " channel " + std::to_string(j) + ": " + mc::dstr(y[j]) + " not " + mc::dstr(e)); } }
static void grid_rows(mc::Ctx& c, const ptr<data>& d, const G& g, const std::vector<int>& n, int dy, const std::string& w) { int N = 1; for(int v : n) N *= v; c.check(d->size() == N, "grid size", w + ": " + std::to_string(d->size())); c.check(d->parametrization().dimX() == g.dim && d->parametrization().dimY() == dy && d->parametrization().input_parametrization() == params::parse_input(g.n), "grid parametrization", w); for(int k=0;k<g.dim;++k) c.check(d->min()[k] == g.lo[k] && d->max()[k] == g.hi[k], "grid domain", w); for(int i=0;i<N;++i) { vec x = d->get(i); if(!c.check(x.size() == g.dim + dy, "grid row", w)) return; for(int k=g.dim-1,r=i;k>=0;--k) { int j = r%n[k]; r /= n[k]; double e = n[k] > 1 ? g.lo[k] + (g.hi[k]-g.lo[k])*j/(n[k]-1) : g.lo[k]; c.check(mc::close(x[k], e, 1e-9, 1e-9), "grid coordinates", w + " node " + std::to_string(i) + ": " + mc::dstr(x[k])); } } }
static void grid_all(mc::Ctx& c, const ptr<data>& d, const G& g, const std::vector<int>& n, int dy, int fill, const std::string& w) { std::vector<D> L(g.dim); for(int k=0;k<g.dim;++k) { double s = n[k] > 1 ? (g.hi[k]-g.lo[k])/(n[k]-1) : g.hi[k]-g.lo[k]; int m = n[k] > 1 ? n[k]-1 : 1; for(int i=0;i<=m;++i) { L[k].push_back(g.lo[k] + i*s); if(i < m) { L[k].push_back(g.lo[k] + (i + 0.5)*s); if(g.dim < 3) L[k].push_back(g.lo[k] + (i + 0.2)*s); } if(g.dim < 3 ? i < 3 || i > m-2 : i == 0) { L[k].push_back(g.lo[k] + (i + 5e-5)*s); if(g.dim == 1) L[k].push_back(g.lo[k] + (i + 1e-3)*s); if(g.dim < 3) L[k].push_back(g.lo[k] + (i - 5e-5)*s); if(g.dim == 1) L[k].push_back(g.lo[k] + (i - 1e-3)*s); } } L[k].push_back(g.hi[k]); L[k].push_back(g.lo[k] - 0.3*s); L[k].push_back(g.hi[k] + 0.3*s); L[k].push_back(g.hi[k] + 2.5*s); } std::vector<size_t> it(g.dim, 0); for(;;) { D q; for(int k=0;k<g.dim;++k) q.push_back(L[k][it[k]]); grid_at(c, d, g, n, dy, fill, q, w + " at " + mc::vstr(q)); int k = 0; while(k < g.dim && ++it[k] == L[k].size()) it[k++] = 0; if(k == g.dim) break; } }
static ptr<data> again(const ptr<data>& d) { std::string f = path("grid.alta"); d->save(f); ptr<data> e = load(f, "data_grid"); unlink(f.c_str()); return e; }
static void grid_case(mc::Ctx& c, const G& g, const std::vector<int>& n, int dy, int fill, int how) { std::string a = std::string("--param ") + g.n + " --PARAM_OUT " + (dy == 3 ? "RGB_COLOR" : "INV_STERADIAN") + " --grid-size " + "["; for(int k=0;k<g.dim;++k) a += (k ? "," : "") + std::to_string(n[k]); a += "]"; std::string w = a + " fill " + std::to_string(fill) + " how " + std::to_string(how); c.state(w); c.tag(w); c.outcome(g.dim*10 + fill); params::input in = params::parse_input(g.n); params::output out = dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN;
  ptr<data> d = how == 1 ? plugins_manager::get_data("data_grid", 3, parameters(), arguments::create_arguments(a)) : plugins_manager::get_data("data_grid", 1000, parameters(g.dim, dy, in, out), arguments::create_arguments(a)); if(!c.check((bool)d, "refused", w)) return; grid_rows(c, d, g, n, dy, w); for(int i=d->size()-1;i>=0;--i) { vec x = d->get(i); for(int k=0;k<dy;++k) x[g.dim+k] = gval(fill, i, k); d->set(i, x); } if(how == 2) { d = again(d); if(!c.check((bool)d, "grid reload", w)) return; grid_rows(c, d, g, n, dy, w); } grid_all(c, d, g, n, dy, fill, w); }
static void scen_grid(mc::Ctx& c) { const G& g = GS[c.pick((int)GS.size(), "param")]; std::vector<int> n; for(int k=0;k<g.dim;++k) n.push_back(1 + c.pick(g.dim == 3 ? 3 : c.thorough ? 6 : 4, "size")); int dy = c.flag("rgb") ? 3 : 1, fill = c.pick(3, "fill"), how = c.pick(3, "how"); grid_case(c, g, n, dy, fill, how); }
static void scen_grid_large(mc::Ctx& c) { const G& g = GS[c.pick((int)GS.size(), "param")]; static const std::vector<std::vector<int> > L[3] = { { {16}, {33}, {100}, {257}, {1000} }, { {17,5}, {33,64}, {64,3}, {1,128}, {90,91} }, { {9,10,12}, {5,4,30}, {1,16,2}, {17,2,1} } }; std::vector<int> n = c.of(L[g.dim-1], "size"); int dy = c.flag("rgb") ? 3 : 1, fill = c.pick(3, "fill"), how = c.pick(3, "how"); grid_case(c, g, n, dy, fill, how); }
// sizes and parametrization that are not given
static void scen_grid_default(mc::Ctx& c) { int k = c.pick(6, "case"); static const char* A[] = { "", "--param COS_TH", "--PARAM_OUT INV_STERADIAN", "", "--param STARK_2D --grid-size [3,2]", "--PARAM_IN RUSIN_TH_TD" }; static const int GI[] = { 7, 0, 7, 5, 7, 5 }; const G& g = GS[GI[k]]; int dy = k == 2 ? 1 : 3; std::vector<int> n(g.dim, 10); if(k == 4) n = { 3, 2 }; std::string w = std::string("case ") + A[k] + " " + std::to_string(k); c.state(w); c.tag(w); c.outcome(k); ptr<data> d = plugins_manager::get_data("data_grid", 5, k == 3 ? parameters(2, 3, params::RUSIN_TH_TD, params::RGB_COLOR) : parameters(), arguments::create_arguments(A[k])); if(!c.check((bool)d, "refused", w)) return; grid_rows(c, d, g, n, dy, w); for(int i=0;i<d->size();++i) { vec x = d->get(i); for(int j=0;j<dy;++j) { c.check(x[g.dim+j] == 0, "grid fresh", w); x[g.dim+j] = gval(0, i, j); } d->set(i, x); } grid_all(c, d, g, n, dy, 0, w); }
// a parametrization the grid has no domain for
static void scen_grid_refuse(mc::Ctx& c) { static const std::vector<std::string> N{ "CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_VH", "NONSENSE", "SCHLICK_VK" }; std::string n = c.of(N, "param"); c.tag(n); c.state(n); c.outcome(n); ptr<data> d = plugins_manager::get_data("data_grid", 5, n == "NONSENSE" ? parameters(2, 3, params::UNKNOWN_INPUT, params::RGB_COLOR) : parameters(), arguments::create_arguments("--param " + n)); c.check(!d || n == "NONSENSE", "no domain", n); }
// ---- MERL: the cell that contains the query
static const int NM = 90*90*180;
static double merl_raw(int i, int ch) { return 1.0 + (i*7 + ch*13)%1009; }
static ptr<data> merl() { static ptr<data> d; if(!d) { std::string s; int n[3] = { 90, 90, 180 }; s.append((char*)n, 12); for(int ch=0;ch<3;++ch) for(int i=0;i<NM;++i) exr::put<double>(s, merl_raw(i, ch)); std::string f = path("merl.binary"); spit(f, s); d = load(f, "data_merl"); unlink(f.c_str()); } return d; }
static const double MS[3] = { 1.00/1500.0, 1.15/1500.0, 1.66/1500.0 };
static void scen_merl(mc::Ctx& c) { int h = c.pick(93, "theta_half"); ptr<data> d = merl(); if(!c.check((bool)d, "refused", "merl")) return; c.state(h); c.outcome(h); static const D F{ 0.02, 0.5, 0.98 }, PH{ 0, 0.004, 0.5, 1.5707, 3.0, 3.1415, -0.004, -0.5, -2.9, 3.3, 4.7, 6.2, -3.5, -6.2 };
  for(double fh : F) for(int t=-1;t<=90;++t) for(double ft : { 0.03, 0.6, 0.97 }) for(double ph : PH) { bool out = false; double th, td; int ih = std::min(h, 89), itd = std::max(0, std::min(t, 89)); if(h < 90) th = (h + fh)*(h + fh)/8100*H; else if(h == 90) th = H; else if(h == 91) { th = H + 0.01; out = true; } else { th = -0.01; ih = 0; out = true; } if(t < 0) { td = -0.003; out = true; } else if(t == 90) { td = ft > 0.5 ? H : H + 0.01; out = out || ft < 0.5; } else td = (t + ft)/90*H; double p = std::fmod(std::abs(ph), 2*M_PI); if(p > M_PI) p = 2*M_PI - p; int ip = std::min(179, (int)(p/M_PI*180)); int i = (ih*90 + itd)*180 + ip; vec y = d->value(V({ th, td, ph })); for(int k=0;k<3;++k) { double e = merl_raw(i, k)*MS[k]; bool ok = y.size() == 3 && (mc::close(y[k], e, 1e-12, 0) || (out && y[k] == 0)); if(!c.check(ok, "merl value", "at " + mc::vstr(D{ th, td, ph }) + ": " + (y.size() == 3 ? mc::dstr(y[k]) : "?") + " not " + mc::dstr(e))) return; } } }
// a negative value in any channel marks a cell that was not measured: it reads as zero
static void scen_merl_holes(mc::Ctx& c) { int m = 1 + c.pick(7, "negative channels"), h = c.pick(90, "theta_half"), at = c.pick(4, "neighbourhood"); ptr<data> d = plugins_manager::get_data("data_merl", 0, parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR), arguments()); if(!c.check((bool)d, "refused", "merl")) return; c.tag("holes"); c.state(m*1000 + h*10 + at); c.outcome(m); std::set<int> I; for(int j : { 0, 1, 89*180, 44*180 + 90, 90*180 - 1 }) I.insert(h*90*180 + (j + at*180*7 + at)%(90*180)); for(int i : I) { vec x = d->get(i); for(int k=0;k<3;++k) x[3+k] = (m >> k & 1) ? -1.0 - k : 2.0 + k; d->set(i, x); } for(int i : I) { vec x = d->get(i), y = d->value(x.head(3)); c.check(y.size() == 3 && y[0] == 0 && y[1] == 0 && y[2] == 0, "merl hole", "sample " + std::to_string(i) + ": " + mc::vstr(y)); } }
// ---- UTIA: quadrilinear, periodic in azimuth
static const int NU = 6*48*6*48;
static double utia_raw(int i, int ch) { return 1 + (i*7 + ch*13)%101; }
static ptr<data> utia() { static ptr<data> d; if(!d) { std::string s; for(int ch=0;ch<3;++ch) for(int i=0;i<NU;++i) exr::put<double>(s, utia_raw(i, ch)); std::string f = path("utia.bin"); spit(f, s); d = load(f, "data_utia"); unlink(f.c_str()); } return d; }
static void weight(double x, double step, int n, bool wrap, int id[2], double w[2]) { double t = x/step; if(!wrap) t = std::max(t, 0.0); int k = (int)std::floor(t + 1e-6); if(!wrap) k = std::min(k, n-2); double a = t - k; if(std::abs(a) < 1e-5) a = 0; id[0] = wrap ? ((k%n)+n)%n : k; id[1] = wrap ? (id[0]+1)%n : k+1; w[1] = a; w[0] = 1 - a; }
static void scen_utia(mc::Ctx& c) { static const D T{ 0, 15, 7.5, 30, 33, 45, 60, 74.9, 75, 80, 90, -0.5 }, P{ 0, 7.5, 3, 90, 181, 352.5, 356, 359.9, 360, -1, -7.5, -90, -180, 361, -360, 725, -365 }; double tl = c.of(T, "theta_l"), pl = c.of(P, "phi_l"); ptr<data> d = utia(); if(!c.check((bool)d, "refused", "utia")) return; c.state(mc::mix(mc::hdbl(tl), mc::hdbl(pl))); c.outcome(tl); double r = M_PI/180; for(double tv : T) for(double pv : P) { int a[2], b[2], e[2], f[2]; double wa[2], wb[2], we[2], wf[2]; weight(tl, 15, 6, false, a, wa); weight(pl, 7.5, 48, true, b, wb); weight(tv, 15, 6, false, e, we); weight(pv, 7.5, 48, true, f, wf); std::string w = "at " + mc::vstr(D{ tl, pl, tv, pv }); c.tag(w); vec y = d->value(V({ tl*r, pl*r, tv*r, pv*r })); if(!c.check(y.size() == 3, "utia dimension", w)) return; for(int k=0;k<3;++k) { double s = 0; for(int m=0;m<16;++m) { int i=m&1, j=m>>1&1, u=m>>2&1, v=m>>3; s += wa[i]*wb[j]*we[u]*wf[v]*utia_raw(((a[i]*48 + b[j])*6 + e[u])*48 + f[v], k); } c.check(mc::close(y[k], s, 0, 0.02), "utia value", w + ": " + mc::dstr(y[k]) + " not " + mc::dstr(s)); } } for(double th : { 90.5, 120.0 }) { vec y = d->value(V({ tl*r, 0, th*r, 0 })); c.check(y.size() == 3 && y[0] == 0 && y[1] == 0 && y[2] == 0, "utia below", mc::dstr(th)); } }
// ---- slices: the pixel that contains the query
struct P { const char* n; int dim; double lo, hi; bool rev; };
static const std::vector<P> PS{ { "STARK_2D", 2, 0, 1, false }, { "RUSIN_TH_TD", 2, 0, H, false }, { "COS_TH_TD", 2, 0, 1, false }, { "STARK_3D", 3, 0, 1, false }, { "RUSIN_TH_TD_PD", 3, 0, H, false }, { "ISOTROPIC_TV_TL_DPHI", 3, -H, H, false }, { "ISOTROPIC_TL_TV_PROJ_DPHI", 3, -H, H, true }, { "SCHLICK_TL_TK_PROJ_DPHI", 3, -H, H, true }, { "RETRO_TL_TVL_PROJ_DPHI", 3, -H, H, true } };
static void scen_slice(mc::Ctx& c) { const P& q = PS[c.pick((int)PS.size(), "param")]; int w = 1 + c.pick(c.thorough ? 8 : 4, "width"), h = 1 + c.pick(c.thorough ? 8 : 4, "height"); std::vector<float> pix; for(int i=0;i<3*w*h;++i) pix.push_back(1 + i); std::string f = path("slice.exr"), a = std::string("--param ") + q.n, t = a + " " + std::to_string(w) + "x" + std::to_string(h); spit(f, exr::file(w, h, pix)); ptr<data> d = load(f, "data_brdf_slice", a); unlink(f.c_str()); c.state(t); c.tag(t); c.outcome(w*h); if(!c.check((bool)d, "refused", t)) return; double R = q.hi - q.lo; D U[2]; for(int k=0;k<2;++k) { int n = k ? h : w; for(int i=0;i<n;++i) for(double o : { 0.1, 0.5, 0.9 }) U[k].push_back((i + o)/n); for(double o : { 0.0, 1.0, -0.01, 1.01, -2.0, 3.0 }) U[k].push_back(o); for(int i=1;i<n;++i) U[k].push_back((double)i/n); }
  for(double u : U[0]) for(double v : U[1]) for(double ph : { 0.5, -0.4, 3.0, -3.0 }) { if(q.dim == 2 && ph != 0.5) continue; D x{ q.lo + u*R, q.lo + v*R, ph }; if(q.dim == 2) x.pop_back(); else if(q.rev) std::swap(x[0], x[2]); vec y = d->value(V(x)); std::string s = t + " at " + mc::vstr(x); if(!c.check(y.size() == 3, "slice dimension", s)) return; bool out = u < 0 || u > 1 || v < 0 || v > 1, ok = out && y[0] == 0 && y[1] == 0 && y[2] == 0; for(int di=-1;di<=0 && !ok;++di) for(int dj=-1;dj<=0 && !ok;++dj) { double a0 = u*w, b0 = v*h; int i = (int)std::floor(a0 + (di ? -1e-9 : 1e-9)), j = (int)std::floor(b0 + (dj ? -1e-9 : 1e-9)); i = std::max(0, std::min(i, w-1)); j = std::max(0, std::min(j, h-1)); ok = true; for(int k=0;k<3;++k) ok = ok && y[k] == pix[3*(j*w+i)+k]; } c.check(ok, "slice value", s + ": " + mc::vstr(y)); } }
// ---- several objects at a time, of the same kind or not: each answers for its own samples, whatever was asked of the others, changed or released before
struct Obj { int kind; ptr<data> d; std::vector<vec> x, y; };
static const int KINDS = 11;
static void obj_set(Obj& o, int v) { int n = o.d->size(), dx = o.d->parametrization().dimX(), dy = o.d->parametrization().dimY(); int at[4] = { 0, 1 % n, n/2, n-1 }; o.x.clear(); o.y.clear(); for(int j=0;j<4;++j) { vec r = o.d->get(at[j]); for(int k=0;k<dy;++k) r[dx+k] = 1 + 10*v + at[j]%7 + 0.5*k; o.d->set(at[j], r); o.x.push_back(r.head(dx)); o.y.push_back(r.tail(dy)); } }
static bool obj_make(mc::Ctx& c, Obj& o, int kind, int v) { o.d.reset(); o.kind = kind; o.x.clear(); o.y.clear();
  if(kind < 3) { int dx = kind + 1; std::vector<S> s; for(int i=0;i<5;++i) { S p; for(int k=0;k<dx;++k) p.x.push_back(0.2*i + 0.1*k*(i%2)); p.y = { 1.0 + 10*v + i, -2.0*v - i }; s.push_back(p); } o.d = rbf(s, dx, 2); for(auto& p : s) { o.x.push_back(V(p.x)); o.y.push_back(V(p.y)); } }
  else { static const char* P[] = { "data_grid", "data_grid", "data_grid", "data_grid", "data_merl", "data_utia", "data_brdf_slice", "data_brdf_slice" }; static const char* A[] = { "--param COS_TH --grid-size [5]", "--param COS_TH --grid-size [9]", "--param RUSIN_TH_TD --grid-size [4,3]", "--param RUSIN_TH_TD_PD --grid-size [3,3,4]", "", "", "--param STARK_2D", "--param RUSIN_TH_TD_PD" }; int j = kind - 3; parameters p = j == 4 ? parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR) : j == 5 ? parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR) : parameters(); o.d = plugins_manager::get_data(P[j], 0, p, arguments::create_arguments(A[j])); if(o.d) obj_set(o, v); }
  return c.check((bool)o.d, "refused", "kind " + std::to_string(kind)); }
static void obj_ask(mc::Ctx& c, const Obj& o, const std::string& w, bool back) { for(size_t j=0;j<o.x.size();++j) { size_t i = back ? o.x.size()-1-j : j; vec y = o.d->value(o.x[i]); bool ok = y.size() == o.y[i].size(); for(int k=0;ok && k<y.size();++k) ok = mc::close(y[k], o.y[i][k], 1e-6, 1e-6); if(!c.check(ok, "another object's value", w + ": kind " + std::to_string(o.kind) + " at " + mc::vstr(o.x[i]) + " is " + mc::vstr(y) + " not " + mc::vstr(o.y[i]))) return; } }
static void scen_objects(mc::Ctx& c) { Obj a, b; int v = 2; int ka = c.pick(KINDS, "first"), kb = c.pick(KINDS, "second"); if(!obj_make(c, a, ka, 0) || !obj_make(c, b, kb, 1)) return; std::string w = "objects " + std::to_string(ka) + " " + std::to_string(kb); c.tag(w);
  for(int s=0;s<(c.thorough ? 5 : 3);++s) { int op = c.pick(4, "op"); w += op == 0 ? " ask first" : op == 1 ? " ask second" : op == 2 ? " change first" : " replace second"; if(op == 0) obj_ask(c, a, w, s % 2); else if(op == 1) obj_ask(c, b, w, s % 2); else if(op == 3) { if(!obj_make(c, b, kb, v++)) return; } else if(ka >= 3) obj_set(a, v++); else if(!obj_make(c, a, ka, v++)) return; }
  c.state(w); c.outcome(v); for(int t=0;t<4;++t) obj_ask(c, t % 2 ? b : a, w, t % 2); }
MC_MAIN({"rbf", scen_rbf, 3, 60}, {"rbf_many", scen_rbf_many, 2, 120}, {"grid", scen_grid, 3, 60}, {"grid_large", scen_grid_large, 3, 60}, {"grid_default", scen_grid_default, 1, 60}, {"grid_refuse", scen_grid_refuse, 1, 60}, {"merl", scen_merl, 1, 120}, {"merl_holes", scen_merl_holes, 1, 60}, {"utia", scen_utia, 2, 60}, {"slice", scen_slice, 3, 60}, {"objects", scen_objects, 3, 60})
