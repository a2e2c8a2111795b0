// P08: every stored sample of MERL, UTIA, BRDF-slice and ASTM files, against the layout of each format.
#include "mc.h"
#include "exr.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/vertical_segment.h>
#include <core/plugins_manager.h>
using namespace alta;
static std::string path(const std::string& n) { return std::string(getenv("VERIF_SCRATCH")) + "/" + std::to_string(getpid()) + "." + n; }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o.write(s.data(), s.size()); }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static ptr<data> load(const std::string& f, const char* p, const std::string& a = "") { return plugins_manager::load_data(f, p, arguments::create_arguments(a)); }
static bool near(double a, double b) { return std::abs(a-b) <= 1e-12*(1 + std::abs(b)); }
static bool tight(double a, double b) { return std::abs(a-b) <= 1e-14*std::abs(b); }
// ---- MERL: 90 x 90 x 180 triples, one plane per colour
static const int TH = 90, TD = 90, PD = 180, NM = TH*TD*PD;
static double merl_raw(int i, int ch) { return 1.0 + i + 1.5*ch*NM; }
static const double MS[3] = { 1.00/1500.0, 1.15/1500.0, 1.66/1500.0 };
static std::string merl_file() { std::string s; int d[3] = { TH, TD, PD }; s.append((char*)d, 12); s.reserve(12 + 24*(size_t)NM); for(int ch=0;ch<3;++ch) for(int i=0;i<NM;++i) exr::put<double>(s, merl_raw(i, ch)); return s; }
static ptr<data> merl() { static ptr<data> d; if(!d) { std::string f = path("merl.binary"); spit(f, merl_file()); d = load(f, "data_merl"); unlink(f.c_str()); } return d; }
static bool domain(mc::Ctx& c, const ptr<data>& d, const std::vector<double>& lo, const std::vector<double>& hi) { bool ok = d->min().size() == (int)lo.size() && d->max().size() == (int)hi.size(); for(size_t k=0;ok && k<lo.size();++k) ok = near(d->min()[k], lo[k]) && near(d->max()[k], hi[k]); return c.check(ok, "domain", "wrong bounds"); }
static void scen_merl(mc::Ctx& c) { int h = c.pick(TH, "theta_half"); ptr<data> d = merl(); if(!c.check((bool)d, "refused", "merl")) return; c.check(d->size() == NM, "size", std::to_string(d->size())); auto& p = d->parametrization(); c.check(p.input_parametrization() == params::RUSIN_TH_TD_PD && p.output_parametrization() == params::RGB_COLOR && p.dimX() == 3 && p.dimY() == 3, "parametrization", "merl"); domain(c, d, { 0, 0, 0 }, { M_PI/2, M_PI/2, 2*M_PI });
  for(int t=0;t<TD;++t) for(int f=0;f<PD;++f) { int i = (h*TD + t)*PD + f; vec x = d->get(i); double a = (h + 0.5)*(h + 0.5)/8100.0*M_PI/2, b = (t + 0.5)/90*M_PI/2, e = (f + 0.5)/180*M_PI; std::string w = "sample " + std::to_string(i); c.state(mc::mix(i, 7)); if(!c.check(x.size() == 6, "row", w)) return; if(!c.check(near(x[0], a) && near(x[1], b) && near(x[2], e), "coordinates", w)) return; for(int k=0;k<3;++k) if(!c.check(tight(x[3+k], merl_raw(i, k)*MS[k]), "value", w + " channel " + std::to_string(k) + ": " + mc::dstr(x[3+k]))) return; vec y = d->value(x.head(3)); if(!c.check(y.size() == 3 && y[0] == x[3] && y[1] == x[4] && y[2] == x[5], "lookup", w)) return; } c.outcome(h); }
static void scen_merl_write(mc::Ctx& c) { int mode = c.pick(4, "mode"); std::string g = path("out.binary"); if(mode == 0) { merl()->save(g); c.check(slurp(g) == merl_file(), "saved file", "differs from the one read"); unlink(g.c_str()); c.outcome(0); return; }
  ptr<data> d = plugins_manager::get_data("data_merl", 0, parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR), arguments::create_arguments("")); if(!c.check((bool)d && d->size() == NM, "no data", "")) return; if(mode == 3) { vec x = d->get(c.pick(7, "index")*(NM/7)); c.check(x[3] == 0 && x[4] == 0 && x[5] == 0, "fresh", "not zero"); c.outcome(3); return; }
  int step = mode == 1 ? 1 : -1; for(int n=0;n<NM;++n) { int i = step > 0 ? n : NM-1-n; vec x = d->get(i); for(int k=0;k<3;++k) x[3+k] = 0.25*i + k*0.5; d->set(i, x); } ptr<data> e = d; if(mode == 2) { d->save(g); e = load(g, "data_merl"); unlink(g.c_str()); if(!c.check((bool)e, "refused", "saved file")) return; } for(int i=0;i<NM;++i) { vec x = e->get(i); for(int k=0;k<3;++k) if(!c.check(tight(x[3+k], 0.25*i + k*0.5), "stored", "sample " + std::to_string(i) + ": " + mc::dstr(x[3+k]))) return; } c.outcome(mode); }
// ---- UTIA: light (theta, phi) by view (theta, phi), one plane per colour
static const int NT = 6, NP = 48, NU = NT*NP*NT*NP;
static double utia_raw(int i, int ch) { return 1 + i + 2.0*ch*NU; }
static std::string utia_file() { std::string s; for(int ch=0;ch<3;++ch) for(int i=0;i<NU;++i) exr::put<double>(s, utia_raw(i, ch)); return s; }
static std::string utia_exr() { std::vector<float> p(3*NU); for(int i=0;i<NU;++i) for(int k=0;k<3;++k) p[3*i+k] = (float)utia_raw(i, k); return exr::file(NT*NP, NT*NP, p); }
static ptr<data> utia(bool e) { static ptr<data> m[2]; ptr<data>& d = m[e]; if(!d) { std::string f = path(e ? "utia.exr" : "utia.bin"); spit(f, e ? utia_exr() : utia_file()); d = load(f, "data_utia"); unlink(f.c_str()); } return d; }
static bool utia_rows(mc::Ctx& c, const ptr<data>& d, int from, int to, bool look) { for(int i=from;i<to;++i) { vec x = d->get(i); std::string w = "sample " + std::to_string(i); int pv = i%NP, tv = i/NP%NT, pl = i/(NP*NT)%NP, tl = i/(NP*NT*NP); if(!c.check(x.size() == 7, "row", w)) return false; if(!c.check(near(x[0], tl*15*M_PI/180) && near(x[1], pl*7.5*M_PI/180) && near(x[2], tv*15*M_PI/180) && near(x[3], pv*7.5*M_PI/180), "coordinates", w)) return false; for(int k=0;k<3;++k) if(!c.check(x[4+k] == utia_raw(i, k), "value", w + ": " + mc::dstr(x[4+k]))) return false; if(look) { vec y = d->value(x.head(4)); for(int k=0;k<3;++k) if(!c.check(mc::close(y[k], x[4+k], 1e-4, 1e-4), "lookup", w + ": " + mc::dstr(y[k]) + " not " + mc::dstr(x[4+k]))) return false; } } return true; }
static void scen_utia(mc::Ctx& c) { bool e = c.flag("exr"); int b = c.pick(NT*NP, "light"); ptr<data> d = utia(e); if(!c.check((bool)d, "refused", "utia")) return; c.check(d->size() == NU, "size", std::to_string(d->size())); auto& p = d->parametrization(); c.check(p.input_parametrization() == params::SPHERICAL_TL_PL_TV_PV && p.output_parametrization() == params::RGB_COLOR && p.dimX() == 4 && p.dimY() == 3, "parametrization", "utia"); domain(c, d, { 0, 0, 0, 0 }, { M_PI/2, 2*M_PI, M_PI/2, 2*M_PI }); utia_rows(c, d, b*NT*NP, (b+1)*NT*NP, false); for(int i=0;i<NT*NP;++i) c.state(mc::mix(b*NT*NP + i, e)); c.outcome(b); }
static void scen_utia_write(mc::Ctx& c) { bool e = c.flag("exr"); int mode = c.pick(3, "mode"); std::string g = path(e ? "out.exr" : "out.bin"); ptr<data> d = utia(e); if(mode) { d = plugins_manager::get_data("data_utia", 0, parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments::create_arguments("")); for(int n=0;n<NU;++n) { int i = mode == 1 ? n : NU-1-n; vec x = d->get(i); for(int k=0;k<3;++k) x[4+k] = utia_raw(i, k); d->set(i, x); } utia_rows(c, d, 0, NU, false); } d->save(g); if(!e) c.check(slurp(g) == utia_file(), "saved file", "differs from the samples stored"); ptr<data> r = load(g, "data_utia"); unlink(g.c_str()); if(!c.check((bool)r, "refused", "saved file")) return; utia_rows(c, r, 0, NU, false); c.outcome(mode*2 + e); }
// ---- slices: one pixel per sample, row by row
struct P { const char* n; params::input in; int dim; double lo, hi; bool rev; };
static const std::vector<P> PS{ { "", params::STARK_2D, 2, 0, 1, false }, { "STARK_2D", params::STARK_2D, 2, 0, 1, false }, { "RUSIN_TH_TD", params::RUSIN_TH_TD, 2, 0, M_PI/2, false }, { "COS_TH_TD", params::COS_TH_TD, 2, 0, 1, false }, { "STARK_3D", params::STARK_3D, 3, 0, 1, false }, { "RUSIN_TH_TD_PD", params::RUSIN_TH_TD_PD, 3, 0, M_PI/2, false }, { "ISOTROPIC_TV_TL_DPHI", params::ISOTROPIC_TV_TL_DPHI, 3, -M_PI/2, M_PI/2, false }, { "ISOTROPIC_TL_TV_PROJ_DPHI", params::ISOTROPIC_TL_TV_PROJ_DPHI, 3, -M_PI/2, M_PI/2, true }, { "SCHLICK_TL_TK_PROJ_DPHI", params::SCHLICK_TL_TK_PROJ_DPHI, 3, -M_PI/2, M_PI/2, true }, { "RETRO_TL_TVL_PROJ_DPHI", params::RETRO_TL_TVL_PROJ_DPHI, 3, -M_PI/2, M_PI/2, true }, { "SPHERICAL_TL_PL_TV_PV", params::STARK_2D, 2, 0, 1, false } };
static float slice_raw(int i, int k) { return 0.5f + 3*i + k*1000; }
static void slice_rows(mc::Ctx& c, const ptr<data>& d, const P& q, int w, int h, double phi, const std::string& t) { c.check(d->size() == w*h, "size", t); auto& p = d->parametrization(); if(!c.check(p.dimX() == q.dim && p.dimY() == 3 && p.input_parametrization() == q.in && p.output_parametrization() == params::RGB_COLOR, "parametrization", t)) return; for(int i=0;i<w*h;++i) { vec x = d->get(i); std::string s = t + " sample " + std::to_string(i); if(!c.check(x.size() == q.dim + 3, "row", s)) return; double e[3] = { q.lo + (i%w + 0.5)*(q.hi - q.lo)/w, q.lo + (i/w + 0.5)*(q.hi - q.lo)/h, phi }; if(q.rev) std::swap(e[0], e[2]); for(int k=0;k<q.dim;++k) c.check(near(x[k], e[k]), "coordinates", s + " coordinate " + std::to_string(k) + ": " + mc::dstr(x[k])); vec y = d->value(x.head(q.dim)); for(int k=0;k<3;++k) { c.check(x[q.dim+k] == slice_raw(i, k), "value", s + ": " + mc::dstr(x[q.dim+k])); c.check(y.size() == 3 && y[k] == x[q.dim+k], "lookup", s); } } }
static void scen_slice(mc::Ctx& c) { int n = c.pick((int)PS.size(), "param"), w = 1 + c.pick(c.thorough ? 9 : 5, "width"), h = 1 + c.pick(c.thorough ? 9 : 5, "height"), ph = c.pick(6, "phi"), mode = c.pick(2, "saved"); const P& q = PS[n]; static const char* A[] = { "", " --phi 0", " --phi 45", " --phi 200", " --phi 22.5", " --phi 0.75" }; static const double V[] = { M_PI/2, 0, M_PI/4, M_PI/180*200, M_PI/8, M_PI/240 }; std::string a = std::string(*q.n ? "--param " : "") + q.n + A[ph], t = std::to_string(w) + "x" + std::to_string(h) + " " + a; c.state(t + char('0' + mode)); c.tag(t); c.outcome(n); std::vector<float> pix(3*w*h); for(int i=0;i<w*h;++i) for(int k=0;k<3;++k) pix[3*i+k] = slice_raw(i, k); std::string f = path("slice.exr"), g = path("again.exr"); spit(f, exr::file(w, h, pix)); ptr<data> d = load(f, "data_brdf_slice", a); unlink(f.c_str()); if(!c.check((bool)d, "refused", t)) return; if(mode) { d->save(g); ptr<data> e = load(g, "data_brdf_slice", a); unlink(g.c_str()); if(!c.check((bool)e, "refused", t + " saved")) return; d = e; } slice_rows(c, d, q, w, h, V[ph], t); }
static void scen_slice_set(mc::Ctx& c) { int n = c.pick((int)PS.size(), "param"); const P& q = PS[n]; std::string a = std::string(*q.n ? "--param " : "") + q.n; c.tag(a); c.state(a); c.outcome(n); ptr<data> d = plugins_manager::get_data("data_brdf_slice", 0, parameters(), arguments::create_arguments(a)); if(!c.check((bool)d && d->size() == 512*512, "no data", a)) return; for(int i=0;i<512*512;++i) { vec x = d->get((i*77)%(512*512)); int j = (i*77)%(512*512); for(int k=0;k<3;++k) x[q.dim+k] = slice_raw(j, k); d->set(j, x); } slice_rows(c, d, q, 512, 512, M_PI/2, a); std::string g = path("again.exr"); d->save(g); ptr<data> e = load(g, "data_brdf_slice", a); unlink(g.c_str()); if(c.check((bool)e, "refused", a)) slice_rows(c, e, q, 512, 512, M_PI/2, a + " saved"); }
// ---- ASTM: a header ended by VARS, then one comma separated line per sample
static void scen_astm(mc::Ctx& c) { static const std::vector<std::string> IN{ "theta_i,phi_i,theta_s,phi_s", "theta_i,theta_s,phi_s", "theta_i, phi_i, theta_s, phi_s" }, OUT{ ",R,G,B", ",Integrated", ", R, G, B" }; int in = c.pick(3, "in"), out = c.pick(3, "out"), n = c.pick(5, "rows"), blank = c.pick(4, "blank lines"), order = c.pick(3, "header"), end = c.pick(3, "end"), num = c.pick(4, "numbers"); static const char* NUM[4][3] = { { "0.5", "1", "2.25" }, { "-1.5e-3", "1E2", "+0.125" }, { " 0.1 ", "  7", "3  " }, { "1", "0", "7" } };
  int nx = in == 1 ? 3 : 4, ny = out == 1 ? 1 : 3; std::string h[3] = { "NAME a paint, blue\n", "NUM_POINTS " + std::to_string(n) + "\n", "COMMENT -1 2 [3]\n" }, s; for(int k=0;k<3;++k) s += h[(k + order)%3]; s += "VARS " + IN[in] + OUT[out] + "\n"; if(blank == 1) s += "\n"; std::vector<std::vector<double> > v(n, std::vector<double>(nx + ny)); for(int i=0;i<n;++i) { if(blank == 2) s += "\n"; if(blank == 3) s += "  \n"; for(int k=0;k<nx+ny;++k) { int o = i*(nx+ny) + k; std::string z = NUM[num][o%3]; double base = atof(z.c_str()); if(num == 0) { z = std::to_string(o) + z.substr(z.find('.') == std::string::npos ? z.size() : z.find('.')); base = atof(z.c_str()); } v[i][k] = base; s += z + (k + 1 < nx + ny ? "," : i + 1 < n || end != 1 ? "\n" : ""); } } if(end == 2) s += "\n1,2\n";
  std::string t = IN[in] + OUT[out] + " rows " + std::to_string(n) + " blank " + std::to_string(blank) + " header " + std::to_string(order) + " end " + std::to_string(end) + " numbers " + std::to_string(num); c.state(t); c.tag(t); c.outcome(n*10 + out); std::string f = path("a.astm"); spit(f, s); ptr<data> d = load(f, "data_astm"); unlink(f.c_str()); if(!c.check((bool)d, "refused", t)) return; auto& p = d->parametrization(); c.check(d->size() == n, "size", t); c.check(p.dimX() == nx && p.dimY() == ny, "dimensions", t); c.check(p.input_parametrization() == (nx == 4 ? params::SPHERICAL_TL_PL_TV_PV : params::UNKNOWN_INPUT), "parametrization", t); c.check(p.output_parametrization() == (ny == 3 ? params::RGB_COLOR : params::INV_STERADIAN), "output parametrization", t);
  for(int i=0;i<n;++i) { vec x = d->get(i); if(!c.check(x.size() == nx + ny, "row", t)) return; for(int k=0;k<nx+ny;++k) c.check(x[k] == v[i][k], "value", t + " sample " + std::to_string(i) + " column " + std::to_string(k) + ": " + mc::dstr(x[k])); for(int k=0;k<nx;++k) c.check(d->min()[k] <= x[k] && d->max()[k] >= x[k], "bounds", t); } }
// files of other sizes are not these formats
static void scen_refuse(mc::Ctx& c) { int k = c.pick(3, "format"); c.tag("refuse"); std::string f, p, s, w; if(k == 0) { static const std::vector<std::vector<int> > D{ { 90, 90, 360 }, { 90, 90, 90 }, { 91, 90, 180 }, { 90, 89, 180 }, { 0, 0, 0 }, { -90, 90, 180 }, { 1, 1, 1 }, { 90, 90, 179 }, { 180, 90, 180 } }; const auto& d = c.of(D, "dims"); f = path("no.binary"); p = "data_merl"; for(int v : d) s.append((char*)&v, 4); w = mc::vstr(d); bool full = c.flag("as many samples as stated"); size_t n = full ? (size_t)std::max(0, d[0]*d[1]*d[2]) : (size_t)NM; s.resize(12 + 24*n, 'x'); }
  else if(k == 1) { static const std::vector<std::pair<int,int> > D{ { 288, 287 }, { 287, 288 }, { 144, 576 }, { 1, 1 }, { 576, 288 }, { 288, 576 } }; auto d = c.of(D, "size"); f = path("no.exr"); p = "data_utia"; s = exr::file(d.first, d.second, std::vector<float>(3*(size_t)d.first*d.second, 1.0f)); w = std::to_string(d.first) + "x" + std::to_string(d.second); }
  else { static const std::vector<std::string> D{ "", "NUM_POINTS 1\n", "VARS theta_i,phi_i,theta_s,phi_s,R,G,B\n1,2,3,4,5,6,7\n", "NUM_POINTS 2\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n1,2,3,4,5,6,7\n", "NUM_POINTS -1\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n", "NUM_POINTS 1\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n1,2,3,4,5,6\n", "NUM_POINTS 1\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n1,2,3,x,5,6,7\n" }; f = path("no.astm"); p = "data_astm"; s = c.of(D, "text"); w = s; }
  c.state(p + w); c.outcome(p); spit(f, s); bool refused = false; ptr<data> d; try { d = load(f, p.c_str()); refused = !d; } catch(std::exception&) { refused = true; } unlink(f.c_str()); c.check(refused, "loaded", p + " " + w); }
MC_MAIN({"refuse", scen_refuse, 1, 60}, {"merl", scen_merl, 1, 60}, {"merl_write", scen_merl_write, 1, 60}, {"utia", scen_utia, 2, 60}, {"utia_write", scen_utia_write, 2, 60}, {"slice", scen_slice, 3, 60}, {"slice_set", scen_slice_set, 1, 60}, {"astm", scen_astm, 4, 30})
