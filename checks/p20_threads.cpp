// P20: the parallel rational fitter and the parallel loop of data2data under every schedule (see ompsched.h).
#include "ompsched.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/vertical_segment.h>
#include <core/rational_function.h>
#include <core/fitter.h>
#include <core/plugins_manager.h>
using namespace alta;
void interpolate(ptr<data> in, ptr<data> out);
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static parameters par(int dx, int dy) { static const params::input in[] = { params::COS_TH, params::COS_TH, params::COS_TH_TD }; return parameters(dx, dy, in[dx], params::UNKNOWN_OUTPUT); }
static ptr<data> rows(const parameters& p, int n, double* v, bool ci) { return ptr<data>(new vertical_segment(p, n, std::shared_ptr<double>(v, [](double* q) { delete[] q; }), ci ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::NO_CONFIDENCE_INTERVAL)); }
struct Fit { bool ok; std::vector<double> c; std::vector<int> n; };
static Fit fit(const ptr<data>& d, const std::string& cmd, int dy, ptr<fitter> F) { Fit r; arguments args = arguments::create_arguments(cmd); F->set_parameters(args); ptr<function> f(plugins_manager::get_function(arguments::create_arguments(""), par(1, dy))); r.ok = F->fit_data(d, f, args); ptr<rational_function> g = dynamic_pointer_cast<rational_function>(f); if(r.ok) for(int k=0;k<dy;++k) { vec p = g->get(k)->getP(), q = g->get(k)->getQ(); r.n.push_back((int)p.size()); r.n.push_back((int)q.size()); for(int i=0;i<p.size();++i) r.c.push_back(p[i]); for(int i=0;i<q.size();++i) r.c.push_back(q[i]); } return r; }
struct Case { const char* name; int m, dy; double y[4][2]; const char* opt; };
// data the sizes of which fit differently well, equally well, and not at all; several channels; several sizes searched
static const Case CASES[] = {
 { "constant", 2, 1, { {0.5,1.5}, {0.5,1.5} }, "--min-np 3 --np 3" },                          // all sizes fit exactly alike
 { "slope", 3, 1, { {0,2}, {2,4}, {4,6} }, "--min-np 3 --np 3" },
 { "fails", 3, 1, { {0,1}, {4,5}, {0,1} }, "--min-np 3 --np 4" },                              // no size of three coefficients
 { "four", 3, 1, { {0,2}, {2,4}, {3,9} }, "--min-np 4 --np 4" },
 { "delta", 3, 1, { {1,2}, {2,4}, {3,9} }, "--min-np 3 --np 4 --use_delta" },
 { "channels", 2, 2, { {0.5,1.5}, {2,4} }, "--min-np 3 --np 3" },
 { "legendre", 3, 1, { {0,2}, {2,4}, {4,6} }, "--min-np 3 --np 3 --func rational_function_legendre" },
 { "origin", 1, 1, { {1,2} }, "--min-np 3 --np 3" }, { "origin5", 1, 1, { {1,2} }, "--min-np 4 --np 4" }, { "origin2", 1, 2, { {1,4} }, "--min-np 3 --np 3" }, { "origin delta", 1, 1, { {1,2} }, "--min-np 3 --np 3 --use_delta" },                                    // coefficients that do not matter
 { "five", 3, 1, { {0,2}, {2,4}, {3,9} }, "--min-np 5 --np 5" }, { "step", 3, 1, { {0,1}, {4,5}, {0,1} }, "--min-np 2 --np 6 --np-step 2" }, { "two starts", 4, 1, { {0,1}, {2,3}, {2,5}, {7,9} }, "--min-np 3 --np 5 --nb-starting-points 2" },
 { "tie", 4, 1, { {1,1}, {1,1}, {1,1}, {1,1} }, "--min-np 4 --np 4" },
};
static void scen_fitter(mc::Ctx& c) {
  int k = c.pick(sizeof(CASES)/sizeof(CASES[0]), "data"), cores = 2 + c.pick(2, "threads"); const Case& C = CASES[k]; std::string w = std::string(C.name) + " " + std::to_string(cores) + " threads"; c.tag(w);
  int wd = 1 + 3*C.dy; double* v = new double[C.m*wd]; for(int i=0;i<C.m;++i) { v[i*wd] = i; for(int j=0;j<C.dy;++j) { double a = C.y[i][0] + j, b = C.y[i][1] + j*2; v[i*wd+1+j] = (a+b)/2; v[i*wd+1+C.dy+j] = a; v[i*wd+1+2*C.dy+j] = b; } } ptr<data> d = rows(par(1, C.dy), C.m, v, true);
  ptr<fitter> F = plugins_manager::get_fitter("rational_fitter_parallel"); if(!c.check((bool)F, "no fitter", "")) return; std::string cmd = C.opt;
  Fit one = fit(d, cmd + " --nb-cores 1", C.dy, F); sched::begin(c, (c.thorough ? 3 : 2) + (cores == 2), true); Fit many = fit(d, cmd + " --nb-cores " + std::to_string(cores), C.dy, F); sched::end();
  c.outcome(many.ok); for(int n : many.n) c.outcome(n); c.check(one.ok == many.ok, "success", w); if(!one.ok || !many.ok) return; c.check(one.n == many.n, "size", w + ": " + mc::vstr(many.n) + " not " + mc::vstr(one.n)); c.check(one.n != many.n || one.c == many.c, "coefficients", w + ": " + mc::vstr(many.c) + " not " + mc::vstr(one.c)); }
// a function that cannot be had is reported, not fatal
static void scen_missing(mc::Ctx& c) { int cores = 1 + c.pick(3, "threads"), o = c.pick(2, "function"); std::string w = std::to_string(cores) + " threads"; c.tag(w); double* v = new double[8]{ 0, 1, 0.5, 1.5, 1, 1, 0.5, 1.5 }; ptr<data> d = rows(par(1, 1), 2, v, true); ptr<fitter> F = plugins_manager::get_fitter("rational_fitter_parallel"); sched::begin(c, c.thorough ? 3 : 2, true); Fit r = fit(d, std::string("--min-np 3 --np 3 --func ") + (o ? "nonlinear_function_diffuse" : "no_such_function") + " --nb-cores " + std::to_string(cores), 1, F); sched::end(); c.outcome(r.ok); c.check(!r.ok, "fitted", w); }
// plain rows on both sides
struct table : data { std::vector<double> r; int w; table(const parameters& p, int n) : data(p, n), w(p.dimX() + p.dimY()) { r.assign(n*w, 0.25); _min = vec::Zero(p.dimX()); _max = vec::Ones(p.dimX()); } vec get(int i) const { vec x(w); for(int k=0;k<w;++k) x[k] = r[i*w+k]; return x; } void set(int i, const vec& x) { for(int k=0;k<w;++k) r[i*w+k] = x[k]; }
  vec value(const vec& x) const { vec y(parametrization().dimY()); for(int k=0;k<y.size();++k) { y[k] = 1 + k; for(int j=0;j<x.size();++j) y[k] += (j+1)*x[j]; } return y; } };
static ptr<data> filled(const char* plugin, params::input in) { static std::map<std::string, ptr<data> > m; ptr<data>& d = m[plugin]; if(d) return d; d = plugins_manager::get_data(plugin, 0, parameters(params::dimension(in), 3, in, params::RGB_COLOR), arguments::create_arguments("")); if(!d) return d; vec x(d->parametrization().dimX() + 3); for(int i=0;i<d->size();++i) { for(int k=0;k<x.size();++k) x[k] = 1 + (i*7 + k*3)%1013; d->set(i, x); } return d; }
static ptr<data> source(int kind, int dy) { if(kind == 3) return filled("data_merl", params::RUSIN_TH_TD_PD); if(kind == 4) return filled("data_utia", params::SPHERICAL_TL_PL_TV_PV); if(kind == 5) return filled("data_brdf_slice", params::STARK_2D); params::input in = kind == 2 ? params::COS_TH : params::RUSIN_TH_TD; parameters p(params::dimension(in), dy, in, params::RGB_COLOR); if(kind == 0) return ptr<data>(new table(p, 0)); std::string f = std::string(getenv("VERIF_SCRATCH")) + "/src." + std::to_string(getpid()); { std::ofstream o(f.c_str()); o << "#ALTA HEADER BEGIN\n#DIM " << p.dimX() << " " << dy << "\n#PARAM_IN " << params::get_name(in) << "\n#PARAM_OUT " << params::get_name(params::RGB_COLOR) << "\n#VS 0\n#ALTA HEADER END\n"; for(int i=0;i<6;++i) { for(int k=0;k<p.dimX();++k) o << 0.1*(i + k*i*i%5) << " "; for(int k=0;k<dy;++k) o << 1 + i*k + i << " "; o << "\n"; } } ptr<data> d = plugins_manager::load_data(f, "data_rbf", arguments::create_arguments("")); unlink(f.c_str()); return d; }
static void scen_convert(mc::Ctx& c) {
  int n = c.pick(c.thorough ? 8 : 6, "rows"), T = 2 + c.pick(2, "threads"), kind = c.pick(6, "source"), below = c.pick(3, "below"); std::string w = std::to_string(n) + " rows " + std::to_string(T) + " threads source " + std::to_string(kind) + " below " + std::to_string(below); c.tag(w);
  ptr<data> in = source(kind, 3); if(!c.check((bool)in, "no source", w)) return; parameters po(6, 3, params::CARTESIAN, params::RGB_COLOR); ptr<table> a(new table(po, n)), b(new table(po, n));
  for(int i=0;i<n;++i) { double t = 0.2 + 0.2*i, s = below == 1 || (below == 2 && i % 2) ? -1 : 1; double v[9] = { sin(t), 0, s*cos(t), -sin(0.3*t), 0, cos(0.3*t), 7, 7, 7 }; for(int k=0;k<9;++k) a->r[i*9+k] = b->r[i*9+k] = v[k]; }
  sched::G.want = 1; interpolate(in, a); sched::G.want = T; sched::begin(c, 4, true); interpolate(in, b); sched::end(); for(size_t k=0;k<a->r.size();++k) { c.outcome(b->r[k]); c.check(same(a->r[k], b->r[k]), "row", w + ": row " + std::to_string(k/9)); if(k%9 < 6 || below == 1) continue; }
  for(int i=0;i<n;++i) if(kind == 0) { vec cart(6), x(2); for(int k=0;k<6;++k) cart[k] = a->r[i*9+k]; bool low = cart[2] < 0; if(!low) { params::convert(&cart[0], params::CARTESIAN, params::RUSIN_TH_TD, &x[0]); vec y = in->value(x); for(int k=0;k<3;++k) c.check(same(y[k], b->r[i*9+6+k]), "value", w); } else for(int k=0;k<3;++k) c.check(b->r[i*9+6+k] == 0, "below", w); } }
// the output is a measurement format of fixed size
static void scen_export(mc::Ctx& c) { int kind = c.pick(2, "source"), T = 2 + c.pick(2, "threads"); std::string w = std::to_string(T) + " threads source " + std::to_string(kind); c.tag(w); ptr<data> in = source(kind, 3); if(!c.check((bool)in, "no source", w)) return; ptr<data> o[2]; for(int r=0;r<2;++r) { o[r] = plugins_manager::get_data("data_utia", 0, parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments::create_arguments("")); sched::G.want = r ? T : 1; if(r) sched::begin(c, 1, true); interpolate(in, o[r]); if(r) sched::end(); }
  for(int i=0;i<o[1]->size();++i) { vec a = o[1]->get(i); if(!o[0]) break; vec b = o[0]->get(i); for(int k=0;k<7;++k) if(!same(a[k], b[k])) { c.fail("row", w + ": row " + std::to_string(i)); return; } } c.outcome(T); }
MC_MAIN({"export", scen_export, 2, 120}, {"fitter", scen_fitter, 2, 120}, {"missing", scen_missing, 2, 60}, {"convert", scen_convert, 4, 60})
