// P21: nonlinear fitters: every combination of fitter, model, generator, data disturbance and option over small alphabets.
#include "models.h"
#include "core/fitter.h"
#include "core/rational_function.h"
using namespace mdl;
struct Fit { const char *plugin, *opt; double exact; bool bounded; };   // relative error reached on exact data started near the answer
static const std::vector<Fit>& fits() { static const std::vector<Fit> F{
  { "nonlinear_fitter_eigen", "", 1e-6, false }, { "nonlinear_fitter_ceres", "", 1e-5, false }, { "nonlinear_fitter_ceres", "--ceres-factorization normal-cholesky", 1e-5, false }, { "nonlinear_fitter_ceres", "--log-fit", 1e-5, false },
  { "nonlinear_fitter_eigen", "--fit-with-cosine", 1e-6, false }, { "nonlinear_fitter_nlopt", "", 2e-2, true },
  { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-sqp --nlop-relative-function-tolerance 1e-8", 2e-2, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-mma --nlop-max-num-iterations 400", 1, true },
  { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-BOBYQA --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-COBYLA --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-NEWUOA --nlop-max-num-iterations 400", 1, true },
  { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-PRAXIS --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-Nelder-Mead --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer local-spblx --nlop-max-num-iterations 400", 1, true },
  { "nonlinear_fitter_nlopt", "--nlopt-optimizer global-crs --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer global-isres --nlop-max-num-iterations 400", 1, true }, { "nonlinear_fitter_nlopt", "--nlopt-optimizer global-stogo --nlop-max-num-iterations 400", 1, true } }; return F; }
static const int NMODEL = 7;                                                             // the first ones are gradient based
static vec coords(int in, const Pair& p) { auto co = geo::from(in, p); vec x(geo::DIMS[in]); for(int k=0;k<x.size();++k) x[k] = co[k].v; return x; }
static std::vector<Pair> pairs(int set) { std::vector<Pair> r; for(int i=0;i<6;++i) for(int j=0;j<5;++j) { Pair p; p.v = geo::sph(0.1 + (set ? 0.2 : 0.22)*i, 0.3 + 0.9*j); p.l = geo::sph(1.2 - 0.21*j, 2.9 - 0.35*i + 0.2*j + set); r.push_back(p); } return r; }
static int inputOf(const function& f) { for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == f.parametrization().input_parametrization()) return k; return -1; }
// the samples as the fitters are meant to see them: the point in the function's coordinates, the cosine of the light, the values
struct Sample { vec x; double cos; vec y; };
typedef std::vector<Sample> Samples;
static double residual(double fv, double y, double cos, bool log) { return log ? std::log(1 + y) - std::log(1 + fv) : y - cos*fv; }
static double error(const nonlinear_function& f, const Samples& S, bool log) { double e = 0; for(auto& s : S) { vec v = f.value(s.x); for(int k=0;k<v.size();++k) { double r = residual(v[k], s.y[k], s.cos, log); e += r*r; } } return e; }
// reference minimiser: damped Gauss-Newton with numerical derivatives, inside the box, from p
static double refine(nonlinear_function& f, const Samples& S, bool log, vec p, vec* best = 0) {
  vec lo = f.getParametersMin(), hi = f.getParametersMax(); int n = p.size(), ny = S[0].y.size(), m = S.size()*ny; double lam = 1e-4; f.setParameters(p); double e = error(f, S, log);
  auto res = [&](const vec& q) { f.setParameters(q); vec r(m); int k = 0; for(auto& s : S) { vec v = f.value(s.x); for(int i=0;i<ny;++i) r[k++] = residual(v[i], s.y[i], s.cos, log); } return r; };
  for(int it=0;it<60;++it) { vec r = res(p); Eigen::MatrixXd J(m, n); for(int j=0;j<n;++j) { double h = 1e-6*std::max(std::fabs(p[j]), 1e-3); vec a = p, b = p; a[j] = std::min(hi[j], p[j] + h); b[j] = std::max(lo[j], p[j] - h); J.col(j) = (res(a) - res(b))/(a[j] - b[j]); }
    Eigen::MatrixXd A = J.transpose()*J; vec g = J.transpose()*r; bool moved = false; for(int t=0;t<12 && !moved;++t) { Eigen::MatrixXd B = A; for(int j=0;j<n;++j) B(j,j) += lam*A(j,j) + 1e-14; vec q = p - vec(B.ldlt().solve(g)); for(int j=0;j<n;++j) q[j] = std::min(hi[j], std::max(lo[j], q[j])); f.setParameters(q); double e1 = error(f, S, log); if(e1 < e) { moved = e - e1 > 1e-12*e; p = q; e = e1; lam = std::max(1e-12, lam*0.1); break; } lam *= 10; } if(!moved) break; }
  f.setParameters(p); if(best) *best = p; return e; }
static bool sane(mc::Ctx& c, const nonlinear_function& f, const std::string& w) { vec q = f.parameters(), lo = f.getParametersMin(), hi = f.getParametersMax(); bool ok = true; for(int k=0;k<q.size();++k) { ok &= c.check(std::isfinite(q[k]), "parameters not finite", w + " " + mc::vstr(q)); ok &= c.check(q[k] >= lo[k] && q[k] <= hi[k], "parameters out of bounds", w + " " + mc::vstr(q)); } return ok; }
static bool run(const char* plugin, const ptr<data>& d, NF f, const arguments& a, std::string& ex) { ptr<fitter> t = plugins_manager::get_fitter(plugin); t->set_parameters(a); ptr<function> ff = f; ex.clear(); try { return t->fit_data(d, ff, a); } catch(std::exception& e) { ex = e.what(); return false; } }
static ptr<data> dataset(int in, int ny, const std::vector<vec>& rows) { ptr<data> d(new vertical_segment(parameters(geo::DIMS[in], ny, geo::ALL[in], params::INV_STERADIAN), (unsigned)rows.size())); for(size_t s=0;s<rows.size();++s) d->set(s, rows[s]); return d; }

static void scen_models(mc::Ctx& c) {
  const Fit& F = fits()[c.pick((int)fits().size() - 3, "fitter")]; bool gradient = &F - &fits()[0] < NMODEL; int mi = c.pick((int)models().size(), "model"); const Model& m = models()[mi]; std::string opt = F.opt; bool log = opt == "--log-fit", cosine = opt == "--fit-with-cosine";
  int ny = c.flag("channels") ? 3 : 1; if(ny == 3 && !gradient && !c.thorough) c.prune(); int in = input(m, m.in == ANY1 ? (c.thorough ? c.pick(inputs(m), "input") : 0) : 0);
  static const int OTHER[] = { CART, 20, 19 }; int din = in == CART ? OTHER[c.pick(c.thorough ? 3 : 2, "data input")] : (c.flag("own coordinates") ? in : 20); if(cosine && din == in && in != CART) c.prune();
  int mode = c.pick(3, "mode"); c.tag(std::string(F.plugin) + " " + F.opt + " " + m.name);
  std::string boot = std::string(m.boot) + " " + F.opt + (m.in == ANY1 ? std::string(" --param ") + geo::NAMES[in] : ""); arguments args = arguments::create_arguments(boot.c_str());
  NF st = make(m, ny, in), gen = make(m, ny, in), f = make(m, ny, in); if(!c.check(st && gen && f, "missing model", m.name)) return; in = inputOf(*f);
  std::vector<Pair> G = pairs(c.thorough ? c.pick(2, "points") : 0); bool lobe = !strncmp(m.name, "lafortune", 9); if(lobe) { Pair z; z.v = geo::sph(0.2, 1); z.l = geo::sph(M_PI - 0.1, 2); G.push_back(z); }   // its diffuse part is the smallest value, so one sample sees no lobe
  int n = G.size(), nx = geo::DIMS[din]; std::vector<vec> rows; for(auto& p : G) { vec x = coords(din, p), r = vec::Zero(nx + ny); r.head(nx) = x; rows.push_back(r); }
  for(auto& r : rows) for(int k=0;k<ny;++k) r[nx+k] = lobe ? 0 : 0.5;   // the start of a Lafortune lobe has the smallest value as its diffuse part
  try { st->bootstrap(dataset(din, ny, rows), args); } catch(std::exception&) { c.trivial = true; return; }
  vec q = st->parameters(), lo = st->getParametersMin(), hi = st->getParametersMax(); int np = q.size(); bool zero = true; for(int k=0;k<np;++k) zero &= q[k] == 0; std::vector<int> seen;
  // near the start: every parameter 8% up or down (all combinations of one channel up to four parameters)
  int bits = zero ? 0 : m.np*m.lobes + m.extra; unsigned g = bits == 0 ? 0 : bits <= 4 ? c.pick(1 << bits, "generator") : c.pick(4, "generator")*37; for(int k=0;k<np;++k) { double s = (g >> (k % std::max(1, bits))) & 1 ? 1.08 : 0.92; if(ny == 3) s += 0.01*(k*3/np); double v = q[k] == 0 ? (lobe ? (((g >> (k % bits)) & 1) ? 0.05 : -0.04) : 0.0) : q[k]*s; if(v > hi[k]) v = q[k]*(2 - s); q[k] = std::min(hi[k], std::max(lo[k], v)); }
  gen->setParameters(q); bool finite = true; Samples S; static const double WILD[] = { 0.0, 3.0, 0.25, 1.0, 40.0, 0.0, 0.7 }; int shift = mode == 2 ? c.pick(c.thorough ? 7 : 3, "values") : 0;
  for(int s=0;s<n;++s) { Sample a; a.x.resize(f->parametrization().dimX()); params::convert(&rows[s][0], geo::ALL[din], f->parametrization().input_parametrization(), &a.x[0]); double cart[6]; a.cos = 1; if(cosine) { params::convert(&rows[s][0], geo::ALL[din], params::CARTESIAN, cart); a.cos = cart[5]; } vec v = gen->value(a.x); for(int k=0;k<ny;++k) { double y = a.cos*v[k]; if(mode == 1) y += ((s*7 + k) % 5 - 2)*0.01*(std::fabs(y) + 0.01); if(mode == 2) y = WILD[(s*3 + k + shift) % 7]; rows[s][nx+k] = y; finite &= std::isfinite(y); } a.y = rows[s].tail(ny); S.push_back(a); }
  if(!finite) { c.trivial = true; return; }
  ptr<data> d = dataset(din, ny, rows); st->bootstrap(d, args); double e0 = error(*st, S, log), norm = 0; for(auto& s : S) for(int k=0;k<ny;++k) norm += log ? std::pow(std::log(1 + s.y[k]), 2) : s.y[k]*s.y[k];
  std::string ex; bool ok = run(F.plugin, d, f, args, ex); std::string w = std::string(F.plugin) + " " + boot + " on " + m.name + " from " + mc::vstr(st->parameters()) + " to " + mc::vstr(q) + (mode == 0 ? " exact" : mode == 1 ? " disturbed" : " unrelated") + " in " + geo::NAMES[din]; if(!c.check(ex.empty(), "exception", w + ": " + ex)) return;
  if(!f->parameters().size()) return; double e1 = error(*f, S, log); c.outcome((double)(float)e1); c.state(mc::hstr(w)); bool near = !zero && gradient;
  bool two = m.lobes > 1, flat = !strcmp(m.name, "yoo");   // the second parameter of yoo hardly matters where it starts
   if(near && (mode == 0 || (mode == 1 && F.plugin[17] == 'c'))) c.check(ok, "near start not fitted", w + " error " + mc::dstr(e1)); if(!ok) { c.note("refused"); return; } sane(c, *f, w + " found"); c.check(e1 <= e0*(1 + 1e-9) + 1e-14*norm, "worse than the start", w + ": error " + mc::dstr(e1) + " start " + mc::dstr(e0) + " found " + mc::vstr(f->parameters()));
  if(near && mode == 0) c.check(std::sqrt(e1) <= (two ? 0.03 : F.exact)*std::sqrt(norm), "exact data not recovered", w + ": relative error " + mc::dstr(std::sqrt(e1/norm)) + " found " + mc::vstr(f->parameters()));
  if(near && mode == 1 && !two && !flat) { gen->bootstrap(d, args); gen->setParameters(q); double es = refine(*gen, S, log, q); c.check(e1 <= es*(two ? 2 : F.bounded ? 1.5 : 1.01) + 1e-12*norm, "not a minimiser", w + ": error " + mc::dstr(e1) + " reached " + mc::dstr(es) + " by " + mc::vstr(gen->parameters()) + " not " + mc::vstr(f->parameters())); }
}

// a function of the harness's own: values are linear in the parameters, so the least squares answer is known in closed form
struct Linear : public nonlinear_function {
  vec p, lo, hi; mutable long calls; double wall;                         // wall: values are not numbers beyond it
  Linear(int n, int ny, double l, double h) : nonlinear_function(alta::parameters(1, ny, params::COS_TH, params::INV_STERADIAN)), p(vec::Constant(n, 0.5)), lo(vec::Constant(n, l)), hi(vec::Constant(n, h)), calls(0), wall(1e300) {}
  static double phi(int j, int i, double x) { return j == 0 ? 1 + i : j == 1 ? x - 0.4 : x*x + 0.1*i; }
  vec value(const vec& x) const { ++calls; int ny = _parameters.dimY(); vec r = vec::Zero(ny); for(int i=0;i<ny;++i) for(int j=0;j<p.size();++j) r[i] += p[j]*phi(j, i, x[0]); if(p[0] > wall) r[0] = std::nan(""); return r; }
  void bootstrap(const ptr<data>, const arguments& a) { if(a.is_vec("bootstrap")) p = a.get_vec("bootstrap", p.size()); }
  int nbParameters() const { return p.size(); } vec parameters() const { return p; } void setParameters(const vec& q) { p = q; } vec getParametersMin() const { return lo; } vec getParametersMax() const { return hi; }
  vec parametersJacobian(const vec& x) const { int ny = _parameters.dimY(), n = p.size(); vec r(n*ny); for(int i=0;i<ny;++i) for(int j=0;j<n;++j) r[i*n+j] = phi(j, i, x[0]); return r; }
  void save_call(std::ostream&, const arguments&) const {} void save_body(std::ostream&, const arguments&) const {}
};
static const double X[4] = { 0.1, 0.35, 0.6, 0.95 };
// the minimiser in a box by trying every set of parameters held at a bound
static double boxed(const Linear& f, const Eigen::MatrixXd& A, const vec& y, vec& best) { int n = A.cols(); double e = 1e300; int all = 1; for(int k=0;k<n;++k) all *= 3; for(int s=0;s<all;++s) { vec q(n); std::vector<int> open; int t = s; for(int k=0;k<n;++k, t /= 3) { q[k] = 0; if(t % 3 == 0) open.push_back(k); else q[k] = t % 3 == 1 ? f.lo[k] : f.hi[k]; } for(int k=0;k<n;++k) if(std::fabs(q[k]) > 1e100) q[k] = std::nan(""); bool ok = true; for(int k=0;k<n;++k) ok &= std::isfinite(q[k]); if(!ok) continue;
    if(open.size()) { Eigen::MatrixXd B(A.rows(), open.size()); for(size_t k=0;k<open.size();++k) B.col(k) = A.col(open[k]); vec z = B.colPivHouseholderQr().solve(y - A*q); for(size_t k=0;k<open.size();++k) { q[open[k]] = z[k]; ok &= z[k] >= f.lo[open[k]] - 1e-12 && z[k] <= f.hi[open[k]] + 1e-12; } } if(!ok) continue; double r = (y - A*q).squaredNorm(); if(r < e) { e = r; best = q; } } return e; }
static void scen_linear(mc::Ctx& c) {
  const Fit& F = fits()[c.pick((int)fits().size(), "fitter")]; bool global = &F - &fits()[0] >= (int)fits().size() - 3, gradient = &F - &fits()[0] < NMODEL; std::string opt = F.opt; if(opt == "--log-fit" || opt == "--fit-with-cosine") c.prune(); c.tag(std::string(F.plugin) + " " + F.opt);
  int np = 1 + c.pick(3, "parameters"), ny = 1 + c.pick(2, "channels"); bool box = c.flag("box"); if(global && !box) c.prune(); static const std::vector<double> Y{ -1, 0, 2 }; vec y(4*ny); std::vector<vec> rows; for(int s=0;s<4;++s) { vec r(1 + ny); r[0] = X[s]; double v = c.of(Y, "value"); for(int i=0;i<ny;++i) r[1+i] = y[s*ny+i] = i ? 1 - 0.5*v : v; rows.push_back(r); }
  int start = c.pick(3, "start"); static const double ST[] = { 0.5, -0.9, 0.0 }; std::string b = " --bootstrap ["; for(int k=0;k<np;++k) b += (k ? "," : "") + mc::dstr(ST[(start + k) % 3]); b += "]"; arguments args = arguments::create_arguments((opt + b).c_str());
  Linear* f = new Linear(np, ny, box ? -1 : -1e300, box ? 1 : 1e300); NF nf(f); if(!box) { Linear base(np, ny, 0, 0); f->lo = base.nonlinear_function::getParametersMin(); f->hi = base.nonlinear_function::getParametersMax(); } Eigen::MatrixXd A(4*ny, np); for(int s=0;s<4;++s) for(int i=0;i<ny;++i) for(int j=0;j<np;++j) A(s*ny+i, j) = Linear::phi(j, i, X[s]);
  vec p0(np); for(int k=0;k<np;++k) p0[k] = ST[(start + k) % 3]; double e0 = (y - A*p0).squaredNorm(); vec want; double es = boxed(*f, A, y, want); bool inside = true; for(int k=0;k<np;++k) inside &= !box || std::fabs(want[k]) < 1 - 1e-9;
  std::string ex; ptr<data> d = dataset(COSTH, ny, rows); bool ok = run(F.plugin, d, nf, args, ex); std::string w = std::string(F.plugin) + " " + args.get_cmd() + " values " + mc::vstr(y) + (box ? " in a box" : ""); if(!c.check(ex.empty(), "exception", w + ": " + ex)) return; c.state(mc::hstr(w)); if(gradient && inside) c.check(ok, "linear problem not solved", w); if(!ok) { c.note("refused"); return; }
  sane(c, *f, w); double e1 = (y - A*f->p).squaredNorm(); c.outcome((double)(float)e1); c.check(e1 <= e0*(1 + 1e-9) + 1e-14, "worse than the start", w + ": " + mc::dstr(e1) + " start " + mc::dstr(e0)); c.check(e1 >= es - 1e-9, "below the minimum", w); if((gradient && F.bounded) || (!F.bounded && inside)) c.check(e1 - es <= (F.bounded ? 0.01 : 1e-6)*(y.squaredNorm() + 1e-6), "not the minimiser", w + ": found " + mc::vstr(f->p) + " with error " + mc::dstr(e1) + " not " + mc::vstr(want) + " with " + mc::dstr(es)); 
}

// options of the fitters, and whether one call leaks into the next
static void scen_options(mc::Ctx& c) {
  int np = 1 + c.pick(3, "parameters"); vec y(4); std::vector<vec> rows; for(int s=0;s<4;++s) { vec r(2); r[0] = X[s]; r[1] = y[s] = s*s - 1 + 0.3*(s % 2); rows.push_back(r); } ptr<data> d = dataset(COSTH, 1, rows); Eigen::MatrixXd A(4, np); for(int s=0;s<4;++s) for(int j=0;j<np;++j) A(s, j) = Linear::phi(j, 0, X[s]); vec want = A.colPivHouseholderQr().solve(y), p0 = vec::Constant(np, 0.5);
  static const std::vector<const char*> O{ "", "--ceres-max-num-iterations 0", "--ceres-gradient-tolerance 1e10", "--ceres-parameter-tolerance 1e10", "--ceres-function-tolerance 1e10", "--ceres-max-num-iterations 3 --ceres-debug", "--nlop-max-num-iterations 1", "--nlop-max-num-iterations 7", "--nlop-relative-function-tolerance 1e10", "--nlop-abs-function-tolerance 1e10", "--nlopt-optimizer unknown", "--ceres-factorization normal-cholesky" };
  static const std::vector<const char*> P{ "nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt" }; std::string plugin = c.of(P, "fitter"), w = plugin; ptr<fitter> t = plugins_manager::get_fitter(plugin); int steps = c.thorough ? 3 : 2; c.tag(plugin);
  for(int k=0;k<steps;++k) { std::string o = c.of(O, "options"); if(o.find("ceres") != std::string::npos ? plugin[17] != 'c' : o.find("nlop") != std::string::npos && plugin[17] != 'n') c.prune(); w += " | " + o; arguments args = arguments::create_arguments(o.c_str()); Linear* f = new Linear(np, 1, -1e300, 1e300); { Linear base(1, 1, 0, 0); f->lo = vec::Constant(np, base.nonlinear_function::getParametersMin()[0]); f->hi = vec::Constant(np, base.nonlinear_function::getParametersMax()[0]); } ptr<function> nf(f); t->set_parameters(args); bool ok = t->fit_data(d, nf, args); c.state(mc::hstr(w)); c.outcome(std::to_string(ok) + " " + std::to_string(f->calls/4));
    if(!c.check(ok, "fit refused", w)) return; double e = (y - A*f->p).squaredNorm(), e0 = (y - A*p0).squaredNorm(), es = (y - A*want).squaredNorm(); bool stays = o == "--ceres-max-num-iterations 0" || o == "--ceres-gradient-tolerance 1e10" || o == "--nlop-max-num-iterations 1", early = o.find("1e10") != std::string::npos || o.find("iterations 7") != std::string::npos || o.find("iterations 3") != std::string::npos;
    if(stays) c.check((f->p - p0).norm() == 0, "did not stop at the start", w + " " + mc::vstr(f->p)); else if(early) c.check(e <= e0*(1 + 1e-9), "worse than the start", w); else c.check(e - es < 1e-4*y.squaredNorm(), "not the minimiser", w + " " + mc::vstr(f->p) + " not " + mc::vstr(want));
    long n = f->calls; if(o == "--nlop-max-num-iterations 1") c.check(n <= 12, "too many evaluations", w + " " + std::to_string(n)); if(o == "--nlop-max-num-iterations 7") c.check(n <= 8*8, "too many evaluations", w + " " + std::to_string(n)); if(o == "--ceres-parameter-tolerance 1e10" || o == "--ceres-function-tolerance 1e10") c.check(n <= 4*4, "does not end after a step", w + " " + std::to_string(n)); }
}
// a narrow curved valley: every fitter needs many steps there, so limits on the steps show
struct Valley : public Linear { mutable long jacs; double steep; Valley(double s) : Linear(2, 1, -1e300, 1e300), jacs(0), steep(s) { Linear base(1, 1, 0, 0); lo = vec::Constant(2, base.nonlinear_function::getParametersMin()[0]); hi = vec::Constant(2, base.nonlinear_function::getParametersMax()[0]); }
  vec value(const vec& x) const { ++calls; vec r(1); r[0] = x[0] < 0.5 ? steep*(p[1] - p[0]*p[0]) : p[0]; return r; }
  vec parametersJacobian(const vec& x) const { ++jacs; vec r(2); if(x[0] < 0.5) r << -2*steep*p[0], steep; else r << 1, 0; return r; } };
static void scen_stopping(mc::Ctx& c) {
  static const std::vector<double> ST{ 10, 3, 30 }, A0{ -1.2, 0, 2 }, A1{ 1, -1.5 }; double steep = c.of(ST, "steepness"), a0 = c.of(A0, "start 0"), a1 = c.of(A1, "start 1"); static const std::vector<int> K{ 0, 1, 2, 3, 5, 8, 12, 20 };
  static const std::vector<const char*> P{ "nonlinear_fitter_nlopt", "nonlinear_fitter_nlopt --nlopt-optimizer local-mma", "nonlinear_fitter_nlopt --nlopt-optimizer local-BOBYQA", "nonlinear_fitter_nlopt --nlopt-optimizer local-COBYLA", "nonlinear_fitter_nlopt --nlopt-optimizer local-Nelder-Mead", "nonlinear_fitter_nlopt --nlopt-optimizer local-spblx", "nonlinear_fitter_nlopt --nlopt-optimizer local-sqp", "nonlinear_fitter_ceres", "nonlinear_fitter_eigen" }; int pi = c.pick((int)P.size(), "fitter"); std::string w = P[pi], plugin = w.substr(0, w.find(' ')), opt = w.size() > plugin.size() ? w.substr(plugin.size() + 1) : ""; int kind = plugin[17] == 'n' ? 1 : plugin[17] == 'c' ? 2 : 0; c.tag(w);
  int k = 0, how = kind ? c.pick(3, "limit") : 0; if(how == 1) { k = c.of(K, "steps"); if(kind == 1 && k == 0) c.prune(); opt += (kind == 1 ? " --nlop-max-num-iterations " : " --ceres-max-num-iterations ") + std::to_string(k); } if(how == 2) { static const std::vector<const char*> T1{ " --nlop-abs-function-tolerance 1e10", " --nlop-relative-function-tolerance 1e10" }, T2{ " --ceres-function-tolerance 1e10", " --ceres-gradient-tolerance 1e10", " --ceres-parameter-tolerance 1e10" }; k = kind == 1 ? c.pick(2, "tolerance") : c.pick(3, "tolerance"); opt += kind == 1 ? T1[k] : T2[k]; }
  std::vector<vec> rows; for(int s=0;s<2;++s) { vec r(2); r << (s ? 0.9 : 0.1), (s ? 1 : 0); rows.push_back(r); } opt += " --bootstrap [" + mc::dstr(a0) + "," + mc::dstr(a1) + "]"; Valley* v = new Valley(steep); NF f(v); auto err = [&](const vec& q) { return std::pow(steep*(q[1] - q[0]*q[0]), 2) + std::pow(q[0] - 1, 2); }; vec p0(2); p0 << a0, a1; std::string ex; w = plugin + " " + opt + " steepness " + mc::dstr(steep);
  bool ok = run(plugin.c_str(), dataset(COSTH, 1, rows), f, arguments::create_arguments(opt.c_str()), ex); long n = (v->calls + 1)/2; c.state(w); c.outcome((double)n); c.note(w.substr(0, 60)); if(!c.check(ok && ex.empty(), "refused", w + ex)) return; double e = err(v->p), e0 = err(p0); c.check(e <= e0*(1 + 1e-9), "worse than the start", w); 
  bool gradient = kind != 1 || opt.find("local-") == std::string::npos || opt.find("local-sqp") != std::string::npos; if(how == 0 && gradient) c.check(e <= 1e-2*e0, "valley not followed", w + " error " + mc::dstr(e) + " start " + mc::dstr(e0));
  if(how == 1 && kind == 1) c.check(n <= (opt.find("local-") == std::string::npos || opt.find("sqp") != std::string::npos || opt.find("mma") != std::string::npos ? 2 : 1)*k + 2, "too many evaluations", w + ": " + std::to_string(n)); if(how == 1 && kind == 2) { c.check(v->jacs/2 <= k + 1 && n <= 4*(k + 1), "too many evaluations", w + ": " + std::to_string(n)); if(k == 0) c.check(v->p == p0, "moved", w); } if(how == 2) c.check(n <= (kind == 1 ? gradient ? 24 : 36 : 10), "does not end early", w + ": " + std::to_string(n)); }
// several channels of different sizes, with the distance of the logarithms
static void scen_log(mc::Ctx& c) {
  static const std::vector<double> Y{ 0.05, 1, 6 }; int np = 1 + c.pick(3, "parameters"), ny = 1 + c.pick(3, "channels"); c.tag("log"); Samples S; std::vector<vec> rows; for(int s=0;s<4;++s) { double v = c.of(Y, "value"); vec r(1 + ny); r[0] = X[s]; for(int i=0;i<ny;++i) r[1+i] = i == 0 ? v : i == 1 ? 9 - v : 0.3 + 0.5*v; rows.push_back(r); Sample a; a.x = r.head(1); a.cos = 1; a.y = r.tail(ny); S.push_back(a); }
  Linear* f = new Linear(np, ny, -1e300, 1e300); NF nf(f); Linear base(1, 1, 0, 0); f->lo = vec::Constant(np, base.nonlinear_function::getParametersMin()[0]); f->hi = vec::Constant(np, base.nonlinear_function::getParametersMax()[0]); Linear g(*f); std::string opt = "--log-fit --ceres-max-num-iterations 200 --ceres-function-tolerance 1e-12", b = " --bootstrap ["; vec p0(np); for(int k=0;k<np;++k) { p0[k] = k ? 0.1 : 1; b += (k ? "," : "") + mc::dstr(p0[k]); } std::string ex, w = opt; for(auto& s : S) w += " " + mc::vstr(s.y); bool ok = run("nonlinear_fitter_ceres", dataset(COSTH, ny, rows), nf, arguments::create_arguments((opt + b + "]").c_str()), ex); c.state(mc::hstr(w + b)); if(!c.check(ok && ex.empty(), "refused", w + ex)) return;
  double e = error(*f, S, true), e0, es; g.p = p0; e0 = error(g, S, true); es = refine(g, S, true, p0); c.outcome((double)(float)e); c.check(e <= e0*(1 + 1e-9), "worse than the start", w); c.check(e <= es*1.0001 + 1e-7, "not the minimiser", w + ": error " + mc::dstr(e) + " reached " + mc::dstr(es) + " found " + mc::vstr(f->p) + " not " + mc::vstr(g.p));  }
// what cannot be fitted is refused, and never crashes
static void scen_refusals(mc::Ctx& c) {
  static const std::vector<const char*> P{ "nonlinear_fitter_eigen", "nonlinear_fitter_ceres", "nonlinear_fitter_nlopt" }; std::string plugin = c.of(P, "fitter"); int what = c.pick(8, "what"); std::string w = plugin + " ", ex; arguments none; c.tag(plugin + " " + std::to_string(what));
  if(what == 0) { ptr<rational_function> r(new rational_function(1, 1)); r->setParametrization(parameters(1, 1, params::COS_TH, params::INV_STERADIAN)); ptr<function> f = r; ptr<fitter> t = plugins_manager::get_fitter(plugin); vec row(2); row << 0.5, 1; bool ok = true; try { ok = t->fit_data(dataset(COSTH, 1, std::vector<vec>(3, row)), f, none); } catch(std::exception&) { ok = false; } c.check(!ok, "a rational function was fitted", w); return; }
  if(what == 1) { int fy = 1 + c.pick(3, "function"), dy = 1 + c.pick(3, "data"); if(fy == dy) c.prune(); const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, 0); NF f = make(m, fy, in); in = inputOf(*f); std::vector<vec> rows; for(auto& p : pairs(0)) { vec x = coords(in, p), r = vec::Constant(x.size() + dy, 0.5); r.head(x.size()) = x; rows.push_back(r); } bool ok = run(plugin.c_str(), dataset(in, dy, rows), f, none, ex); c.check(!ok, "data of another output dimension was fitted", w + m.name); return; }
  if(what == 2) { const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, 0), n = c.pick(4, "samples"); NF f = make(m, 1, in); in = inputOf(*f); std::vector<vec> rows; auto G = pairs(0); for(int k=0;k<n;++k) { vec x = coords(in, G[7*k]), r(x.size() + 1); r.head(x.size()) = x; r[x.size()] = 0.3 + 0.2*k; rows.push_back(r); } arguments a = arguments::create_arguments((std::string(m.boot) + " --nlop-max-num-iterations 300").c_str()); bool ok = run(plugin.c_str(), dataset(in, 1, rows), f, a, ex); if(ok) sane(c, *f, w + m.name + " on " + std::to_string(n)); c.outcome(std::to_string(ok)); c.state(mc::hstr(w + m.name + std::to_string(n))); return; }
  // values or points that are not numbers
  if(what == 3) { const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, 0); NF f = make(m, 1, in); in = inputOf(*f); static const std::vector<double> B{ std::nan(""), 1.0/0.0, -1.0/0.0, 1e300, -1e300 }; double b = c.of(B, "value"); bool all = c.flag("all"); std::vector<vec> rows; for(auto& p : pairs(0)) { vec x = coords(in, p), r(x.size() + 1); r.head(x.size()) = x; r[x.size()] = all || rows.size() == 4 ? b : 0.4; rows.push_back(r); } arguments a = arguments::create_arguments((std::string(m.boot) + " --nlop-max-num-iterations 300").c_str()); bool ok = run(plugin.c_str(), dataset(in, 1, rows), f, a, ex); if(ok) sane(c, *f, w + m.name + " with " + mc::dstr(b)); c.outcome(std::to_string(ok)); c.state(mc::hstr(w + m.name + mc::dstr(b))); return; }
  // starts outside the bounds, with other sizes, or not numbers, and a wall beyond which values are not numbers
  if(what == 4) { static const std::vector<const char*> S{ "[2,0]", "[-2,-2]", "[0.5]", "[0,0,0]", "[nan,0]", "[1,1]" }; std::string s = c.of(S, "start"); Linear* f = new Linear(2, 1, -1, 1); NF nf(f); std::vector<vec> rows; double k = c.flag("data") ? 1 : -1; for(int i=0;i<4;++i) { vec r(2); r << X[i], k*(0.3 + X[i]*0.4); rows.push_back(r); } bool ok = run(plugin.c_str(), dataset(COSTH, 1, rows), nf, arguments::create_arguments(("--bootstrap " + s).c_str()), ex); if(ok) sane(c, *f, w + s); c.outcome(std::to_string(ok)); c.state(mc::hstr(w + s)); if(s == "[1,1]") c.check(ok || k < 0, "start at the bounds", w); return; }
  if(what == 5) { static const std::vector<double> W{ 0.2, 0.45, 0.7, 2 }; double wall = c.of(W, "wall"), k = c.flag("data") ? 1 : 3; const Fit& F = fits()[c.pick((int)fits().size() - 3, "optimizer")]; if(plugin != F.plugin || strstr(F.opt, "log") || strstr(F.opt, "cosine")) c.prune(); Linear* f = new Linear(2, 1, -10, 10); f->wall = wall; f->p = vec::Constant(2, 0.3); NF nf(f); std::vector<vec> rows; for(int i=0;i<4;++i) { vec r(2); r << X[i], k*(0.4 + X[i]*0.4); rows.push_back(r); } bool ok = run(plugin.c_str(), dataset(COSTH, 1, rows), nf, arguments::create_arguments(F.opt), ex); std::string z = w + F.opt + " wall " + mc::dstr(wall); c.outcome(std::to_string(ok)); c.state(mc::hstr(z)); if(ok) { sane(c, *f, z); c.check(wall < 0.3 || f->p[0] <= wall, "values are not numbers at the parameters found", z + " " + mc::vstr(f->p)); } return; }
  // a point that cannot be brought to the coordinates of the function
  if(what == 6) { const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, 0), din = c.pick(geo::NPAR, "data input"); NF f = make(m, 1, in); std::vector<vec> rows; for(auto& p : pairs(0)) { vec x = coords(din, p), r(x.size() + 1); r.head(x.size()) = x; r[x.size()] = 0.4 + 0.1*(rows.size() % 3); rows.push_back(r); } arguments a = arguments::create_arguments((std::string(m.boot) + " --nlop-max-num-iterations 300").c_str()); bool ok = run(plugin.c_str(), dataset(din, 1, rows), f, a, ex); if(ok) sane(c, *f, w + m.name); c.outcome(std::to_string(ok)); c.state(mc::hstr(w + m.name + geo::NAMES[din])); return; }
  // no parameters
  ptr<function> f = plugins_manager::get_function(std::string("nonlinear_function_diffuse"), parameters(6, 3, params::CARTESIAN, params::RGB_COLOR)); ptr<fitter> t = plugins_manager::get_fitter(plugin); std::vector<vec> rows; double low[3] = { 1e9, 1e9, 1e9 }; for(auto& p : pairs(0)) { vec x = coords(CART, p), r(9); r.head(6) = x; for(int k=0;k<3;++k) { r[6+k] = 0.3 + 0.1*((rows.size()*5 + k) % 7); low[k] = std::min(low[k], r[6+k]); } rows.push_back(r); } bool ok = t->fit_data(dataset(CART, 3, rows), f, none); c.check(ok, "nothing to fit", w); vec v = f->value(coords(CART, pairs(0)[3])); if(plugin != "nonlinear_fitter_ceres") for(int k=0;k<3;++k) c.check(std::fabs(v[k] - low[k]) < 1e-12, "diffuse value", w + mc::vstr(v));
}
// compounds and products, with parts that must stay as they are
static void scen_combined(mc::Ctx& c) {
  const Fit& F = fits()[c.pick(NMODEL, "fitter")]; std::string opt = F.opt; bool log = opt == "--log-fit", cosine = opt == "--fit-with-cosine"; static const std::vector<int> PICK{ 0, 1, 4, 10, 11, 17, 20 }; bool prod = c.flag("product"); int ny = c.flag("channels") ? 3 : 1; c.tag(std::string(F.plugin) + " " + F.opt);
  int a = c.pick((int)PICK.size(), "first"), b = c.pick((int)PICK.size(), "second"); if(prod && b < 5) c.prune(); int fx = c.pick(4, "fixed"); bool fixed[2] = { (fx & 1) != 0, (fx & 2) != 0 }; std::string w = std::string(F.plugin) + " " + opt + (prod ? " product of " : " sum of ") + models()[PICK[a]].name + (fixed[0] ? " (fixed)" : "") + " and " + models()[PICK[b]].name + (fixed[1] ? " (fixed)" : "");
  NF p[2]; vec q[2]; for(int k=0;k<2;++k) { const Model& m = models()[PICK[k ? b : a]]; p[k] = make(m, ny, input(m, 0)); if(!c.check((bool)p[k], "missing", m.name)) return; p[k]->bootstrap(tiny(p[k]->parametrization().dimX(), ny, p[k]->parametrization().input_parametrization(), 0.5), arguments::create_arguments(m.boot)); q[k] = p[k]->parameters(); if(fixed[k]) { q[k] *= 0.9; p[k]->setParameters(q[k]); } }
  NF f; if(prod) f = NF(new product_function(p[0], p[1], fixed[0], fixed[1])); else { std::vector<NF> fs{ p[0], p[1] }; std::vector<arguments> as{ arguments::create_arguments(fixed[0] ? "--fixed" : "--free"), arguments::create_arguments(fixed[1] ? "--fixed" : "--free") }; f = NF(new compound_function(fs, as)); }
  int in = inputOf(*f); if(!c.check(in >= 0, "no parametrization", w)) return; f->bootstrap(tiny(geo::DIMS[in], ny, geo::ALL[in], 0.5), arguments::create_arguments(F.opt)); for(int k=0;k<2;++k) q[k] = p[k]->parameters(); vec p0 = f->parameters(), gen = p0; for(int k=0;k<gen.size();++k) gen[k] *= k % 2 ? 0.95 : 1.04; vec hi = f->getParametersMax(); for(int k=0;k<gen.size();++k) gen[k] = std::min(gen[k], hi[k]);
  std::vector<vec> rows; Samples S; std::vector<Pair> G = pairs(0); f->setParameters(gen); double norm = 0; for(auto& g : G) { Sample s; s.x = coords(in, g); s.cos = cosine ? g.l.z : 1; s.y = s.cos*f->value(s.x); vec r(s.x.size() + ny); r << s.x, s.y; rows.push_back(r); S.push_back(s); norm += log ? (s.y.array() + 1).log().square().sum() : s.y.squaredNorm(); } f->setParameters(p0); if(cosine && geo::DIMS[in] < 3) c.prune();
  ptr<data> d = dataset(in, ny, rows); std::string ex; bool ok = run(F.plugin, d, f, arguments::create_arguments(F.opt), ex); c.state(mc::hstr(w)); if(!c.check(ex.empty(), "exception", w + ": " + ex)) return; for(int k=0;k<2;++k) if(fixed[k]) c.check((p[k]->parameters() - q[k]).norm() == 0 || prod, "fixed part changed", w + " " + mc::vstr(p[k]->parameters()) + " was " + mc::vstr(q[k]));
  if(!ok) { c.note("refused"); return; } if(f->nbParameters()) sane(c, *f, w); f->setParameters(f->parameters()); double e1 = error(*f, S, log); c.outcome((double)(float)e1); vec now = f->parameters(); f->setParameters(p0); double e0 = error(*f, S, log); f->setParameters(now); c.check(e1 <= e0*(1 + 1e-9) + 1e-14*norm, "worse than the start", w + " " + mc::dstr(e1) + " start " + mc::dstr(e0)); bool inside = true; { vec lo = f->getParametersMin(); for(int k=0;k<gen.size();++k) inside &= gen[k] > lo[k] && p0[k] > lo[k] && gen[k] < hi[k] && p0[k] < hi[k]; } if((F.plugin[17] == 'c' && inside) || f->nbParameters() == 0) c.check(e1 <= 1e-4*norm || f->nbParameters() == 0, "not recovered", w + " " + mc::dstr(e1/norm) + " found " + mc::vstr(now) + " not " + mc::vstr(gen));
}
MC_MAIN({"models", scen_models, 4, 30}, {"linear", scen_linear, 4, 20}, {"options", scen_options, 3, 20}, {"stopping", scen_stopping, 3, 20}, {"log", scen_log, 3, 20}, {"refusals", scen_refusals, 3, 30}, {"combined", scen_combined, 4, 30})
