// Shared by P11..P15, P21, P25: the analytic models, their published formulas, and parameter alphabets.
#pragma once
#include "geom.h"
#include "core/args.h"
#include "core/function.h"
#include "core/plugins_manager.h"
#include "core/vertical_segment.h"
namespace mdl {
using namespace alta; using geo::V3; using geo::Pair;
typedef ptr<nonlinear_function> NF;
typedef std::vector<double> P;
struct Model;
typedef double (*Formula)(const Model& m, const Pair& p, const double* x, const double* q, double extra);
enum { ANY1 = -1, ANYN = -2 };                      // keeps the parametrization it is given
struct Model {
  const char *name, *plugin, *boot; int in;         // in: index of geo::NAMES, or ANY1 (first coordinate is the variable), ANYN
  int np, extra, lobes; std::vector<std::vector<double> > alpha; Formula value; double tol, jtol; bool upper;   // upper: only meant for directions above the horizon
};
static const int CART = 22, COSTH = 0;
inline double pw(double b, double e) { return std::pow(b, e); }
inline V3 unit(V3 a) { double n = geo::len(a); return n > 0 ? (1/n)*a : a; }
inline V3 halfOf(const Pair& p) { return unit(p.v + p.l); }
inline double f_blinn(const Model&, const Pair&, const double* x, const double* q, double) { return x[0] > 0 ? q[0]*pw(x[0], q[1]) : 0; }
inline double f_retroblinn(const Model&, const Pair&, const double* x, const double* q, double) { return x[0] >= 0 ? q[0]*pw(x[0], q[1]) : 0; }
inline double f_abc(const Model&, const Pair&, const double* x, const double* q, double) { double t = 1 - x[0]; return t >= 0 && t <= 1 ? q[0]/pw(1 + q[1]*t, q[2]) : 0; }
inline double beck(double d, const double* q) { if(!(d > 0)) return 0; double t2 = (1 - d*d)/(d*d); return q[0]*std::exp(-t2/(q[1]*q[1]))/(4*M_PI*q[1]*q[1]*d*d*d*d); }
inline double f_beckmann(const Model&, const Pair& p, const double*, const double* q, double) { return p.v.z*p.l.z > 0 && halfOf(p).z > 0 ? beck(halfOf(p).z, q) : 0; }
inline double f_retrobeck(const Model&, const Pair& p, const double*, const double* q, double) { bool ok; V3 b = geo::backv(p, ok); return ok ? beck(b.z, q) : -1; }
inline double f_retrobeckdot(const Model&, const Pair& p, const double*, const double* q, double) { return beck(std::max(0.0, geo::dot(p.v,p.l)), q); }
inline double f_ward(const Model&, const Pair& p, const double*, const double* q, double) { if(!(p.v.z*p.l.z > 0)) return 0; V3 h = halfOf(p); double e = (h.x*h.x/(q[1]*q[1]) + h.y*h.y/(q[2]*q[2]))/(h.z*h.z); return q[0]/(4*M_PI*q[1]*q[2]*std::sqrt(p.v.z*p.l.z))*std::exp(-e); }
inline double f_laf(const Model& m, const Pair& p, const double*, const double* q, double) { double r = 0; for(int n=0;n<m.lobes;++n) { const double* c = q + 4*n; double d = c[0]*p.v.x*p.l.x + c[1]*p.v.y*p.l.y + c[2]*p.v.z*p.l.z; if(d > 0) r += pw(d, c[3]); } return r; }
inline double sg(double d, const double* q) { return q[0]*std::exp(q[1]*(d - 1)); }
inline double f_sghalf(const Model&, const Pair& p, const double*, const double* q, double) { return sg(halfOf(p).z, q); }
inline double f_sgback(const Model&, const Pair& p, const double*, const double* q, double) { bool ok; V3 b = geo::backv(p, ok); return ok ? sg(b.z, q) : -1; }
inline double f_sgretro(const Model&, const Pair& p, const double*, const double* q, double) { return sg(geo::dot(p.v,p.l), q); }
inline double f_sgmirror(const Model&, const Pair& p, const double*, const double* q, double) { return sg(-p.v.x*p.l.x - p.v.y*p.l.y + p.v.z*p.l.z, q); }
inline double f_sgmoment(const Model&, const Pair& p, const double*, const double* q, double a) { V3 m = geo::sph(a*geo::elev(p.l), geo::azi(p.l) + M_PI); return sg(geo::dot(p.v, m), q); }
inline double f_yoo(const Model&, const Pair& p, const double*, const double* q, double) {   // Akkermans 1986, Yoo et al. 1990: 633 nm, extrapolation length 0.7 lt
  double k = 2*M_PI*geo::ang(p.v, p.l)/633*q[1], g = k > 1e-8 ? -std::expm1(-1.4*k)/k : 1.4; return q[0]*3/(16*M_PI)*(2.4 + (1 + g)/((1 + k)*(1 + k))); }
inline double f_sgd(const Model&, const Pair& p, const double*, const double* q, double) {   // Bagher, Soler, Holzschuch 2012
  double c = q[0], t0 = q[1], k = q[2], lam = q[3], pp = q[4], F0 = q[5], F1 = q[6], K = q[7], rd = q[8], rs = q[9], al = q[10], ip = 0.31830988618379;
  if(p.l.z < 0) return 0; V3 h = halfOf(p);
  auto G = [&](double cs) { double th = geo::safesqrt(1-cs*cs); th = std::atan2(th, cs); double d = th > t0 ? th - t0 : 0; return 1 + lam*(1 - std::exp(c*pw(d, k))); };
  double c2 = h.z*h.z, t2 = (1-c2)/c2, ax = al + t2/al, D = ip*std::exp(-ax)/pw(ax, pp)/(c2*c2)*K, vh = geo::dot(p.v, h);
  double F = F0 - vh*F1 + (1-F0)*pw(1-vh, 5); return ip*(rd + rs*D*G(p.l.z)*G(p.v.z)*F);
}
inline double f_schlick(const Model&, const Pair& p, const double*, const double* q, double) { double c = std::min(1.0, std::max(0.0, geo::dot(halfOf(p), p.v))); return q[0] + (1-q[0])*pw(1-c, 5); }
inline double f_nschlick(const Model&, const Pair& p, const double*, const double* q, double) { double c = std::min(1.0, std::max(0.0, geo::dot(halfOf(p), p.v))); return 1 + (1/q[0]-1)*pw(1-c, 5); }
inline double f_rschlick(const Model&, const Pair& p, const double*, const double* q, double) { bool ok; V3 b = geo::backv(p, ok); return ok ? q[0] + (1-q[0])*pw(1-geo::dot(b, p.v), 5) : -1; }
inline double f_gschlick(const Model&, const Pair& p, const double*, const double* q, double) { double u = p.l.z, v = p.v.z, w = q[0]; return u/(u + w*(1-u)) * v/(v + w*(1-v)); }
inline double f_smith(const Model&, const Pair& p, const double*, const double* q, double) { double s = std::hypot(p.l.x, p.l.y); if(s == 0) return 1; double r = p.l.z/s/q[0]; if(r == 0) return 0; double A = std::exp(-0.5*r*r)/(r*std::sqrt(2*M_PI)) - 0.5*std::erfc(r/std::sqrt(2.0)); return 1/(1+A); }
inline double f_walter(const Model&, const Pair& p, const double*, const double* q, double) {   // Walter et al. 2007
  V3 h = halfOf(p); if(!(p.v.z > 0 && p.l.z > 0 && geo::dot(p.v,h) > 0 && geo::dot(p.l,h) > 0)) return 0;
  auto G = [&](double z) { double t = geo::safesqrt(1-z*z)/z; double a = 1/(q[0]*t); return t == 0 || a >= 1.6 ? 1.0 : (3.535*a + 2.181*a*a)/(1 + 2.276*a + 2.577*a*a); }; return G(p.v.z)*G(p.l.z); }
static const std::vector<double> SC{ 0.5, 2.0, 0.03 }, RO{ 0.4, 1.3, 0.12 }, EX{ 3.0, 0.7, 40.0 }, FR{ 0.3, 0.95, 0.04 };
static const std::vector<Model>& models() { static const std::vector<Model> M{
  { "beckmann", "nonlinear_function_beckmann", "", CART, 2, 0, 1, {SC,RO}, f_beckmann, 1e-9, 1e-5, false },
  { "blinn", "nonlinear_function_blinn", "", COSTH, 2, 0, 1, {SC,EX}, f_blinn, 1e-9, 1e-5, false },
  { "retroblinn", "nonlinear_function_retroblinn", "", ANY1, 2, 0, 1, {SC,EX}, f_retroblinn, 1e-9, 1e-5, false },
  { "abc", "nonlinear_function_abc", "", ANY1, 3, 0, 1, {SC,{10,0.5,300},EX}, f_abc, 1e-9, 1e-5, false },
  { "ward", "nonlinear_function_ward", "", CART, 3, 0, 1, {SC,RO,{0.3,0.9,0.15}}, f_ward, 1e-9, 1e-5, false },
  { "retrobeckmann", "nonlinear_function_retrobeckmann", "", CART, 2, 0, 1, {SC,RO}, f_retrobeck, 1e-9, 1e-5, false },
  { "retrobeckmann retro", "nonlinear_function_retrobeckmann", "--retro", CART, 2, 0, 1, {SC,RO}, f_retrobeckdot, 1e-9, 1e-5, false },
  { "lafortune", "nonlinear_function_lafortune", "", CART, 4, 0, 1, {{-1,0.3,-0.4},{-0.9,0.5,-0.3},{1,0.2,0.8},EX}, f_laf, 1e-9, 1e-5, false },
  { "lafortune 2 lobes", "nonlinear_function_lafortune", "--lobes 2", CART, 4, 0, 2, {{-1,0.3},{-0.9,0.5},{1,0.2},{3,0.7},{-0.6,0.4},{-0.8,0.25},{0.7,0.35},{12,5}}, f_laf, 1e-9, 1e-5, false },
  { "sg mirror", "nonlinear_function_spherical_gaussian", "--sg-type mirror", CART, 2, 0, 1, {SC,EX}, f_sgmirror, 1e-9, 1e-5, false },
  { "sg default", "nonlinear_function_spherical_gaussian", "", CART, 2, 0, 1, {SC,EX}, f_sgmirror, 1e-9, 1e-5, false },
  { "sg half", "nonlinear_function_spherical_gaussian", "--sg-type half", CART, 2, 0, 1, {SC,EX}, f_sghalf, 1e-9, 1e-5, false },
  { "sg back", "nonlinear_function_spherical_gaussian", "--sg-type back", CART, 2, 0, 1, {SC,EX}, f_sgback, 1e-9, 1e-5, false },
  { "sg retro", "nonlinear_function_spherical_gaussian", "--sg-type retro", CART, 2, 0, 1, {SC,EX}, f_sgretro, 1e-9, 1e-5, false },
  { "sg moment", "nonlinear_function_spherical_gaussian", "--sg-type moment", CART, 2, 1, 1, {SC,EX,{0.5,1.0,1.2}}, f_sgmoment, 1e-9, 1e-5, false },
  { "yoo", "nonlinear_function_retroyoo", "", CART, 2, 0, 1, {SC,{100,800,2500}}, f_yoo, 1e-6, 1e-4, false },
  { "sgd", "nonlinear_function_sgd", "", CART, 11, 0, 1, {{-0.8,-2.1},{0.02,0.31},{0.9,2.3},{1.2,4.0},{0.9,0.4},{0.05,0.6},{0.01,-0.03},{30,7},{0.1,0.02},{0.3,0.05},{0.2,0.05}}, f_sgd, 1e-8, 1e-4, true },
  { "schlick", "nonlinear_fresnel_schlick", "", ANYN, 1, 0, 1, {FR}, f_schlick, 1e-9, 1e-5, false },
  { "normalized schlick", "nonlinear_fresnel_normalized_schlick", "", CART, 1, 0, 1, {FR}, f_nschlick, 1e-9, 1e-5, false },
  { "retro schlick", "nonlinear_fresnel_retroschlick", "", CART, 1, 0, 1, {FR}, f_rschlick, 1e-9, 1e-5, false },
  { "schlick masking", "nonlinear_shadowing_schlick", "", CART, 1, 0, 1, {FR}, f_gschlick, 1e-9, 1e-5, true },
  { "smith", "nonlinear_shadowing_smith", "", CART, 1, 0, 1, {RO}, f_smith, 1e-6, 1e-4, true },
  { "walter smith", "nonlinear_shadowing_walter_smith", "", CART, 1, 0, 1, {RO}, f_walter, 1e-6, 1e-4, true },
 }; return M; }
inline std::vector<std::string> plugins(bool = true) { std::vector<std::string> r; for(auto& m : models()) if(std::find(r.begin(), r.end(), m.plugin) == r.end()) r.push_back(m.plugin); r.push_back("nonlinear_function_diffuse"); return r; }
// number of parameters, and the parameter indices of channel i (in the order of the formula)
inline int count(const Model& m, int ny) { return m.np*m.lobes*ny + m.extra; }
inline int index(const Model& m, int ny, int i, int k) { if(m.np == 11) return k*ny + i; if(m.lobes > 1) return ((k/m.np)*ny + i)*m.np + k % m.np; return i*m.np + k; }
inline P channel(const Model& m, int ny, int i, const vec& q) { P r; for(int k=0;k<m.np*m.lobes;++k) r.push_back(q[index(m, ny, i, k)]); return r; }
inline ptr<data> tiny(int nx, int ny, params::input in, double y) { ptr<data> d(new vertical_segment(parameters(nx, ny, in, params::INV_STERADIAN), 2u)); for(int s=0;s<2;++s) { vec r(nx+ny); for(int k=0;k<nx;++k) r[k] = nx == 6 ? (k == 2 || k == 5 ? 1.0 : 0.0) : 0.25*(s+1); for(int k=0;k<ny;++k) r[nx+k] = y + s; d->set(s, r); } return d; }
inline NF make(const Model& m, int ny, int in) {
  params::input pin = geo::ALL[in]; int nx = geo::DIMS[in];
  NF f = dynamic_pointer_cast<nonlinear_function>(plugins_manager::get_function(std::string(m.plugin), parameters(nx, ny, pin, params::INV_STERADIAN)));
  if(f && m.boot[0]) { int fx = f->parametrization().dimX(); f->bootstrap(tiny(fx, ny, f->parametrization().input_parametrization(), 0.0), arguments::create_arguments(m.boot)); }
  return f;
}
inline int inputs(const Model& m) { return m.in >= 0 ? 1 : m.in == ANY1 ? 4 : 4; }
inline int input(const Model& m, int k) { static const int N[4] = { CART, 20 /*spherical*/, 19 /*rusin 4d*/, 11 /*isotropic*/ }; return m.in >= 0 ? m.in : m.in == ANY1 ? k : N[k]; }
// the parameters of channel i: alphabet entry (a[k] + i) mod size
inline vec pvec(const Model& m, int ny, const std::vector<int>& a) { vec q(count(m, ny)); int n = m.np*m.lobes;
  for(int i=0;i<ny;++i) for(int k=0;k<n;++k) { auto& al = m.alpha[k]; q[index(m, ny, i, k)] = al[(a[k] + i) % al.size()] * (i && al.size() == 2 ? 1 + 0.01*i*(k+1)/(n) : 1); } for(int e=0;e<m.extra;++e) q[n*ny + e] = m.alpha[n+e][a[n+e]]; return q; }
inline std::vector<int> choose(mc::Ctx& c, const Model& m) { int n = m.np*m.lobes + m.extra; std::vector<int> a(n, 0);
  if(n <= 4) for(int k=0;k<n;++k) a[k] = c.pick((int)m.alpha[k].size(), "param");
  else { int b = c.pick((int)m.alpha[0].size(), "base"), w = c.pick(n+1, "deviation"); for(int k=0;k<n;++k) a[k] = b; if(w) a[w-1] = (a[w-1]+1) % m.alpha[w-1].size(); } return a; }
inline double oracle(const Model& m, int ny, int i, const vec& q, const Pair& p, const double* x) { P r = channel(m, ny, i, q); return m.value(m, p, x, &r[0], m.extra ? q[q.size()-1] : 0); }
// all models and Lafortune functions of more lobes
inline const std::vector<Model>& wide() { static std::vector<Model> W; if(W.empty()) { W = models(); const Model* l = 0; for(auto& m : models()) if(std::string(m.name) == "lafortune") l = &m; static const char* N[] = { "lafortune 3 lobes", "lafortune 5 lobes" }; static const char* B[] = { "--lobes 3", "--lobes 5" }; for(int k=0;k<2;++k) { Model m = *l; m.name = N[k]; m.boot = B[k]; m.lobes = 3 + 2*k; m.alpha.clear(); for(int j=0;j<m.lobes;++j) for(int i=0;i<4;++i) { auto a = l->alpha[i]; if(a.size() > 2) a.resize(2); for(double& x : a) x *= 1 - 0.07*j; m.alpha.push_back(a); } W.push_back(m); } } return W; }
static const std::vector<int> CHANNELS{ 2, 4, 7 };
// directions: normal, oblique, grazing, all around
inline const std::vector<V3>& dirs(bool many) { static std::vector<V3> A, B; if(A.empty()) {
  static const double E[] = { 0.0, 0.3, 0.8, 1.3, M_PI/2 - 1e-3 }, Z[] = { 0.0, 0.7, M_PI/2, 2.6, M_PI, -2.0, -0.7 };
  for(double e : E) for(double z : Z) { A.push_back(geo::sph(e, z)); if((z == 0 || z == 0.7 || z == M_PI || z == -2.0) ) B.push_back(geo::sph(e, z)); if(e == 0) break; }
  for(double e : { 0.35, 1.05 }) { A.push_back(geo::sph(e, 0.7)); A.push_back(geo::sph(e, -2.0)); A.push_back(geo::sph(e, M_PI)); B.push_back(geo::sph(e, 2.0)); }
  A.push_back(V3{0,std::sin(0.8),std::cos(0.8)}); A.push_back(V3{0,-std::sin(1.05),std::cos(1.05)}); B.push_back(V3{0,std::sin(0.9),std::cos(0.9)}); } return many ? A : B; }
// fine sweeps: one angle of one direction, or one parameter, moves through its whole range while the rest stays
inline int axes(const Model& m) { return 5 + m.np*m.lobes + m.extra; }
inline double along(const Model& m, int k, double t) { const auto& al = m.alpha[k]; double lo = *std::min_element(al.begin(), al.end()), hi = *std::max_element(al.begin(), al.end()); if(lo > 0) return lo/2*std::pow(4*hi/lo, t); double d = hi - lo + 0.2; return lo - 0.3*d + t*1.6*d; }
inline void move(int axis, double t, double& tv, double& tl, double& pv, double& pl) { if(axis == 0) tv = t*(M_PI/2 - 1e-4); else if(axis == 1) tl = t*(M_PI/2 - 1e-4); else if(axis == 2) pl = pv + (2*t - 1)*M_PI; else if(axis == 3) { tv = tl = t*(M_PI/2 - 1e-3); pl = pv + M_PI; } else if(axis == 4) { pl = pv; tl = t*(M_PI/2 - 1e-3); } }
inline void sweep(const Model& m, int axis, int base, double t, Pair& p, std::vector<double>& over, int second = -1, double u = 0) {   // over: replaced parameters (index of the formula -> value) or NaN
  static const double TV[] = { 0.35, 1.1, 0.8, 1.5 }, TL[] = { 0.9, 0.5, 1.35, 1.5 }, PL[] = { 2.9, 0.3, -1.7, 1.0 }; double tv = TV[base], tl = TL[base], pv = 0.4, pl = PL[base];
  move(axis, t, tv, tl, pv, pl); move(second, u, tv, tl, pv, pl); p.v = geo::sph(tv, pv); p.l = geo::sph(tl, pl); over.assign(m.np*m.lobes + m.extra, std::nan("")); if(axis >= 5) over[axis - 5] = along(m, axis - 5, t); if(second >= 5) over[second - 5] = along(m, second - 5, u); }
inline vec with(const Model& m, int ny, vec q, const std::vector<double>& over) { int n = m.np*m.lobes; for(size_t k=0;k<over.size();++k) if(over[k] == over[k]) { if((int)k >= n) q[n*ny + k - n] = over[k]; else for(int i=0;i<ny;++i) q[index(m, ny, i, (int)k)] = over[k]*(1 + 0.01*i); } return q; }
inline const std::vector<V3>& low() { static std::vector<V3> A; if(A.empty()) { A.push_back(geo::sph(1.65, 0.4)); A.push_back(geo::sph(1.9, -1.8)); A.push_back(geo::sph(2.4, 2.9)); } return A; }
}
