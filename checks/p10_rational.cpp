// P10: rational functions against the quotient of their basis expansions.
#include "mc.h"
#include "core/rational_function.h"
#include "core/plugins_manager.h"
using namespace alta;
static const std::vector<const char*> KIND{ "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" };
static double basis1(int kind, int n, double x) {
  if(kind == 0) { double r = 1; for(int i=0;i<n;++i) r *= x; return r; }
  double a = 1, b = x; if(n == 0) return 1;
  for(int k=2;k<=n;++k) { double c = kind == 2 ? 2*x*b - a : ((2*k-1)*x*b - (k-1)*a) / k; a = b; b = c; } return b;
}
typedef std::vector<std::vector<int> > Degs;
// all multi-degrees of one index, as the public enumeration says
static std::vector<int> degree(const rational_function_1d* r, int i) { return r->index2degree(i); }
static double basis(int kind, const std::vector<int>& d, const vec& x, const vec& mn, const vec& mx) { double r = 1; for(size_t k=0;k<d.size();++k) r *= basis1(kind, d[k], 2*((x[k]-mn[k])/(mx[k]-mn[k])) - 1); return r; }
static double cosfac(const parameters& p, const vec& x) { if(p.input_parametrization() == params::UNKNOWN_INPUT) return 1; double c[6]; params::convert(&x[0], p.input_parametrization(), params::CARTESIAN, c); return c[2]*c[5]; }
static ptr<rational_function> make(int kind, const parameters& p) { return dynamic_pointer_cast<rational_function>(plugins_manager::get_function(std::string(KIND[kind]), p)); }

static void scen_degrees(mc::Ctx& c) {
  int nx = 1 + c.pick(6, "nx"), N = c.thorough ? 400 : 130; c.tag("degrees"); rational_function_1d r(parameters(nx, 1), 1, 1); std::set<std::vector<int> > seen; int last = 0; std::map<int,long> per;
  for(int i=0;i<N;++i) { std::vector<int> d = r.index2degree(i); std::string w = "nx " + std::to_string(nx) + " index " + std::to_string(i) + " " + mc::vstr(d);
    if(!c.check((int)d.size() == nx, "degree size", w)) return; int t = 0; bool neg = false; for(int k : d) { t += k; neg = neg || k < 0; }
    c.check(!neg, "negative degree", w); c.check(seen.insert(d).second, "repeated degree", w); c.check(t >= last, "degree order", w); last = t; per[t]++; c.state(w); }
  for(auto& kv : per) if(kv.first < last) { long n = 1; for(int k=1;k<nx;++k) n = n*(kv.first+k)/k; c.check(kv.second == n, "missing degrees", "nx " + std::to_string(nx) + " total degree " + std::to_string(kv.first) + ": " + std::to_string(kv.second) + " not " + std::to_string(n)); }
  c.outcome(nx);
}
static const std::vector<double> PT{ 0, 1, 0.5, 0.3, 0.9, -0.25, 1.4 };          // position in the domain, ends and outside included
static vec dom(const vec& t, const vec& mn, const vec& mx) { vec x(t.size()); for(int k=0;k<t.size();++k) x[k] = mn[k] + t[k]*(mx[k]-mn[k]); return x; }
static void domain(mc::Ctx& c, int nx, vec& mn, vec& mx) { int d = c.pick(3, "domain"); mn = vec::Zero(nx); mx = vec::Ones(nx); for(int k=0;k<nx;++k) { if(d == 1) { mn[k] = -1 - k; mx[k] = 3 + 2*k; } if(d == 2) { mn[k] = -1; mx[k] = 1; } } }
// each basis function at each point
static void scen_basis(mc::Ctx& c) {
  int kind = c.pick(4, "basis"), nx = 1 + c.pick(3, "nx"), N = nx == 1 ? 12 : nx == 2 ? 21 : 20; vec mn, mx; domain(c, nx, mn, mx); parameters p(nx, 1); ptr<rational_function> f = make(kind, p); c.tag(std::string("basis ") + KIND[kind]);
  if(!c.check((bool)f, "missing function", KIND[kind])) return; f->setMin(mn); f->setMax(mx); f->setSize(N, N); rational_function_1d* r = f->get(0);
  vec t(nx); for(int k=0;k<nx;++k) t[k] = PT[c.pick(nx == 3 && !c.thorough ? 5 : (int)PT.size(), "x")]; vec x = dom(t, mn, mx);
  for(int i=0;i<N;++i) { double e = basis(kind == 3 ? 1 : kind, degree(r, i), x, mn, mx); std::string w = std::string(KIND[kind]) + " index " + std::to_string(i) + " at " + mc::vstr(x);
    double tol = 1e-9 * std::max(1.0, std::fabs(e)); c.check(std::fabs(r->p(x,i) - e) <= tol, std::string("p basis ") + KIND[kind], w + ": " + mc::dstr(r->p(x,i)) + " not " + mc::dstr(e)); c.check(std::fabs(r->q(x,i) - e) <= tol, std::string("q basis ") + KIND[kind], w + ": " + mc::dstr(r->q(x,i)) + " not " + mc::dstr(e)); c.outcome(e); c.state(mc::mix(mc::hdbl(e), mc::hstr(w))); }
}
struct Chan { std::vector<double> a, b; };
static void compare(mc::Ctx& c, rational_function& f, int kind, const std::vector<Chan>& m, const vec& x, const vec& mn, const vec& mx, const std::string& w) {
  int ny = (int)m.size(); vec v = f.value(x), v2 = f(x); if(!c.check(v.size() == ny && v2.size() == ny, "value size", w)) return; double cf = kind == 3 ? cosfac(f.parametrization(), x) : 1;
  for(int j=0;j<ny;++j) { rational_function_1d* r = f.get(j); c.check(const_cast<const rational_function&>(f).get(j) == r, std::string("const channel ") + KIND[kind], w); double P = 0, Q = 0, sp = 0, sq = 0; for(size_t i=0;i<m[j].a.size();++i) { double t = m[j].a[i]*cf*basis(kind == 3 ? 1 : kind, degree(r,(int)i), x, mn, mx); P += t; sp += std::fabs(m[j].a[i]*cf) + std::fabs(t); } for(size_t i=0;i<m[j].b.size();++i) { double t = m[j].b[i]*basis(kind == 3 ? 1 : kind, degree(r,(int)i), x, mn, mx); Q += t; sq += std::fabs(m[j].b[i]) + std::fabs(t); }
    c.outcome(P); c.outcome(Q); std::string k = std::string(" ") + KIND[kind];
    vec pp = r->p(x), qq = r->q(x); c.check(pp.size() == 1 && std::fabs(pp[0]-P) <= 1e-10*(sp+1e-30), "numerator" + k, w + ": " + mc::dstr(pp[0]) + " not " + mc::dstr(P)); c.check(qq.size() == 1 && std::fabs(qq[0]-Q) <= 1e-10*(sq+1e-30), "denominator" + k, w + ": " + mc::dstr(qq[0]) + " not " + mc::dstr(Q));
    if(std::fabs(Q) < 1e-6*sq) continue; double tol = 1e-9*(std::fabs(P/Q) + sp/std::fabs(Q) + std::fabs(P/Q)*sq/std::fabs(Q)) + 1e-300;
    c.check(std::fabs(v[j]-P/Q) <= tol, "value" + k, w + " channel " + std::to_string(j) + ": " + mc::dstr(v[j]) + " not " + mc::dstr(P/Q)); c.check(v2[j] == v[j] || (v[j] != v[j]), "operator()" + k, w); vec w1 = r->value(x); c.check(w1.size() == 1 && std::fabs(w1[0]-P/Q) <= tol, "1d value" + k, w);
    c.check(r->getP().size() == (int)m[j].a.size() && r->getQ().size() == (int)m[j].b.size(), "coefficient count" + k, w);
    for(size_t i=0;i<m[j].a.size();++i) c.check(mc::close(r->getP((int)i), m[j].a[i], 1e-14, 0) && r->getP()[i] == r->getP((int)i), "getP" + k, w); for(size_t i=0;i<m[j].b.size();++i) c.check(mc::close(r->getQ((int)i), m[j].b[i], 1e-14, 0) && r->getQ()[i] == r->getQ((int)i), "getQ" + k, w); }
}
static std::vector<double> coefs(int n, int seed) { static const double A[] = { 2, -1, 0.5, 0, 3, -0.25 }; std::vector<double> r; for(int i=0;i<n;++i) r.push_back(A[(i*seed + seed) % 6]); return r; }
static vec tovec(const std::vector<double>& a) { vec v(a.size()); for(size_t i=0;i<a.size();++i) v[i] = a[i]; return v; }
static Chan upd(const std::vector<double>& a, const std::vector<double>& b) { Chan m{a,b}; double b0 = std::fabs(b[0]) > 1e-16 ? b[0] : 1; for(double& x : m.a) x /= b0; for(double& x : m.b) x /= b0; return m; }
static void scen_values(mc::Ctx& c) {
  int kind = c.pick(4, "basis"), nx = 1 + c.pick(3, "nx"), ny = 1 + c.pick(3, "ny"), np = 1 + c.pick(5, "np"), nq = 1 + c.pick(5, "nq"), seed = 1 + c.pick(c.thorough ? 5 : 2, "seed"); vec mn, mx; domain(c, nx, mn, mx);
  bool par = kind == 3 && c.flag("parametrized"); static const params::input IN[] = { params::COS_TH, params::RUSIN_TH_TD, params::RUSIN_TH_TD_PD }; parameters p(nx, ny, par ? IN[nx-1] : params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
  c.tag(std::string("values ") + KIND[kind]); ptr<rational_function> f = make(kind, p); if(!f) return; f->setMin(mn); f->setMax(mx); f->setSize(np, nq); std::vector<Chan> m;
  for(int j=0;j<ny;++j) { std::vector<double> a = coefs(np, seed+j), b = coefs(nq, seed+1+j); if(b[0] == 0) b[0] = 1.5; f->get(j)->update(tovec(a), tovec(b)); m.push_back(upd(a,b)); }
  for(int k=0;k<4;++k) { vec t(nx); for(int i=0;i<nx;++i) t[i] = PT[(k + 2*i + (k*i)) % PT.size()]; vec x = dom(t, mn, mx); std::ostringstream w; w << KIND[kind] << " nx " << nx << " np " << np << " nq " << nq << " at " << mc::vstr(x); compare(c, *f, kind, m, x, mn, mx, w.str()); c.state(w.str()); }
  c.check(f->get(ny) == NULL, "channel out of range", KIND[kind]);
}
// short histories: resize, update, copy, query
static void scen_histories(mc::Ctx& c) {
  int kind = c.pick(4, "basis"), nx = 1 + c.pick(3, "nx"); vec mn = vec::Zero(nx), mx = vec::Constant(nx, 2.0); parameters p(nx, 2); c.tag(std::string("histories ") + KIND[kind]); ptr<rational_function> f = make(kind, p), g = make(kind, p); if(!f || !g) return;
  f->setMin(mn); f->setMax(mx); g->setMin(mn); g->setMax(mx); f->setSize(2,2); g->setSize(3,1); std::vector<Chan> m, o; std::string w = KIND[kind];
  for(int j=0;j<2;++j) { m.push_back(upd(coefs(2,1+j), coefs(2,5))); f->get(j)->update(tovec(coefs(2,1+j)), tovec(coefs(2,5))); o.push_back(upd(coefs(3,2+j), {1.0})); g->get(j)->update(tovec(coefs(3,2+j)), tovec({1.0})); }
  vec x = vec::Constant(nx, 0.75); for(int k=0;k<nx;++k) x[k] += 0.3*k;
  for(int s=0;s<(c.thorough?4:3);++s) {
    int op = c.pick(6, "op"), j = op == 0 || op >= 4 ? 0 : c.pick(2, "channel");
    if(op == 0) break;
    if(op == 1) { static const int NP[] = {1,4,7}, NQ[] = {1,5,2}; int z = c.pick(3, "size"); f->get(j)->resize(NP[z], NQ[z]); m[j].a.resize(NP[z], 0.0); m[j].b.resize(NQ[z], 0.0); w += " resize"; }
    else if(op == 2) { int np = 1 + 3*c.pick(2, "np"), nq = 1 + 2*c.pick(2, "nq"); std::vector<double> a = coefs(np, 4+s), b = coefs(nq, 5); f->get(j)->update(tovec(a), tovec(b)); m[j] = upd(a,b); w += " update"; }
    else if(op == 3) { f->update(j, g->get(1-j)); m[j] = o[1-j]; w += " copy1"; }
    else if(op == 4) { f->update(g); m = o; w += " copy"; }
    else { std::vector<Chan> t = m; m = t; for(int q=0;q<2;++q) { f->get(q)->p(x); f->get(q)->q(x); f->value(x); } w += " query"; }
    compare(c, *f, kind, m, x, mn, mx, w); compare(c, *g, kind, o, x, mn, mx, w + " (source)"); c.state(w); c.outcome(w);
  }
}
// a domain that is a point in one dimension is inflated, the value stays finite
static void scen_point(mc::Ctx& c) {
  int kind = c.pick(4, "basis"), nx = 1 + c.pick(2, "nx"), flat = c.pick(nx + 1, "flat"); vec mn = vec::Zero(nx), mx = vec::Ones(nx); for(int k=0;k<nx;++k) if(k <= flat) mx[k] = 0; c.tag("point domain"); parameters p(nx, 1); ptr<rational_function> f = make(kind, p); if(!f) return; f->setMin(mn); f->setMax(mx); f->setSize(3,1); f->get(0)->update(tovec({1,2,3}), tovec({1})); vec v = f->value(vec::Zero(nx)); c.check(v.size() == 1 && std::isfinite(v[0]), "point domain", KIND[kind]); c.state(mc::mix(kind, nx*10+flat)); c.outcome(v[0]);
}
// many terms, many channels, all dimensions
static void scen_large(mc::Ctx& c) {
  static const std::vector<int> SZ{ 1, 6, 9, 16, 33, 64 }; int kind = c.pick(4, "basis"), nx = 1 + c.pick(6, "nx"), np = c.of(SZ, "np"), nq = c.of(SZ, "nq"); if(nx == 1 && kind % 2) { np = std::min(np, 20); nq = std::min(nq, 20); }   // the Legendre recursion takes exponential time in the degree
  static const std::vector<int> NY{ 1, 2, 4, 7 }; int ny = c.of(NY, "ny"), seed = 1 + c.pick(c.thorough ? 5 : 2, "seed"), d = c.pick(2, "domain"), hist = c.pick(3, "history"); vec mn(nx), mx(nx); for(int k=0;k<nx;++k) { mn[k] = d ? -1 - 0.5*k : 0; mx[k] = d ? 2 + k : 1; }
  parameters p(nx, ny); c.tag(std::string("large ") + KIND[kind]); ptr<rational_function> f = make(kind, p); if(!c.check((bool)f, "missing function", KIND[kind])) return; f->setMin(mn); f->setMax(mx); if(hist) f->setSize(hist == 1 ? 70 : 2, hist == 1 ? 70 : 2); f->setSize(np, nq); std::vector<Chan> m; std::string w = std::string(KIND[kind]) + " nx " + std::to_string(nx) + " ny " + std::to_string(ny) + " np " + std::to_string(np) + " nq " + std::to_string(nq);
  for(int j=0;j<ny;++j) { std::vector<double> a = coefs(np, seed+j), b = coefs(nq, seed+1+j); for(int i=0;i<np;++i) a[i] += 0.01*i; for(int i=0;i<nq;++i) b[i] = 0.1*b[i]/(1+i); b[0] = 1.5 + j; m.push_back(upd(a,b)); f->get(j)->update(tovec(a), tovec(b)); }
  for(int k=0;k<4;++k) { vec t(nx); for(int i=0;i<nx;++i) t[i] = PT[(k + 2*i + (k*i)) % PT.size()]; vec x = dom(t, mn, mx); compare(c, *f, kind, m, x, mn, mx, w + " at " + mc::vstr(x)); c.state(w + mc::vstr(x)); } c.check(f->get(ny) == NULL, "channel out of range", w);
}
// several functions at a time, of different bases and dimensions, created and asked in turn
static void scen_objects(mc::Ctx& c) {
  struct O { int kind, nx; ptr<rational_function> f; std::vector<Chan> m; vec mn, mx; }; std::vector<O> o; std::string w = "objects"; int n = c.thorough ? 3 : 2;
  auto fill = [&](O& q, int seed, int np, int nq) { q.f->setSize(np, nq); q.m.clear(); for(int j=0;j<2;++j) { std::vector<double> a = coefs(np, seed+j), b = coefs(nq, seed+1+j); for(int i=0;i<nq;++i) b[i] = 0.1*b[i]/(1+i); b[0] = 1.5 + j; q.f->get(j)->update(tovec(a), tovec(b)); q.m.push_back(upd(a, b)); } };
  auto ask = [&](O& q) { for(int k=0;k<2;++k) { vec t(q.nx); for(int i=0;i<q.nx;++i) t[i] = PT[(2*k + 2*i + k*i) % 5]; vec x = dom(t, q.mn, q.mx); compare(c, *q.f, q.kind, q.m, x, q.mn, q.mx, w + " nx " + std::to_string(q.nx) + " at " + mc::vstr(x)); } };
  for(int k=0;k<n;++k) { O q; q.kind = c.pick(4, "basis"); q.nx = 1 + c.pick(k == 2 ? 3 : 5, "nx"); q.f = make(q.kind, parameters(q.nx, 2)); if(!c.check((bool)q.f, "missing function", KIND[q.kind])) return; q.mn = vec::Zero(q.nx); q.mx = vec::Constant(q.nx, 1.0 + k); q.f->setMin(q.mn); q.f->setMax(q.mx); w += std::string(" ") + KIND[q.kind] + std::to_string(q.nx); o.push_back(q); } c.tag("objects");
  int sz = c.pick(2, "size"); for(size_t k=0;k<o.size();++k) fill(o[k], 1 + k, sz ? 16 : 6, sz ? 8 : 3); for(auto& q : o) ask(q); ask(o[0]);
  for(int s=0;s<2;++s) { int op = c.pick(3, "op"), i = op ? c.pick(n, "object") : 0; if(op == 1) { fill(o[i], 3 + s, 9 + s, 4); w += " fill " + std::to_string(i); } if(op == 2) { o[i].f = make(o[i].kind, parameters(o[i].nx, 2)); o[i].f->setMin(o[i].mn); o[i].f->setMax(o[i].mx); fill(o[i], 2 + s, 12, 5); w += " again " + std::to_string(i); } if(op == 0) break; for(auto& q : o) ask(q); } c.state(w); c.outcome(w);
}
MC_MAIN({"large", scen_large, 3, 20}, {"degrees", scen_degrees, 1, 20}, {"basis", scen_basis, 3, 20}, {"values", scen_values, 4, 20}, {"histories", scen_histories, 3, 20}, {"point", scen_point, 2, 20}, {"objects", scen_objects, 4, 20})
