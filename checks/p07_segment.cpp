// P07: vertical_segment against an array of rows, over all short operation sequences.
#include "dataio.h"
struct Model { int nx, ny, n, kind; std::vector<double> a; int w() const { return nx + ny + kind*ny; } double& at(int i, int k) { return a[i*w()+k]; } };
static void check(mc::Ctx& c, VS* v, Model& m, const std::string& w) {
  c.check(v->size() == m.n && v->parametrization().dimX() == m.nx && v->parametrization().dimY() == m.ny && (int)v->confidence_interval_kind() == m.kind && (int)v->column_number() == m.w() && (int)v->confidence_interval_columns() == m.kind*m.ny, "shape", w);
  c.check(v->parametrization().input_parametrization() == params::COS_TH && v->parametrization().output_parametrization() == params::ENERGY, "parametrization", w);
  auto mv = v->matrix_view(); if(!c.check(mv.rows() == m.n && mv.cols() == m.w(), "matrix shape", w)) return;
  for(int i=0;i<m.n;++i) {
    for(int k=0;k<m.w();++k) c.check(mv(i,k) == m.at(i,k), "cell", w + " row " + std::to_string(i) + " column " + std::to_string(k) + " is " + mc::dstr(mv(i,k)) + " not " + mc::dstr(m.at(i,k)));
    vec g = v->get(i); if(!c.check(g.size() == m.nx + m.ny, "row size", w)) return;
    for(int k=0;k<m.nx+m.ny;++k) c.check(g[k] == m.at(i,k), "get", w);
    vec x, l, u, l2, u2; v->get(i, x, l, u); v->get(i, l2, u2);
    if(!c.check(x.size() == m.nx && l.size() == m.ny && u.size() == m.ny && l2.size() == m.ny && u2.size() == m.ny, "interval size", w)) return;
    for(int k=0;k<m.nx;++k) c.check(x[k] == m.at(i,k), "interval x", w);
    for(int k=0;k<m.ny;++k) { double y = m.at(i, m.nx+k), lo, hi;
      if(m.kind == 2) { lo = m.at(i, m.nx+m.ny+k); hi = m.at(i, m.nx+2*m.ny+k); } else if(m.kind == 1) { lo = y - m.at(i, m.nx+m.ny+k); hi = y + m.at(i, m.nx+m.ny+k); } else { lo = y - 0.1; hi = y + 0.1; }
      c.check(l[k] == lo && l2[k] == lo, "lower", w + " lower " + mc::dstr(l[k]) + " not " + mc::dstr(lo)); c.check(u[k] == hi && u2[k] == hi, "upper", w + " upper " + mc::dstr(u[k]) + " not " + mc::dstr(hi)); }
  }
}
static uint64_t H(const Model& m) { uint64_t h = mc::mix(m.nx*100+m.ny*10+m.kind, m.n); for(double d : m.a) h = mc::mix(h, mc::hdbl(d)); return h; }
static void scen_histories(mc::Ctx& c) {
  static const int SX[] = {1,2,1}, SY[] = {1,1,2}; int sh = c.pick(3, "shape"); Model m; m.nx = SX[sh]; m.ny = SY[sh]; m.n = 1 + c.pick(3, "n"); m.kind = c.pick(4, "kind"); bool dep = m.kind == 3; if(dep) m.kind = 2;
  parameters p(m.nx, m.ny, params::COS_TH, params::ENERGY); m.a.assign(m.n*m.w(), 0.0); VS* v; std::shared_ptr<double> raw;
  if(dep) v = new VS(p, (unsigned)m.n); else { double* a = new double[m.a.size()]; for(size_t i=0;i<m.a.size();++i) a[i] = m.a[i] = 10 + i; raw = std::shared_ptr<double>(a, [](double* q){ delete[] q; }); v = new VS(p, (size_t)m.n, raw, (VS::ci_kind)m.kind); }
  ptr<data> own(v); check(c, v, m, "fresh"); vec mn = v->min(), mx = v->max(); std::string w;
  int steps = c.thorough ? 4 : 3;
  for(int s=0;s<steps;++s) {
    int op = c.pick(5, "op");
    if(op == 0) break;
    int i = c.pick(m.n, "sample"); double b = c.flag("v") ? 100*(s+1) + 0.25 : -100*(s+1) - 7;
    if(op == 1) { vec x(m.nx+m.ny); for(int k=0;k<x.size();++k) m.at(i,k) = x[k] = b + k; v->set(i, x); w += "set(" + std::to_string(i) + ") "; }
    else if(op == 2) { vec x(m.w()); for(int k=0;k<x.size();++k) m.at(i,k) = x[k] = b + 2*k; v->set(i, x); w += "setrow(" + std::to_string(i) + ") "; }
    else if(op == 3) { auto mv = v->matrix_view(); int k = c.pick(m.w(), "column"); mv(i,k) = b; m.at(i,k) = b; w += "cell "; }
    else { int sz = c.pick(3, "size"); int n = sz == 0 ? m.nx + m.ny - 1 : sz == 1 ? m.w() + 1 : 0; bool thrown = false; try { vec x = vec::Constant(n, b); v->set(i, x); } catch(std::exception&) { thrown = true; } c.check(thrown, "wrong size accepted", w); w += "bad "; }
    check(c, v, m, w); c.state(H(m));
  }
  for(int k=0;k<m.nx;++k) c.check(v->min()[k] == mn[k] && v->max()[k] == mx[k], "bounds changed", w);
  c.outcome(H(m)); c.tag("histories");
}
// bounds at construction, with interval columns in between
static void scen_bounds(mc::Ctx& c) {
  static const std::vector<double> V{ -3, 0, 2, 5 }; Model m; m.nx = 1 + c.pick(2,"nx"); m.ny = 1 + c.pick(2,"ny"); m.kind = c.pick(3,"kind"); m.n = 1 + c.pick(3,"n"); m.a.assign(m.n*m.w(), 0); for(size_t i=0;i<m.a.size();++i) m.a[i] = (i % 2 ? 900.0 : -900.0) + i;
  for(int i=0;i<m.n;++i) for(int k=0;k<m.nx;++k) m.at(i,k) = c.of(V, "x");
  double* a = new double[m.a.size()]; std::copy(m.a.begin(), m.a.end(), a); VS v(parameters(m.nx, m.ny, params::COS_TH, params::ENERGY), (size_t)m.n, std::shared_ptr<double>(a, [](double* q){ delete[] q; }), (VS::ci_kind)m.kind);
  c.tag("bounds"); check(c, &v, m, "bounds"); for(int k=0;k<m.nx;++k) { double mn = m.at(0,k), mx = mn; for(int i=0;i<m.n;++i) { mn = std::min(mn, m.at(i,k)); mx = std::max(mx, m.at(i,k)); } c.check(v.min()[k] == mn, "min", ""); c.check(v.max()[k] == mx, "max", ""); }
  c.state(H(m)); c.outcome(H(m));
}
// equality: exactly the sizes, parameters and samples to the tolerance
static VS* mk(const Model& m, params::input in, params::output out) { double* a = new double[std::max((size_t)1,m.a.size())]; std::copy(m.a.begin(), m.a.end(), a); return new VS(parameters(m.nx, m.ny, in, out), (size_t)m.n, std::shared_ptr<double>(a, [](double* q){ delete[] q; }), (VS::ci_kind)m.kind); }
static void scen_equals(mc::Ctx& c) {
  Model a; a.nx = 1 + c.pick(2,"nx"); a.ny = 1 + c.pick(2,"ny"); a.n = c.pick(3,"n"); a.kind = c.pick(3,"kind"); a.a.resize(a.n*a.w()); for(size_t i=0;i<a.a.size();++i) a.a[i] = 0.5*i; Model b = a; params::input in = params::COS_TH; params::output out = params::ENERGY; params::input in2 = in; params::output out2 = out;
  int k = c.pick(6, "change"); bool eq = true; double tol = -1; double def = 1e-14;
  if(k == 1 && a.n) { int i = c.pick(a.n,"i"), j = c.pick(a.nx+a.ny,"j"); static const std::vector<double> D{ 1e-15, 3e-14, 1e-3, 0.5, 2, -1e-3, 1e-6, 0 }; double d = c.of(D,"delta"); a.at(i,j) = b.at(i,j) = 0; b.at(i,j) += d; static const std::vector<double> T{ -1, 1e-4, 1, 0 }; tol = c.of(T,"tol"); eq = std::fabs(d) <= (tol < 0 ? def : tol); }
  else if(k == 2) { b.n += 1; b.a.resize(b.n*b.w(), 0); eq = false; }
  else if(k == 3) { in2 = params::COS_TK; eq = false; }
  else if(k == 4) { out2 = params::INV_STERADIAN; eq = false; }
  else if(k == 5) { bool x = c.flag("x"); if(x) b.nx++; else b.ny++; b.a.assign(b.n*b.w(), 0); eq = false; }
  std::unique_ptr<VS> A(mk(a,in,out)), B(mk(b,in2,out2)); c.tag("equals");
  bool r1 = tol < 0 ? A->equals(*B) : A->equals(*B, tol), r2 = tol < 0 ? B->equals(*A) : B->equals(*A, tol); std::string w = "change " + std::to_string(k) + " tol " + mc::dstr(tol);
  c.check(r1 == eq, "equals", w + " says " + (r1?"equal":"different")); c.check(r2 == eq, "equals reversed", w); c.check(A->equals(*A) && B->equals(*B), "equals itself", w);
  c.state(mc::mix(H(a),H(b))); c.outcome((int)r1); c.outcome(w);
  if(a.n && k == 0) { a.at(0,0) = std::numeric_limits<double>::quiet_NaN(); std::unique_ptr<VS> N(mk(a,in,out)); c.check(!N->equals(*A) && !A->equals(*N), "NaN equals a value", w); }
}
// many rows: writes at both ends and around the middle, bounds, and equality where only one of them differs
static void scen_large(mc::Ctx& c) {
  Model m; m.n = MANY[c.pick((int)MANY.size() - (c.thorough ? 0 : 2), "n")]; auto d = c.of(WIDE, "dim"); if(heavy(m.n, d)) { c.trivial = true; return; } m.nx = d.first; m.ny = d.second; m.kind = c.pick(3, "kind"); int fill = c.pick(2, "values"), at = c.pick(4, "row"); if(m.n > 1025 && !c.thorough && (fill || at == 2 || m.kind == 1)) { c.trivial = true; return; }
  m.a.resize(m.n*m.w()); for(int i=0;i<m.n;++i) for(int k=0;k<m.w();++k) m.at(i,k) = cell(i, k, fill);
  std::unique_ptr<VS> v(mk(m, params::COS_TH, params::ENERGY)), o(mk(m, params::COS_TH, params::ENERGY)); c.tag("large"); std::string w = std::to_string(m.n) + " rows";
  check(c, v.get(), m, w); for(int k=0;k<m.nx;++k) { double mn = m.at(0,k), mx = mn; for(int i=0;i<m.n;++i) { mn = std::min(mn, m.at(i,k)); mx = std::max(mx, m.at(i,k)); } c.check(v->min()[k] == mn, "min", w); c.check(v->max()[k] == mx, "max", w); }
  c.check(v->equals(*o) && o->equals(*v), "equals", w);
  int i = at == 0 ? 0 : at == 1 ? m.n - 1 : at == 2 ? m.n/2 : m.n - 2; int j = i % 2 ? m.nx + m.ny - 1 : 0; vec x(m.nx + m.ny); for(int k=0;k<x.size();++k) x[k] = m.at(i,k); x[j] += 0.5; m.at(i,j) = x[j]; v->set(i, x); w += ", row " + std::to_string(i) + " changed";
  check(c, v.get(), m, w); c.check(!v->equals(*o) && !o->equals(*v), "equals", w); c.check(v->equals(*o, 1.0), "equals", w + " to 1"); c.state(H(m)); c.outcome(w);
}
MC_MAIN({"histories", scen_histories, 4, 20}, {"bounds", scen_bounds, 3, 20}, {"equals", scen_equals, 3, 20}, {"large", scen_large, 3, 60})
