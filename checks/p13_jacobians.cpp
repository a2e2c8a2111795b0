// P13: parametersJacobian against the change of value() when one parameter is changed.
#include "models.h"
using namespace mdl;
// compares every entry; a parameter at which value() has a corner (its one sided slopes differ) is left out
static void compare(mc::Ctx& c, nonlinear_function& f, const vec& x, double tol, const std::string& name, const std::string& w) {
  vec q = f.parameters(); int np = f.nbParameters(), ny = f.parametrization().dimY(); if(!c.check(q.size() == np, name + " parameters size", w)) return;
  vec J = f.parametersJacobian(x); if(!c.check(J.size() == np*ny, name + " Jacobian size", w + " " + std::to_string(J.size()) + " not " + std::to_string(np*ny))) return; vec v0 = f.value(x);
  for(int j=0;j<np;++j) {
    double h = 1e-4*std::max(std::fabs(q[j]), 1e-3); vec d[4]; static const double S[4] = { 1, -1, 0.5, -0.5 }; for(int k=0;k<4;++k) { vec p = q; p[j] += S[k]*h; f.setParameters(p); d[k] = f.value(x); } f.setParameters(q);
    for(int i=0;i<ny;++i) { double D1 = (d[0][i]-d[1][i])/(2*h), D2 = (d[2][i]-d[3][i])/h, D = (4*D2 - D1)/3, L = 2*(v0[i]-d[3][i])/h, R = 2*(d[2][i]-v0[i])/h, a = J[i*np+j];
      double big = 0; for(int k=0;k<4;++k) big = std::max(big, std::fabs(d[k][i])); double noise = big*1e-15/h*100, sc = std::max(std::fabs(D), std::fabs(a));
      std::string ww = w + " output " + std::to_string(i) + " parameter " + std::to_string(j); c.state(mc::mix(mc::hdbl((float)a), mc::hstr(ww))); c.outcome((double)(float)a);
      if(!c.check(std::isfinite(a), name + " derivative not finite", ww + " " + mc::dstr(a))) continue;
      if(!std::isfinite(D)) continue;
      double corner = std::fabs(L-R) - 2*std::fabs(D1-D2)*100; if(std::fabs(L-R) > 0.05*std::max(std::fabs(L),std::fabs(R)) + noise*10 && corner > 0 && std::fabs(D1-D2) < 1e-9 + 1e-6*std::fabs(L-R)) continue;
      c.check(std::fabs(a-D) <= tol*sc + noise + std::fabs(D1-D2)*3 + tol*1e-3*std::fabs(v0[i]) + 1e-40, name + " derivative", ww + " is " + mc::dstr(a) + " not " + mc::dstr(D)); } }
}
static vec coords(int in, const Pair& p) { auto co = geo::from(in, p); vec x(geo::DIMS[in]); for(int k=0;k<x.size();++k) x[k] = co[k].v; return x; }
static void scen_models(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), ny = 1 + c.pick(3, "channels"); std::vector<int> a = choose(c, m); const auto& D = dirs(c.thorough);
  V3 v = c.of(D, "view"); NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, "")) return; vec q = pvec(m, ny, a); f->setParameters(q); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in];
  for(auto& l : D) compare(c, *f, coords(in, Pair{v,l}), m.jtol, m.name, w + " at " + geo::ps(Pair{v,l}));
  if(geo::DIMS[in] == 6) { compare(c, *f, coords(in, Pair{v,v}), m.jtol, m.name, w + " V=L"); if(!m.upper) for(auto& l : low()) if(l.z + v.z > 0.01) compare(c, *f, coords(in, Pair{v,l}), m.jtol, m.name, w + " below"); }
}
// every angle and every parameter through its whole range in small steps
static void scen_sweep(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), axis = c.pick(axes(m), "axis"), base = c.pick(4, "direction"), b = c.pick(2, "parameters"), ny = 1 + 2*c.pick(2, "channels"); int n = m.np*m.lobes + m.extra; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = b % m.alpha[k].size();
  NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q0 = pvec(m, ny, a); std::vector<double> over; Pair p; int N = c.thorough ? 360 : 90;
  for(int s=0;s<=N;++s) { sweep(m, axis, base, s/double(N), p, over); vec q = with(m, ny, q0, over); f->setParameters(q); compare(c, *f, coords(in, p), m.jtol, m.name, std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in] + " at " + geo::ps(p)); }
}
// two of them at once
static void scen_grid(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, 0), n = m.np*m.lobes + m.extra, A = 5 + std::min(n, 6), a1 = c.pick(A, "axis"), a2 = c.pick(A, "second axis"); if(a2 <= a1) { c.trivial = true; return; } int base = c.pick(c.thorough ? 4 : 2, "direction"), b = c.pick(2, "parameters"); if(n > 6 && a1 >= 5) a1 = 5 + (a1 - 5 + base*5) % n; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = b % m.alpha[k].size();
  NF f = make(m, 1, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q0 = pvec(m, 1, a); std::vector<double> over; Pair p; int N = c.thorough ? 48 : 20;
  for(int s=0;s<=N;++s) for(int t=0;t<=N;++t) { sweep(m, a1, base, s/double(N), p, over, a2, t/double(N)); vec q = with(m, 1, q0, over); f->setParameters(q); compare(c, *f, coords(in, p), m.jtol, m.name, std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in] + " at " + geo::ps(p)); }
}
// many channels and lobes
static void scen_wide(mc::Ctx& c) {
  const Model& m = wide()[c.pick((int)wide().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), ny = c.of(CHANNELS, "channels"), b = c.pick(2, "parameters"), n = m.np*m.lobes + m.extra; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = (b + k) % m.alpha[k].size(); NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q = pvec(m, ny, a); f->setParameters(q); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in]; const auto& D = dirs(false); V3 v = c.of(D, "view"); for(size_t l=0;l<D.size();l+=3) compare(c, *f, coords(in, Pair{v, D[l]}), m.jtol, m.name, w + " at " + geo::ps(Pair{v, D[l]}));
}
// one parameter far from its usual size, or at an end of its range
static void scen_far(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; c.tag(m.name); int in = input(m, c.pick(inputs(m), "input")), n = m.np*m.lobes + m.extra, k = c.pick(n, "parameter"), b = c.pick(2, "parameters"), ny = 1 + 2*c.pick(2, "channels"); static const std::vector<double> F{ 1e-9, 1e-6, 1e-3, 1e-2, 1e2, 1e3, 1e6, 0, 1 }; int z = c.pick((int)F.size(), "factor"); if(k > 0 || m.alpha[0] != SC) { if(z < 3 || z == 5 || z == 6 || (z == 4 && m.value == f_yoo) || (z == 7 && (m.alpha[k] != FR || std::string(m.name) == "normalized schlick"))) { c.trivial = true; return; } } std::vector<int> a(n); for(int j=0;j<n;++j) a[j] = b % m.alpha[j].size();
  NF f = make(m, ny, in); if(!c.check((bool)f, std::string("missing ") + m.name, m.plugin)) return; vec q = pvec(m, ny, a); int t = m.np*m.lobes; for(int i=0;i<(k < t ? ny : 1);++i) { double& x = q[k < t ? index(m, ny, i, k) : t*ny + k - t]; x = z < 7 ? x*F[z] : F[z]; }
  f->setParameters(q); const auto& D = dirs(false); std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in]; for(size_t v=0;v<D.size();v+=2) for(size_t l=1;l<D.size();l+=2) compare(c, *f, coords(in, Pair{D[v],D[l]}), m.jtol, m.name, w + " at " + geo::ps(Pair{D[v],D[l]}));
}
// longer sums, every pattern of fixed parts
static void scen_many(mc::Ctx& c) {
  static const std::vector<int> PICK{ 0, 1, 8, 14, 17, 3, 7, 20, 4 }; int n = 3 + c.pick(c.thorough ? 4 : 3, "parts"), first = c.pick(3, "first"), pat = c.pick(1 << n, "fixed"), ny = c.flag("channels") ? 3 : 1; c.tag("many"); std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as; std::string desc;
  for(int k=0;k<n;++k) { const Model& m = models()[PICK[(2*first + k*(1 + first)) % PICK.size()]]; NF f = make(m, ny, input(m, 0)); if(!c.check((bool)f, "missing part", m.name)) return; f->setParameters(pvec(m, ny, std::vector<int>(m.np*m.lobes+m.extra, k % 2))); bool fx = pat >> k & 1; fs.push_back(f); as.push_back(arguments::create_arguments(fx ? "--fixed" : "--free")); desc += std::string(m.name) + (fx ? " fixed, " : ", "); }
  NF f(new compound_function(fs, as)); int in = -1; for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == f->parametrization().input_parametrization()) in = k; if(!c.check(in >= 0, "no parametrization", desc)) return; const auto& D = dirs(false); for(size_t k=1;k<D.size();k+=6) compare(c, *f, coords(in, Pair{D[k], D[(k*5 + 3) % D.size()]}), 1e-4, "compound", desc);
}
// sums and products of models, with fixed parts
static void scen_combined(mc::Ctx& c) {
  static const std::vector<int> PICK{ 0, 1, 3, 4, 7, 8, 14, 17, 18, 20, 22 }; bool prod = c.flag("product"); int n = prod ? 2 : 1 + c.pick(c.thorough ? 3 : 2, "parts"); int ny = c.flag("channels") ? 3 : 1; std::string name = prod ? "product" : "compound", desc; c.tag(name);
  std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as; std::vector<bool> fixed;
  for(int k=0;k<n;++k) { const Model& m = models()[c.of(PICK, "part")]; int in = input(m, 0); NF f = make(m, ny, in); if(!c.check((bool)f, "missing part", m.name)) return; f->setParameters(pvec(m, ny, std::vector<int>(m.np*m.lobes+m.extra, k % 2))); bool fx = c.flag("fixed"); fs.push_back(f); fixed.push_back(fx); as.push_back(arguments::create_arguments(fx ? "--fixed" : "--free")); desc += std::string(m.name) + (fx ? " fixed, " : ", "); }
  ptr<nonlinear_function> f; if(prod) f = ptr<nonlinear_function>(new product_function(fs[0], fs[1], fixed[0], fixed[1])); else f = ptr<nonlinear_function>(new compound_function(fs, as));
  int in = -1; for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == f->parametrization().input_parametrization()) in = k; if(!c.check(in >= 0, "no parametrization", desc)) return;
  const auto& D = dirs(false); V3 v = c.of(D, "view"); for(auto& l : D) compare(c, *f, coords(in, Pair{v,l}), 1e-4, name, desc + " at " + geo::ps(Pair{v,l}));
}
MC_MAIN({"models", scen_models, 4, 20}, {"sweep", scen_sweep, 4, 60}, {"grid", scen_grid, 3, 60}, {"wide", scen_wide, 3, 60}, {"far", scen_far, 4, 20}, {"many", scen_many, 3, 60}, {"combined", scen_combined, 4, 20})
