// Trees of sums and products of models with their reference values; shared by P11 and P15.
#pragma once
#include "models.h"
using namespace mdl;
// reference tree
struct Node { int kind; int model; bool fixed; bool fixed1, fixed2; std::vector<Node> kids; int in; vec q; };   // kind 0 model, 1 sum, 2 product (kids[0]*kids[1])
static int index_of(params::input p) { for(int k=0;k<geo::NPAR;++k) if(geo::ALL[k] == p) return k; return -1; }
static int part_in(int model, int given) { const Model& m = models()[model]; return m.in >= 0 ? m.in : given; }
static void place(Node& n, int given) { for(auto& k : n.kids) place(k, given); if(n.kind == 0) n.in = part_in(n.model, given); else { n.in = n.kids[0].in; for(auto& k : n.kids) if(k.in != n.in) { n.in = CART; break; } } }
static double eval(const Node& n, int ny, int i, const Pair& p) {        // p: the pair the node's own coordinates denote
  auto sub = [&](const Node& k) { Pair s = p; if(k.in != CART) { auto co = geo::from(k.in, p); double x[6]; for(size_t j=0;j<co.size();++j) x[j] = co[j].v; s = geo::to(k.in, x); } return eval(k, ny, i, s); };
  if(n.kind == 0) { const Model& m = models()[n.model]; auto co = geo::from(n.in, p); double x[6]; for(size_t j=0;j<co.size();++j) x[j] = co[j].v; return oracle(m, ny, i, n.q, p, x); }
  if(n.kind == 1) { double r = 0; for(auto& k : n.kids) r += sub(k); return r; }
  return sub(n.kids[0]) * sub(n.kids[1]);
}
// free parameters in order; every model gets its own values
static void params_of(const Node& n, std::vector<double>& r, bool fixed) { if(fixed) return; if(n.kind == 0) { for(int i=0;i<n.q.size();++i) r.push_back(n.q[i]); return; }
  for(size_t k=0;k<n.kids.size();++k) params_of(n.kids[k], r, n.kind == 1 ? n.kids[k].fixed : k == 0 ? n.fixed1 : n.fixed2); }
static void bounds_of(const Node& n, const nonlinear_function* f, std::vector<double>& lo, std::vector<double>& hi) {
  if(n.kind == 0) { vec a = f->getParametersMin(), b = f->getParametersMax(); for(int i=0;i<a.size();++i) { lo.push_back(a[i]); hi.push_back(b[i]); } return; }
  const compound_function* cf = dynamic_cast<const compound_function*>(f); const product_function* pf = dynamic_cast<const product_function*>(f);
  for(size_t k=0;k<n.kids.size();++k) if(!(n.kind == 1 ? n.kids[k].fixed : k == 0 ? n.fixed1 : n.fixed2)) bounds_of(n.kids[k], n.kind == 1 ? (*cf)[k] : k == 0 ? pf->first() : pf->second(), lo, hi);
}
static bool fill(mc::Ctx& c, Node& n, nonlinear_function* f, int ny, int& salt, const std::string& w) {          // sets every leaf directly and checks the structure
  if(n.kind == 0) { const Model& m = models()[n.model]; std::vector<int> a(m.np*m.lobes + m.extra, salt % 2); n.q = pvec(m, ny, a); for(int i=0;i<n.q.size();++i) n.q[i] *= 1 + 0.01*salt; ++salt;
    if(!c.check(f && !dynamic_cast<compound_function*>(f) && !dynamic_cast<product_function*>(f) && f->nbParameters() == n.q.size(), "structure", w)) return false; f->setParameters(n.q); return true; }
  compound_function* cf = dynamic_cast<compound_function*>(f); product_function* pf = dynamic_cast<product_function*>(f);
  if(n.kind == 1) { if(!c.check(cf && cf->size() == n.kids.size(), "structure", w)) return false; for(size_t k=0;k<n.kids.size();++k) if(!fill(c, n.kids[k], (*cf)[k], ny, salt, w)) return false; return true; }
  if(!c.check(pf != 0, "structure", w)) return false; return fill(c, n.kids[0], pf->first(), ny, salt, w) && fill(c, n.kids[1], pf->second(), ny, salt, w);
}
static void change(Node& n, bool fixed, const vec& q, int& at) { if(fixed) return; if(n.kind == 0) { for(int i=0;i<n.q.size();++i) n.q[i] = q[at++]; return; } for(size_t k=0;k<n.kids.size();++k) change(n.kids[k], n.kind == 1 ? n.kids[k].fixed : k == 0 ? n.fixed1 : n.fixed2, q, at); }
static void values(mc::Ctx& c, const Node& n, nonlinear_function& f, int ny, const std::string& w) {
  static const std::vector<Pair> Q{ { geo::sph(0.4,0.3), geo::sph(0.7,2.5) }, { geo::sph(1.1,-1), geo::sph(0.2,1) }, { V3{0,0,1}, geo::sph(0.9,3) }, { geo::sph(0.5,1), geo::sph(0.5,1) }, { geo::sph(1.3,0.2), geo::sph(1.2,0.2+M_PI) } };
  for(auto& p0 : Q) { auto co = geo::from(n.in, p0); vec x(geo::DIMS[n.in]); for(int k=0;k<x.size();++k) x[k] = co[k].v; Pair p = n.in == CART ? p0 : geo::to(n.in, &x[0]); vec v = f.value(x), v2 = f(x); if(!c.check(v.size() == ny && v2.size() == ny, "size", w)) return;
    for(int i=0;i<ny;++i) { double e = eval(n, ny, i, p); c.check(mc::close(v[i], e, 2e-6, 1e-9), "value", w + " channel " + std::to_string(i) + " at " + geo::ps(p) + " is " + mc::dstr(v[i]) + " not " + mc::dstr(e)); c.check(v[i] == v2[i], "operator()", w); c.outcome((double)(float)e); } }
}
static void judge(mc::Ctx& c, Node& n, nonlinear_function* f, int ny, const std::string& w) {
  int salt = 0; if(!fill(c, n, f, ny, salt, w)) return; const parameters& pa = f->parametrization();
  if(!c.check(pa.input_parametrization() == geo::ALL[n.in] && pa.dimX() == geo::DIMS[n.in] && pa.dimY() == ny && pa.output_parametrization() == params::INV_STERADIAN, "parametrization", w + " is " + params::get_name(pa.input_parametrization()))) return;
  values(c, n, *f, ny, w); std::vector<double> q, lo, hi; params_of(n, q, false); bounds_of(n, f, lo, hi);
  if(!c.check(f->nbParameters() == (int)q.size() && f->parameters().size() == (int)q.size() && f->getParametersMin().size() == (int)q.size() && f->getParametersMax().size() == (int)q.size(), "parameter count", w + " " + std::to_string(f->nbParameters()) + " not " + std::to_string(q.size()))) return;
  vec g = f->parameters(), mn = f->getParametersMin(), mx = f->getParametersMax(); for(size_t i=0;i<q.size();++i) { c.check(g[i] == q[i], "parameters", w + " " + std::to_string(i)); c.check(mn[i] == lo[i] && mx[i] == hi[i], "bounds", w + " " + std::to_string(i)); }
  vec r = g; for(int i=0;i<r.size();++i) r[i] *= 1.03 + 0.001*i; f->setParameters(r); int at = 0; change(n, false, r, at); vec g2 = f->parameters(); for(int i=0;i<r.size();++i) c.check(g2[i] == r[i], "set parameters", w); values(c, n, *f, ny, w + " after setParameters"); c.state(w + std::to_string(ny));
}
static Node leaf(int m) { Node n; n.kind = 0; n.model = m; n.fixed = n.fixed1 = n.fixed2 = false; return n; }
static const std::vector<int> LOBES{ 0, 1, 2, 3, 4, 5, 7, 10, 15, 16, 21, 22, 17 }, FRES{ 17, 18, 20, 21 };
static const std::vector<int> GIVEN{ 1 /*COS_TK*/, 22, 20 };
// --func [a --fixed, b --fresnel [c] --fixed-lobe --fixed-fresnel, ...] and --func a --fresnel b in all orders
static Node cli_part(mc::Ctx& c, std::string& s, bool list, bool quick) {
  Node l = leaf(c.of(quick ? std::vector<int>{0, 1, 7, 17} : LOBES, "lobe")); s = models()[l.model].plugin; int fr = c.pick(3, "fresnel"); 
  if(fr) { Node f = leaf(c.of(quick ? std::vector<int>{17, 20} : FRES, "fresnel plugin")); Node p; p.kind = 2; p.fixed = false; p.kids = { l, f }; p.fixed1 = c.flag("fixed lobe"); p.fixed2 = c.flag("fixed fresnel"); std::string fs = models()[f.model].plugin;
    std::string a = "--fresnel " + (fr == 1 ? fs : "[" + fs + "]"), b = std::string(p.fixed1 ? " --fixed-lobe" : "") + (p.fixed2 ? " --fixed-fresnel" : ""); s += list || c.flag("order") ? " " + a + b : b + " " + a; l = p; }
  if(list && c.flag("fixed")) { l.fixed = true; s += " --fixed"; }
  return l;
}
