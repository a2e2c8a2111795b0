// P05: save as text, load, compare; printing what was loaded gives the same text again.
#include "dataio.h"
static const std::vector<double> V{ 0, 1, -1.5, 1.0/3, 123456789.123456, 2e-7, 1e-300, -1e200, 0.1, -2.0/3e5 };
static ptr<data> build(const Table& t, int kind, VS** out = 0) {
  parameters p(t.nx, t.ny, t.in, t.out); int n = (int)t.x.size(); VS::ci_kind k = (VS::ci_kind)kind;
  int w = t.nx + t.ny + kind * t.ny; double* a = new double[std::max(1, n*w)];
  for(int i=0;i<n;++i) { double* r = a + i*w; for(double v : t.x[i]) *r++ = v; for(double v : t.y[i]) *r++ = v; for(int j=0;j<kind*t.ny;++j) *r++ = 0.5*j+i; }
  VS* v = new VS(p, n, std::shared_ptr<double>(a, [](double* q){ delete[] q; }), k); if(out) *out = v; return ptr<data>(v);
}
struct plain : public data {      // any other data class goes through the same writer
  std::vector<vec> d; plain(const parameters& p, const Table& t) : data(p, (int)t.x.size()) { for(size_t i=0;i<t.x.size();++i) { vec v(t.nx+t.ny); int k=0; for(double q : t.x[i]) v[k++]=q; for(double q : t.y[i]) v[k++]=q; d.push_back(v); } }
  vec get(int i) const { return d[i]; } vec value(const vec&) const { return vec(); } void set(int i, const vec& x) { d[i] = x; }
};
static void roundtrip(mc::Ctx& c, const ptr<data>& d, const Table& t, bool file, const std::string& w) {
  std::string s; 
  if(file) { std::string f = std::string(getenv("VERIF_SCRATCH")) + "/p05." + std::to_string(getpid()); { std::ofstream junk(f.c_str()); junk << std::string(3000, '7'); } d->save(f); std::ifstream in(f.c_str()); std::stringstream o; o << in.rdbuf(); s = o.str();
    ptr<data> l = plugins_manager::load_data(f, "vertical_segment", arguments()); unlink(f.c_str()); observe(c, l, t, w, false, 2e-15*5); }
  else { std::ostringstream o; save_data_as_text(o, *d); s = o.str(); observe(c, load_text(s), t, w, false, 2e-15*5); }
  ptr<data> l = load_text(s); if(!l) return;
  std::ostringstream o; save_data_as_text(o, *l); bool again = o.str() == s; c.check(again, "second save differs", again || s.size() > 4000 ? w : w + " '" + s + "' then '" + o.str() + "'");
  c.state(s); c.outcome(s);
}
static void scen_values(mc::Ctx& c) {
  Table t; int sh = c.pick(5, "shape"); static const int X[] = {1,2,1,1,3}, Y[] = {1,1,2,3,3}, N[] = {2,1,1,1,0}; t.nx = X[sh]; t.ny = Y[sh];
  bool thorough = c.thorough; int n = N[sh];
  for(int i=0;i<n;++i) { std::vector<double> x, y; for(int k=0;k<t.nx+t.ny;++k) { double v = V[c.pick(thorough || i == 0 ? (int)V.size() : 4, "v")]; (k<t.nx?x:y).push_back(v); } t.x.push_back(x); t.y.push_back(y); }
  c.tag("values"); roundtrip(c, build(t, 0), t, false, "values");
}
static void scen_shapes(mc::Ctx& c) {
  Table t; t.nx = 1 + c.pick(6, "nx"); t.ny = 1 + c.pick(4, "ny"); int n = c.pick(4, "n"), kind = c.pick(4, "kind"); bool file = c.flag("file");
  for(int i=0;i<n;++i) { std::vector<double> x, y; for(int k=0;k<t.nx;++k) x.push_back(V[(i*3+k*7) % V.size()]); for(int k=0;k<t.ny;++k) y.push_back(V[(i*7+k*3+1) % V.size()] + i); t.x.push_back(x); t.y.push_back(y); }
  ptr<data> d = kind == 3 ? ptr<data>(new plain(parameters(t.nx, t.ny, t.in, t.out), t)) : build(t, kind); c.tag("shapes"); roundtrip(c, d, t, file, "shape");
}
static void scen_params(mc::Ctx& c) {
  auto i = c.of(INS, "in"); auto o = c.of(OUTS, "out"); Table t; t.in = i.p; t.out = o.p; t.nx = 2; t.ny = 3; t.x.push_back({1,2}); t.y.push_back({3,4,5}); bool file = c.flag("file");
  c.tag("params"); roundtrip(c, build(t, 0), t, file, std::string(i.n) + " " + o.n);
}
// histories of set before saving: what is written is what the data holds
static void scen_histories(mc::Ctx& c) {
  Table t; t.nx = 1; t.ny = 2; for(int i=0;i<3;++i) { t.x.push_back({(double)i}); t.y.push_back({0.5*i, 2.0*i}); } int kind = c.pick(3, "kind"); VS* v; ptr<data> d = build(t, kind, &v);
  // the bounds are those of the coordinates in the file
  for(int s=0;s<(c.thorough?4:3);++s) { int i = c.pick(3, "sample"); double q = V[c.pick(5, "v")]; vec r(3); r << q, q + 1, q - 2; v->set(i, r); t.x[i] = {r[0]}; t.y[i] = {r[1], r[2]}; }
  c.tag("histories"); roundtrip(c, d, t, false, "history");
}
static void scen_large(mc::Ctx& c) {
  Table t; int n = MANY[c.pick((int)MANY.size() - (c.thorough ? 0 : 2), "n")]; auto d = c.of(WIDE, "dim"); if(heavy(n, d)) { c.trivial = true; return; } t.nx = d.first; t.ny = d.second; int kind = c.pick(4, "kind"), fill = c.pick(3, "values"); bool file = c.flag("file"); if(n > 1025 && (kind == 2) + (fill == 1) + file > (c.thorough ? 3 : 1)) { c.trivial = true; return; }
  std::vector<double> x(t.nx), y(t.ny); for(int i=0;i<n;++i) { for(int k=0;k<t.nx;++k) x[k] = cell(i, k, fill); for(int k=0;k<t.ny;++k) y[k] = cell(i, k + 3, fill); t.x.push_back(x); t.y.push_back(y); }
  ptr<data> p = kind == 3 ? ptr<data>(new plain(parameters(t.nx, t.ny, t.in, t.out), t)) : build(t, kind); c.tag("large"); roundtrip(c, p, t, file, std::to_string(n) + " samples");
}
MC_MAIN({"values", scen_values, 3, 20}, {"shapes", scen_shapes, 3, 20}, {"params", scen_params, 2, 20}, {"histories", scen_histories, 3, 20}, {"large", scen_large, 3, 60})
