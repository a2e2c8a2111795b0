// P06: binary data files: bit identity, and every cut and header damage.
#include "dataio.h"
static double fromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static const std::vector<double> V{ 0.0, -0.0, 1.0, 1.0/3, fromBits(0x3ff0000000000023ull), fromBits(0x2323232323232323ull), fromBits(0x0a0a0a0a0a0a0a0aull), fromBits(0x3ff00d0a1a0d0a00ull),
  std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 5e-324, 1.7e308, fromBits(0x2320202020202020ull), fromBits(0x0a41544c41204e45ull) };
struct Spec { int nx, ny, n, kind; params::input in; params::output out; std::vector<double> a; int width() const { return nx + ny + kind*ny; } };
static ptr<data> build(const Spec& s) {
  double* a = new double[std::max((size_t)1, s.a.size())]; std::copy(s.a.begin(), s.a.end(), a);
  return ptr<data>(new VS(parameters(s.nx, s.ny, s.in, s.out), s.n, std::shared_ptr<double>(a, [](double* q){ delete[] q; }), (VS::ci_kind)s.kind)); }
static std::string write(const ptr<data>& d) { std::ostringstream o; save_data_as_binary(o, *d); return o.str(); }
// is the loaded object exactly the specified one?  empty string if so
static std::string differs(const ptr<data>& d, const Spec& s, bool par = true) {
  if(!d) return "null"; const VS* v = dynamic_cast<const VS*>(d.get()); if(!v) return "not a vertical segment";
  const parameters& p = d->parametrization();
  if(d->size() != s.n) return "size " + std::to_string(d->size());
  if(p.dimX() != s.nx || p.dimY() != s.ny) return "dimensions";
  if(par && (p.input_parametrization() != s.in || p.output_parametrization() != s.out)) return "parametrization";
  if((int)v->confidence_interval_kind() != s.kind) return "interval kind";
  auto m = v->matrix_view(); if(m.rows() != s.n || m.cols() != s.width()) return "shape";
  for(int i=0;i<s.n;++i) for(int k=0;k<s.width();++k) if(!bits(m(i,k), s.a[i*s.width()+k])) return "sample " + std::to_string(i) + " column " + std::to_string(k);
  for(int i=0;i<s.n;++i) { vec g = d->get(i); if(g.size() != s.nx + s.ny) return "row size"; for(int k=0;k<s.nx+s.ny;++k) if(!bits(g[k], s.a[i*s.width()+k])) return "get"; }
  for(int k=0;k<s.nx && s.n;++k) { bool fin = true; double mn = 1e309, mx = -1e309; for(int i=0;i<s.n;++i) { double q = s.a[i*s.width()+k]; fin = fin && std::isfinite(q); mn = std::min(mn,q); mx = std::max(mx,q); }
    if(fin && (d->min()[k] != mn || d->max()[k] != mx)) return "bounds"; }
  return "";
}
static std::string hex(const std::string& s) { return std::to_string(s.size()) + " bytes"; }
static ptr<data> load(const std::string& s, int how) {
  if(how == 3) { std::string f = std::string(getenv("VERIF_SCRATCH")) + "/p06." + std::to_string(getpid()); { std::ofstream o(f.c_str(), std::ios::binary); o << s; } mc::dirty(); ptr<data> d = plugins_manager::load_data(f, "", arguments()); unlink(f.c_str()); return d; }
  std::istringstream in(s); mc::dirty(); if(how == 0) return plugins_manager::load_data("vertical_segment", in, arguments()); if(how == 1) return plugins_manager::load_data("", in, arguments());
  arguments h = arguments::parse_header(in); return ptr<data>(load_data_from_binary(in, h));
}
static void round(mc::Ctx& c, const Spec& s, int how, const std::string& w) {
  ptr<data> d = build(s); std::string b = write(d); std::string e;
  try { e = differs(load(b, how), s); } catch(std::exception& x) { e = std::string("refused: ") + x.what(); }
  c.check(e.empty(), "round trip", w + ": " + e); c.state(b); c.outcome(b);
  if(e.empty()) c.check(write(load(b, how)) == b, "second save differs", w);
}
static void scen_patterns(mc::Ctx& c) {
  Spec s; int sh = c.pick(4, "shape"); static const int X[] = {1,1,2,1}, Y[] = {1,1,1,2}, N[] = {1,1,1,1}, K[] = {0,2,0,0}; s.nx = X[sh]; s.ny = Y[sh]; s.n = N[sh]; s.kind = K[sh]; s.in = params::RUSIN_TH_TD; s.out = params::RGB_COLOR;
  int w = s.width(); for(int i=0;i<w;++i) s.a.push_back(i < 3 || c.thorough ? V[c.pick((int)V.size(), "bits")] : V[(i*5) % V.size()]);
  c.tag("patterns"); round(c, s, 0, "pattern");
}
static void scen_shapes(mc::Ctx& c) {
  Spec s; s.nx = 1 + c.pick(6, "nx"); s.ny = 1 + c.pick(4, "ny"); s.n = c.pick(5, "n"); s.kind = c.pick(3, "kind"); s.in = params::CARTESIAN; s.out = params::ENERGY; int how = c.pick(4, "how");
  for(int i=0;i<s.n*s.width();++i) s.a.push_back(V[(i*7+3) % 8] + i); c.tag("shapes"); round(c, s, how, "shape");
}
static void scen_params(mc::Ctx& c) {
  auto i = c.of(INS, "in"); auto o = c.of(OUTS, "out"); Spec s; s.nx = 1; s.ny = 1; s.n = 2; s.kind = c.pick(3, "kind"); s.in = i.p; s.out = o.p; for(int k=0;k<2*s.width();++k) s.a.push_back(k); c.tag("params"); round(c, s, 0, std::string(i.n) + " " + o.n);
}
// non-segment data classes are written without intervals
struct plain : public data { std::vector<vec> d; plain(const parameters& p, int n) : data(p, n) {} vec get(int i) const { return d[i]; } vec value(const vec&) const { return vec(); } void set(int i, const vec& x) { d[i] = x; } };
static void scen_plain(mc::Ctx& c) {
  Spec s; s.nx = 1 + c.pick(3,"nx"); s.ny = 1 + c.pick(3,"ny"); s.n = c.pick(4,"n"); s.kind = 0; s.in = params::COS_TH; s.out = params::INV_STERADIAN; plain* p = new plain(parameters(s.nx,s.ny,s.in,s.out), s.n); ptr<data> d(p);
  for(int i=0;i<s.n;++i) { vec v(s.nx+s.ny); for(int k=0;k<v.size();++k) { v[k] = V[(i*3+k) % V.size()]; s.a.push_back(v[k]); } p->d.push_back(v); }
  c.tag("plain"); std::string b = write(d), e; try { e = differs(load(b, 0), s); } catch(std::exception& x) { e = x.what(); } c.check(e.empty(), "round trip plain", e); c.state(b); c.outcome(b);
}
static void judge(mc::Ctx& c, const std::string& b, const Spec& s, int how, const std::string& sig, const std::string& w, bool par = true) {
  std::string r; ptr<data> d; try { d = load(b, how); if(!d) r = "refused"; } catch(std::exception&) { r = "refused"; }
  if(r.empty()) { if(differs(d, s, par).empty()) r = "whole"; else if(d->size() == 0) r = "empty"; else r = "wrong"; }
  c.check(r != "wrong", sig, w + ": damaged file gives " + (d ? std::to_string(d->size()) : "") + " samples: " + (d ? differs(d, s, par) : "")); c.state(w); c.outcome(w + r);
}
static Spec sample(mc::Ctx& c) { Spec s; s.nx = 1 + c.pick(2,"nx"); s.ny = 1 + c.pick(3,"ny"); s.n = 1 + c.pick(3,"n"); s.kind = c.pick(3,"kind"); s.in = params::RUSIN_TH_TD; s.out = params::ENERGY; int fill = c.pick(4, "fill"); for(int i=0;i<s.n*s.width();++i) s.a.push_back(fill == 0 ? V[(i*7+3) % V.size()] : fill == 1 ? 0.0 : fill == 2 ? V[5] : fromBits(0x3f2e2e2e2e2e230aull)); /* the last one starts like an end marker */ return s; }
static void scen_cuts(mc::Ctx& c) {           // crash while writing: every prefix of the file
  Spec s = sample(c); std::string b = write(build(s)); int at = c.pick((int)b.size(), "cut"), how = c.pick(c.thorough ? 4 : 2, "how"); c.tag("cut");
  if(how == 1) how = 3; judge(c, b.substr(0, at), s, how, "cut", "cut at " + std::to_string(at) + " of " + std::to_string(b.size()));
}
static void scen_holes(mc::Ctx& c) {          // bytes lost in the middle, or stray bytes
  Spec s = sample(c); std::string b = write(build(s)); size_t p0 = b.find("#BEGIN_STREAM\n") + 14; int at = c.pick((int)(b.size() - p0), "at"), k = c.pick(3, "damage"); std::string d = b;
  if(k == 0) d.erase(p0 + at, 1); else if(k == 1) d.erase(p0 + at, 8); else d.insert(p0 + at, "x"); c.tag("hole");
  // the file must still say what it holds: a byte lost after the closing marker is harmless
  judge(c, d, s, 0, "lost or stray bytes", "damage " + std::to_string(k) + " at " + std::to_string(at));
}
static void scen_header(mc::Ctx& c) {         // each header line missing, doubled or changed
  Spec s = sample(c); std::string b = write(build(s)); size_t p0 = b.find("#BEGIN_STREAM\n"); std::vector<std::string> l; { std::istringstream is(b.substr(0, p0)); std::string x; while(std::getline(is, x)) l.push_back(x); }
  int at = c.pick((int)l.size(), "line"), k = c.pick(8, "damage"); std::string key = l[at].substr(0, l[at].find(' ')); std::string v = l[at].substr(l[at].find(' ')+1); bool par = key.find("PARAM") == std::string::npos;
  if(k == 0) l.erase(l.begin() + at); else if(k == 1) l[at] = key; else if(k == 2) l[at] = key + " 7"; else if(k == 3) l[at] = key + " big"; else if(k == 4) l[at] = key + " -1"; else if(k == 5) l[at] = key + " " + std::to_string(s.n - 1); else if(k == 6) l[at] = key + " 2 2"; else l[at] = key + " 1";
  if(k == 6 && key == "#DIM" && s.width() == 4 + s.kind*2) { c.trivial = true; return; }   // other dimensions, same columns: nothing contradicts them
  std::string d; for(auto& x : l) d += x + "\n"; d += b.substr(p0); c.tag("header");
  // a format, version, precision or byte order nobody wrote the content in, and sizes it does not have
  bool same = k && l[at] == key + " " + v, must = !same && (key == "#FORMAT" || key == "#PRECISION" || key == "#ENDIAN" || (key == "#SAMPLE_COUNT" && (k < 2 || k == 3 || atoi(l[at].substr(key.size()).c_str()) != s.n)) || key == "#DIM" || (key == "#VERSION" && k >= 2 && k != 3 && atoi(l[at].substr(key.size()).c_str()) != 0));
  if(must) { bool got = false; try { ptr<data> r = load(d, 0); got = r && r->size() > 0; } catch(std::exception&) {} c.check(!got, "header accepted " + key, "header line '" + (k ? l[at] : key + " removed") + "' is read as data"); }
  judge(c, d, s, 0, "header " + key, "header line '" + (k ? l[at] : key + " removed") + "'", par);
}
static void scen_large(mc::Ctx& c) {
  Spec s; s.n = MANY[c.pick((int)MANY.size(), "n")]; auto d = c.of(WIDE, "dim"); if(heavy(s.n, d)) { c.trivial = true; return; } s.nx = d.first; s.ny = d.second; s.kind = c.pick(3, "kind"); s.in = params::CARTESIAN; s.out = params::ENERGY; int how = c.pick(4, "how"), fill = c.pick(4, "values"); if(s.n > 1025 && (how == 1 || fill == 1) && !c.thorough) { c.trivial = true; return; }
  int w = s.width(); s.a.reserve(s.n*w); for(int i=0;i<s.n;++i) for(int k=0;k<w;++k) s.a.push_back(fill == 3 ? V[(i*7 + k*3) % V.size()] : cell(i, k, fill)); c.tag("large"); round(c, s, how, std::to_string(s.n) + " samples");
  if(fill == 0) { std::string b = write(build(s)); static const std::vector<int> CUT{ 1, 2, 15, 24, 4096 }; for(int q : CUT) judge(c, b.substr(0, b.size() - std::min((size_t)q, b.size())), s, how, "cut", std::to_string(q) + " bytes missing of a long file"); judge(c, b.substr(0, b.size()/2), s, how, "cut", "half of a long file"); }
}
MC_MAIN({"patterns", scen_patterns, 3, 20}, {"shapes", scen_shapes, 3, 20}, {"params", scen_params, 2, 20}, {"plain", scen_plain, 2, 20}, {"cuts", scen_cuts, 4, 20}, {"holes", scen_holes, 4, 20}, {"header", scen_header, 3, 20}, {"large", scen_large, 3, 60})
