// P04: text data files against a reference reader of the documented format.
#include "dataio.h"
#include "geom.h"
#include <sys/resource.h>
#include <signal.h>
static const std::vector<const char*> NUM{ "0", "1", "-1.5", "2e-3", ".25", "12345.678901234567", "+3", "1E2" };
struct Dim { int x, y; };
static const std::vector<Dim> DIMS{ {1,1},{2,1},{1,2},{3,3} };
static std::string dims(const Dim& d) { return "#DIM " + std::to_string(d.x) + " " + std::to_string(d.y) + "\n"; }
static std::string num(int row, int col) { return NUM[(row*5 + col*3 + row*col) % NUM.size()]; }
static double val(const std::string& s) { return strtod(s.c_str(), 0); }
static void yrow(Table& t, const std::vector<double>& x, const std::vector<double>& y, double dt = 0.1) {
  t.x.push_back(x); t.y.push_back(y); std::vector<double> l, h;
  for(double v : y) { l.push_back(v-dt); h.push_back(v+dt); } t.lo.push_back(l); t.hi.push_back(h);
}
// layout: where comments, blank lines, separators and line ends may appear
static void scen_layout(mc::Ctx& c) {
  Dim d = c.of(DIMS, "dim"); int n = c.pick(3, "samples"); if(d.x == 3) n = std::min(n, 1);
  static const std::vector<std::string> SEP{ " ", "\t", "   " }, EOL{ "\n", "\r\n", " \n", "\t\n" };
  static const std::vector<std::string> JUNK{ "", "# a comment 1 2 3\n", "\n", "#\n", "  \n", "# DIM 9 9\n# PARAM_IN COS_TH\n", "\r\n" };
  std::string sep = c.of(SEP, "separator"), eol = c.of(EOL, "eol");
  int hdr = c.pick(4, "header order"); bool end = c.flag("end header"), start = c.flag("begin header");
  static const std::vector<std::string> KV{ " ", "\t", "  ", " \t " }, HE{ "\n", "\r\n" }; std::string kv = c.of(KV, "key separator"), he = c.of(HE, "header eol"), tail = c.flag("remark after data") ? " # 9 remark" : ""; if((kv != " ") + (he != "\n") + !tail.empty() + (sep != " ") + (eol != "\n") > (c.thorough ? 3 : 1)) { c.trivial = true; return; }
  std::string D = "#DIM" + kv + std::to_string(d.x) + " " + std::to_string(d.y) + he, I = "#PARAM_IN" + kv + "COS_TH" + he, O = "#PARAM_OUT" + kv + "ENERGY" + he, s;
  if(start) s += "#ALTA BEGIN HEADER\n";
  if(hdr == 0) s += D + I + O; else if(hdr == 1) s += O + "# remark 5\n" + I + D; else if(hdr == 2) s += I + "#VS 0\n" + D + "#OTHER thing\n" + O; else s += "# DIM 7 7\n" + D + O + I;
  if(end) s += "#ALTA END HEADER\n";
  Table t; t.nx = d.x; t.ny = d.y; t.in = params::COS_TH; t.out = params::ENERGY;
  for(int i=0;i<n;++i) {
    s += JUNK[c.pick(i == 0 && !end ? 2 : 7, "junk")];
    std::vector<double> x, y;
    for(int k=0;k<d.x+d.y;++k) { std::string v = num(i,k); s += (k ? sep : std::string("")) + v; (k<d.x?x:y).push_back(val(v)); }
    s += tail; if(i+1 == n && c.flag("no final newline")) {} else s += eol;
    yrow(t, x, y);
  }
  if(n == 0 || s[s.size()-1] == '\n') s += JUNK[c.pick(n == 0 && !end ? 2 : 7, "junk")];
  c.tag("layout"); observe(c, load_text(s), t, "file '" + s + "'"); c.state(s); c.outcome(s);
}
// every number spelling in every column
static void scen_numbers(mc::Ctx& c) {
  static const std::vector<const char*> N{ "0", "-0", "1", "-1.5", "2e-3", ".25", "3.", "+3", "1E2", "1e+2", "12345.678901234567", "0.1", "1e-300", "3.4e38", "-3.4e38", "1e39", "-1e300", "007", "0.30000000000000004" };
  Dim d = DIMS[c.pick(3, "dim")]; Table t; t.nx = d.x; t.ny = d.y; t.in = params::UNKNOWN_INPUT; t.out = params::UNKNOWN_OUTPUT;
  std::string s = dims(d); std::vector<double> x, y;
  for(int k=0;k<d.x+d.y;++k) { std::string v = c.of(N, "number"); s += v + " "; (k<d.x?x:y).push_back(val(v)); }
  yrow(t, x, y); s += "\n"; c.tag("numbers"); observe(c, load_text(s), t, s); c.state(s); c.outcome(s);
}
// every parametrization name, through a stream and through a file
static void scen_params(mc::Ctx& c) {
  int i = c.pick((int)INS.size(), "in"), o = c.pick((int)OUTS.size(), "out"); bool file = c.flag("file"), notype = c.flag("default type");
  Table t; t.in = INS[i].p; t.out = OUTS[o].p; t.nx = 2; t.ny = 2; yrow(t, {0.5, 0.25}, {1, 2});
  std::string s = "#DIM 2 2\n#PARAM_IN " + std::string(INS[i].n) + "\n#PARAM_OUT " + OUTS[o].n + "\n0.5 0.25 1 2\n";
  ptr<data> d; std::string ty = notype ? "" : "vertical_segment"; c.tag("params");
  if(file) { std::string f = std::string(getenv("VERIF_SCRATCH")) + "/p04." + std::to_string(getpid()); { std::ofstream os(f.c_str()); os << s; } mc::dirty(); d = plugins_manager::load_data(f, ty, arguments()); unlink(f.c_str()); }
  else { std::istringstream in(s); mc::dirty(); d = plugins_manager::load_data(ty, in, arguments()); }
  observe(c, d, t, s); c.state(s); c.outcome(s);
}
// interval columns: kinds per output channel and the --dt options
static void scen_intervals(mc::Ctx& c) {
  int ny = 1 + c.pick(3, "ny"), nx = 1 + c.pick(2, "nx"); std::vector<int> k(ny, 0); int given = c.pick(ny + 2, "kinds given");   // ny+1: no #VS line at all
  std::string vs; for(int i=0;i<ny;++i) if(i < given && given <= ny) { k[i] = c.pick(3, "kind"); vs += " " + std::to_string(k[i]); }
  std::string s = "#DIM " + std::to_string(nx) + " " + std::to_string(ny) + "\n" + (given <= ny && given > 0 ? "#VS" + vs + "\n" : "");
  static const std::vector<double> Y{ 1.0, 0.05, 3.0, 0.0 }; int opt = c.pick(4, "mode"); bool pos = c.flag("positive"), dtopt = c.flag("dt");
  arguments a; double dt = 0.1;
  if(dtopt) { a.update("dt", "0.25"); dt = 0.25; }
  if(opt == 1) a.update("dt-relative", ""); else if(opt == 2) a.update("dt-max", ""); else if(opt == 3) { a.update("dt-relative", ""); a.update("dt-max", ""); }
  if(pos) a.update("dt-positive", "");
  Table t; t.nx = nx; t.ny = ny; int y0 = c.pick(5, "values");
  for(int r=0;r<2;++r) {
    std::vector<double> x, y, l, h; std::string line, iv;
    for(int i=0;i<nx;++i) { x.push_back(0.5*r + i); line += mc::dstr(x.back()) + " "; }
    for(int i=0;i<ny;++i) {
      double v = y0 == 4 ? -0.5 - i : Y[(y0 + i + r) % 4]; line += mc::dstr(v) + " "; double m = dt, M = dt;
      if(k[i] == 1) { m = M = 0.125*(i+1+r); iv += mc::dstr(m) + " "; }
      if(k[i] == 2) { m = 0.0625*(i+1+r); M = 0.5*(i+1) + r; iv += mc::dstr(m) + " " + mc::dstr(M) + " "; }
      double lo, hi;
      if(opt == 1 || opt == 3) { lo = v*(1.0-m); hi = v*(1.0+M); }
      else if(opt == 2) { lo = v - std::max(m*v, m); hi = v + std::max(M*v, M); }
      else { lo = v-m; hi = v+M; }
      if(pos) { v = std::max(v, 0.0); lo = std::max(lo, 0.0); hi = std::max(hi, 0.0); }
      y.push_back(v); l.push_back(lo); h.push_back(hi);
    }
    s += line + iv + "\n"; t.x.push_back(x); t.y.push_back(y); t.lo.push_back(l); t.hi.push_back(h);
  }
  c.tag("intervals"); std::string w = s + " opt " + std::to_string(opt) + (pos?" positive":"") + (dtopt?" dt":""); observe(c, load_text(s, a), t, w); c.state(w); c.outcome(w);
}
// --min --max --ymin --ymax keep exactly the lines inside
static const double FM = std::numeric_limits<float>::infinity();
static std::vector<double> bound(mc::Ctx& c, arguments& a, const char* key, int n, double dflt, std::string& w, bool few) {
  static const std::vector<double> B{ 0, 1, 0.5 };
  std::vector<double> r(n, dflt); int m = c.pick(few ? 2 : 3, key);
  if(m == 1) { double b = B[c.pick(few ? 2 : 3, "bound")]; r.assign(n, b); a.update(key, mc::dstr(b)); w += std::string(" --") + key + " " + mc::dstr(b); }
  if(m == 2) { std::string s = "["; for(int i=0;i<n;++i) { r[i] = B[c.pick(3, "bound")]; s += (i ? ", " : "") + mc::dstr(r[i]); } s += "]"; a.update(key, s); w += std::string(" --") + key + " " + s; }
  return r;
}
static void scen_filters(mc::Ctx& c) {
  Dim d = DIMS[c.pick(3, "dim")]; arguments a; std::string w, s = dims(d); bool few = d.x + d.y > 2 && !c.thorough;
  std::vector<double> mn = bound(c,a,"min",d.x,-FM,w,few&&d.x==1), mx = bound(c,a,"max",d.x,FM,w,few&&d.x==1), ymn = bound(c,a,"ymin",d.y,-FM,w,few&&d.y==1), ymx = bound(c,a,"ymax",d.y,FM,w,few&&d.y==1);
  Table t; t.nx = d.x; t.ny = d.y; static const double V[] = { -1, 0, 0.5, 1, 2 };
  int n = 1; for(int k=0;k<d.x+d.y;++k) n *= 5;
  for(int i=0;i<n;++i) {                       // every combination of cell values is one line
    std::vector<double> x, y; int q = i; bool in = true;
    for(int k=0;k<d.x+d.y;++k) { double v = V[(q + k) % 5]; q /= 5; s += mc::dstr(v) + " "; (k<d.x?x:y).push_back(v);
      if(k<d.x) in = in && v >= mn[k] && v <= mx[k]; else in = in && v >= ymn[k-d.x] && v <= ymx[k-d.x]; }
    s += "\n"; if(in) yrow(t, x, y);
  }
  c.tag("filters"); observe(c, load_text(s, a), t, "filters" + w); c.state(w + s.substr(0,8)); c.outcome(w); c.outcome((int)t.x.size());
}
// bounds of the coordinates over short sequences of samples
static void scen_bounds(mc::Ctx& c) {
  static const std::vector<double> V{ -2, 0, 1, 3 }; int nx = 1 + c.pick(2, "nx"), n = 1 + c.pick(nx == 1 ? 5 : (c.thorough ? 4 : 3), "samples"); bool f = c.flag("filter");
  Table t; t.nx = nx; t.ny = 1; std::string s = "#DIM " + std::to_string(nx) + " 1\n"; arguments a; if(f) a.update("min", "0");
  for(int i=0;i<n;++i) { std::vector<double> x; bool in = true; for(int k=0;k<nx;++k) { x.push_back(c.of(V, "x")); s += mc::dstr(x.back()) + " "; if(f && x.back() < 0) in = false; } s += "7\n"; if(in) yrow(t, x, {7}); }
  c.tag("bounds"); observe(c, load_text(s, a), t, s); c.state(s); c.outcome(s);
}
// files that do not say what a sample is are refused, not guessed
static void scen_malformed(mc::Ctx& c) {
  int kind = c.pick(3, "kind"); std::string s; c.tag("malformed");
  if(kind == 0) {          // one line short or unreadable at one column
    Dim d = c.of(DIMS, "dim"); int v = c.pick(3, "vs"), n = 1 + c.pick(3, "lines"), bad = c.pick(n, "bad line"); int cols = d.x + d.y + (v == 1 ? d.y : v == 2 ? 2*d.y : 0), col = c.pick(cols, "column"); bool word = c.flag("word");
    s = dims(d); if(v) { s += "#VS"; for(int i=0;i<d.y;++i) s += " " + std::to_string(v); s += "\n"; }
    for(int i=0;i<n;++i) { for(int k=0;k<cols;++k) { if(i == bad && k == col) { if(word) s += "abc "; else break; } else s += std::to_string(k+i) + " "; } if(i == bad && !word && col == 0) s += ";"; s += "\n"; }
  } else if(kind == 1) { s = c.flag("header") ? "#PARAM_IN COS_TH\n" : ""; s += "1 2\n"; }
  else { static const std::vector<const char*> D{ "", "x", "0 1", "1 0", "-1 1", "1 -1", "0 0" }; s = std::string("#DIM ") + c.of(D, "dim") + "\n1 2 3\n"; }
  c.check(refused(s), "malformed file accepted", s); c.state(s); c.outcome(s);
}
// long files and wide rows, with a filter that drops part of them
static void scen_large(mc::Ctx& c) {
  int n = MANY[c.pick((int)MANY.size() - (c.thorough ? 0 : 2), "lines")]; auto d = c.of(WIDE, "dim"); if(heavy(n, d)) { c.trivial = true; return; } int kind = c.pick(3, "kind"), fill = c.pick(3, "values"); bool filter = c.flag("filter"), crlf = c.flag("crlf"); if(n > 1025 && (fill == 1) + filter + crlf > (c.thorough ? 2 : 1)) { c.trivial = true; return; }
  Table t; t.nx = d.first; t.ny = d.second; std::string eol = crlf ? "\r\n" : "\n", s = "#DIM " + std::to_string(t.nx) + " " + std::to_string(t.ny) + eol; if(kind) { s += "#VS"; for(int k=0;k<t.ny;++k) s += " " + std::to_string(kind); s += eol; }
  arguments a; if(filter) a.update("min", "0.25"); std::vector<double> x(t.nx), y(t.ny), l(t.ny), h(t.ny); char b[40];
  auto put = [&](double v) { snprintf(b, sizeof b, "%.17g ", v); s += b; };
  for(int i=0;i<n;++i) { bool in = true; for(int k=0;k<t.nx;++k) { put(x[k] = cell(i, k, fill)); in = in && (!filter || x[k] >= 0.25); } for(int k=0;k<t.ny;++k) put(y[k] = cell(i, k + 3, fill));
    for(int k=0;k<t.ny;++k) { double m = 0.1, M = 0.1; if(kind) { m = M = 0.5 + (i + k) % 7; put(m); if(kind == 2) { M = 0.25 + (i + k) % 5; put(M); } } l[k] = y[k] - m; h[k] = y[k] + M; }
    s += eol; if(in) { t.x.push_back(x); t.y.push_back(y); t.lo.push_back(l); t.hi.push_back(h); } }
  c.tag("large"); std::string w = std::to_string(n) + " lines of " + std::to_string(t.nx) + "+" + std::to_string(t.ny) + " kind " + std::to_string(kind); observe(c, load_text(s, a), t, w); c.state(s); c.outcome(w);
}
// --data-correct-cosine divides values and intervals by the product of the cosines of the light and view directions
static void scen_cosine(mc::Ctx& c) {
  static const std::vector<geo::Pair> P{ { geo::sph(0.3,0.2), geo::sph(0.5,1.1) }, { geo::sph(0,0), geo::sph(1.2,2.5) }, { geo::sph(1.4,-0.5), geo::sph(0,0) }, { geo::sph(0.7,3.0), geo::sph(0.7,3.0) }, { geo::sph(1.5,1.0), geo::sph(1.25,-2.0) }, { geo::sph(1.9,0.4), geo::sph(0.5,0.1) }, { geo::sph(0.4,0.4), geo::sph(2.0,0.1) }, { geo::sph(1.8,0.4), geo::sph(2.0,0.1) } };
  int k = c.pick(geo::NPAR, "in"), ny = c.flag("channels") ? 3 : 1, kind = c.pick(3, "kind"), opt = c.pick(4, "mode"), filter = c.pick(3, "filter"), cmt = c.flag("comment"); bool on = c.flag("correct"); const int nx = geo::DIMS[k]; Table t; t.nx = nx; t.ny = ny; t.in = geo::ALL[k]; t.out = params::INV_STERADIAN; arguments a; if(on) a.update("data-correct-cosine", c.flag("value") ? "1" : "");
  if(opt == 1) a.update("dt-relative", ""); else if(opt == 2) a.update("dt-max", ""); else if(opt == 3) { a.update("dt", "0.25"); a.update("dt-positive", ""); } if(filter == 1) a.update("ymin", "1.5"); else if(filter == 2) a.update("ymax", "2.25");
  std::string s = "#DIM " + std::to_string(nx) + " " + std::to_string(ny) + "\n#PARAM_IN " + geo::NAMES[k] + "\n#PARAM_OUT INV_STERADIAN\n"; if(kind) { s += "#VS"; for(int j=0;j<ny;++j) s += " " + std::to_string(kind); s += "\n"; }
  int n = (geo::ALL[k] == params::CARTESIAN || geo::ALL[k] == params::SPHERICAL_TL_PL_TV_PV) ? 8 : 5, first = c.pick(n, "first"), rows = 1 + c.pick(3, "rows"); char b[40]; auto put = [&](double v) { snprintf(b, sizeof b, "%.17g ", v); s += b; }; bool skip = false;
  for(int r=0;r<rows;++r) { geo::Pair p = P[(first + 3*r) % n]; std::vector<double> x, y, l, h; for(auto& q : geo::from(k, p)) { x.push_back(q.defined ? q.v : 0.0); put(x.back()); } geo::Pair q = geo::to(k, &x[0]); double f = q.v.z*q.l.z; if(!std::isfinite(f)) { skip = true; break; } bool in = !on || (q.v.z > 0 && q.l.z > 0); if(!on) f = 1; if(on && (std::fabs(q.v.z) < 1e-6 || std::fabs(q.l.z) < 1e-6)) { skip = true; break; }
    for(int j=0;j<ny;++j) { double v = opt == 3 && (j + r) % 3 == 1 ? -0.125 : 1 + 0.5*((first + r + 2*j) % 5); put(v); y.push_back(v); in = in && (filter != 1 || v >= 1.5) && (filter != 2 || v <= 2.25); if(opt == 3 && filter && v < 0) skip = true; }
    for(int j=0;j<ny;++j) { double m = opt == 3 ? 0.25 : 0.1, M = m, v = y[j]; if(kind == 1) { m = M = 0.125*(j+1+r); put(m); } if(kind == 2) { m = 0.0625*(j+1); M = 0.5 + r; put(m); put(M); } double lo = opt == 1 ? v*(1-m) : opt == 2 ? v - std::max(m*v, m) : v - m, hi = opt == 1 ? v*(1+M) : opt == 2 ? v + std::max(M*v, M) : v + M; if(opt == 3) { v = std::max(v, 0.0); lo = std::max(lo, 0.0); hi = std::max(hi, 0.0); } y[j] = v/f; l.push_back(lo/f); h.push_back(hi/f); }
    s += "\n"; if(cmt && r == 0) s += "# remark\n"; if(in) { t.x.push_back(x); t.y.push_back(y); t.lo.push_back(l); t.hi.push_back(h); } }
  if(skip) { c.trivial = true; return; } c.tag("cosine"); std::string w = std::string(on ? "corrected " : "") + s; c.state(w + std::to_string(opt) + std::to_string(filter)); c.outcome(w);
  // the load writes no file
  struct rlimit o, z; getrlimit(RLIMIT_FSIZE, &o); z = o; z.rlim_cur = 0; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &z); ptr<data> d; std::string e; try { d = load_text(s, a); } catch(std::exception& x) { e = x.what(); } setrlimit(RLIMIT_FSIZE, &o); if(!c.check(e.empty() && d, "cosine load", w + ": " + e)) return;
  if(!c.check(d->size() == (int)t.x.size(), "cosine size", w + ": " + std::to_string(d->size()) + " samples")) return; const VS* v = dynamic_cast<const VS*>(d.get());
  for(int i=0;i<d->size();++i) { vec r = d->get(i), x, l, u; if(v) v->get(i, x, l, u); auto eq = [](double a, double b) { return mc::close(a, b, 1e-8, 1e-12); }; for(int j=0;j<nx;++j) c.check(r[j] == t.x[i][j], "cosine x", w); for(int j=0;j<ny;++j) { c.check(eq(r[nx+j], t.y[i][j]), "cosine y", w + " sample " + std::to_string(i) + " is " + mc::dstr(r[nx+j]) + " not " + mc::dstr(t.y[i][j])); if(v) c.check(eq(l[j], t.lo[i][j]) && eq(u[j], t.hi[i][j]), "cosine interval", w + " sample " + std::to_string(i) + " is " + mc::dstr(l[j]) + " " + mc::dstr(u[j])); } }
}
MC_MAIN({"cosine", scen_cosine, 3, 20}, {"layout", scen_layout, 3, 20}, {"numbers", scen_numbers, 2, 20}, {"params", scen_params, 2, 20}, {"intervals", scen_intervals, 3, 20},
        {"filters", scen_filters, 3, 20}, {"bounds", scen_bounds, 3, 20}, {"malformed", scen_malformed, 2, 20}, {"large", scen_large, 3, 60})
