// P11: function files read back as the function that was saved, and damaged ones are refused.
#include "tree.h"
#include "core/rational_function.h"
static std::string FILE_() { static std::string f; if(f.empty()) { const char* s = getenv("VERIF_SCRATCH"); f = std::string(s ? s : "/tmp") + "/p11." + std::to_string((long)getpid()); } return f; }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }
struct Rm { ~Rm() { unlink(FILE_().c_str()); } };
static ptr<function> load(const std::string& text) { Rm r; spit(FILE_(), text); mc::dirty(); return ptr<function>(plugins_manager::load_function(FILE_())); }
static std::string save(const function& f, const std::string& cmd) { Rm r; f.save(FILE_(), arguments::create_arguments(cmd)); return slurp(FILE_()); }
static const std::vector<Pair>& QS() { static const std::vector<Pair> Q{ { geo::sph(0.4,0.3), geo::sph(0.7,2.5) }, { geo::sph(1.1,-1), geo::sph(0.2,1) }, { V3{0,0,1}, geo::sph(0.9,3) }, { geo::sph(1.3,0.2), geo::sph(1.2,0.2+M_PI) }, { geo::sph(0.9,0.2), geo::sph(0.8,0.5) } }; return Q; }
static bool numeric(const vec& v) { for(int i=0;i<v.size();++i) if(!std::isfinite(v[i])) return false; return true; }
static vec point(const parameters& p, int k) { int in = index_of(p.input_parametrization()); vec x(p.dimX()); if(in < 0) { for(int i=0;i<x.size();++i) x[i] = 0.1 + 0.17*k + 0.05*i; return x; } auto co = geo::from(in, QS()[k]); for(int i=0;i<x.size();++i) x[i] = co[i].v; return x; }
// coefficients of any function, in file order
static std::vector<double> coeffs(const function& f) {
  std::vector<double> r; if(const compound_function* c = dynamic_cast<const compound_function*>(&f)) { for(unsigned k=0;k<c->size();++k) { auto s = coeffs(*(*c)[k]); r.insert(r.end(), s.begin(), s.end()); } return r; }
  if(const product_function* p = dynamic_cast<const product_function*>(&f)) { r = coeffs(*p->first()); auto s = coeffs(*p->second()); r.insert(r.end(), s.begin(), s.end()); return r; }
  if(const nonlinear_function* n = dynamic_cast<const nonlinear_function*>(&f)) { vec q = n->parameters(); for(int i=0;i<q.size();++i) r.push_back(q[i]); return r; }
  const rational_function* q = dynamic_cast<const rational_function*>(&f); vec lo = f.min(), hi = f.max(); for(int i=0;i<lo.size();++i) { r.push_back(lo[i]); r.push_back(hi[i]); } for(int j=0;j<f.parametrization().dimY();++j) { vec a = q->get(j)->getP(), b = q->get(j)->getQ(); r.push_back(a.size()); r.push_back(b.size()); for(int i=0;i<a.size();++i) r.push_back(a[i]); for(int i=0;i<b.size();++i) r.push_back(b[i]); } return r;
}
// number of coefficients that differ, -1 for another kind of function
static int differ(const function& f, const function& g, std::string& why, double tol = 2e-9) {
  const parameters &a = f.parametrization(), &b = g.parametrization(); if(typeid(f) != typeid(g)) { why = "another kind"; return -1; }
  if(a.dimX() != b.dimX() || a.dimY() != b.dimY() || a.input_parametrization() != b.input_parametrization() || a.output_parametrization() != b.output_parametrization()) { why = "parametrization " + params::get_name(b.input_parametrization()) + " " + std::to_string(b.dimX()) + "x" + std::to_string(b.dimY()) + " " + params::get_name(b.output_parametrization()); return -1; }
  auto p = coeffs(f), q = coeffs(g); if(p.size() != q.size()) { why = "number of coefficients " + std::to_string(q.size()) + " not " + std::to_string(p.size()); return -1; } int n = 0; for(size_t i=0;i<p.size();++i) if(!mc::close(p[i], q[i], tol, 0)) { ++n; why = "coefficient " + std::to_string(i) + " is " + mc::dstr(q[i]) + " not " + mc::dstr(p[i]); } return n;
}
static bool values_agree(const function& f, const function& g, std::string& why) { for(int k=0;k<(int)QS().size();++k) { vec x = point(f.parametrization(), k), v = f.value(x), w = g.value(x); if(v.size() != w.size()) { why = "number of values"; return false; } if(!numeric(v)) continue; for(int i=0;i<v.size();++i) if(!mc::close(v[i], w[i], 2e-6, 1e-12)) { why = "value " + mc::dstr(w[i]) + " not " + mc::dstr(v[i]) + " at " + mc::vstr(x); return false; } } return true; }
static ptr<function> roundtrip(mc::Ctx& c, const function& f, const std::string& cmd, const std::string& sig, const std::string& w, bool vals, std::string* out = 0) {
  std::string t = save(f, cmd), why; ptr<function> g = load(t); if(out) *out = t; if(!c.check((bool)g, "not loaded " + sig, w + " saved as " + t)) return g;
  int d = differ(f, *g, why); c.check(d == 0, "changed " + sig, w + ": " + why); if(d == 0 && vals) c.check(values_agree(f, *g, why), "value changed " + sig, w + ": " + why); if(d == 0) c.check(save(*g, cmd) == t, "saved differently " + sig, w); c.outcome(t); c.state(mc::hstr(t)); return g;
}
static const std::vector<double> SCALE{ 1, 1.0/3, 1.2345678901e-6, 98765.4321, 1e-40, 3e30 };
static void scen_model(mc::Ctx& c) {
  const Model& m = models()[c.pick((int)models().size(), "model")]; int in = input(m, c.pick(inputs(m), "input")), ny = 1 + c.pick(3, "channels"); c.tag(m.name); NF f = make(m, ny, in); if(!c.check((bool)f, "missing", m.name)) return;
  int s = c.pick((int)SCALE.size(), "scale"); vec q = pvec(m, ny, choose(c, m)); for(int i=0;i<q.size();++i) q[i] *= i % 2 ? 1 + (SCALE[s]-1)*(s < 2 ? 0.1 : 1) : SCALE[s]; f->setParameters(q);
  std::string w = std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in]; roundtrip(c, *f, std::string("--func ") + m.plugin, m.name, w, s < 2);
}
static void scen_rational(mc::Ctx& c) {
  static const std::vector<const char*> KIND{ "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" }; static const int IN[] = { 0, 6, 8 };
  int kind = c.pick(4, "kind"), nx = 1 + c.pick(3, "nx"), ny = 1 + c.pick(3, "ny"), np = 1 + c.pick(c.thorough ? 10 : 5, "np"), nq = 1 + c.pick(c.thorough ? 6 : 4, "nq"); int dom = c.pick(3, "domain"), s = c.pick(4, "scale"); c.tag(KIND[kind]);
  int in = -1; for(int k=0;k<geo::NPAR;++k) if(geo::DIMS[k] == nx) { in = k; break; } if(c.flag("no parametrization")) in = -1; if(in < 0 && kind == 3) c.prune();
  ptr<rational_function> f = dynamic_pointer_cast<rational_function>(plugins_manager::get_function(std::string(KIND[kind]), parameters(nx, ny, in < 0 ? params::UNKNOWN_INPUT : geo::ALL[in], in < 0 ? params::UNKNOWN_OUTPUT : params::RGB_COLOR))); if(!c.check((bool)f, "missing", KIND[kind])) return;
  vec lo(nx), hi(nx); for(int k=0;k<nx;++k) { lo[k] = dom == 1 ? -1.5 - k : dom == 2 ? -7.0/3 - k : 0; hi[k] = dom == 1 ? 2.25 + k/3.0 : dom == 2 ? -0.125 - k/3.0 : 1; } f->setMin(lo); f->setMax(hi); f->setSize(np, nq); static const double A[] = { 2, -1.0/3, 0.5, 0, 3, -0.25, 7 };
  for(int j=0;j<ny;++j) { vec a(np), b(nq); for(int i=0;i<np;++i) a[i] = A[(i+j) % 7]*SCALE[s]; for(int i=0;i<nq;++i) b[i] = i == 0 ? 1 : A[(i*2+j) % 7]; f->get(j)->update(a, b); }
  std::ostringstream w; w << KIND[kind] << " " << nx << "x" << ny << " " << np << "/" << nq; std::string t; ptr<function> g = roundtrip(c, *f, kind || c.flag("named") ? std::string("--func ") + KIND[kind] : "--none", KIND[kind], w.str(), s < 2, &t);
}
// what a part holds besides its parameters: diffuse terms
static void scen_diffuse(mc::Ctx& c) {
  int k = c.pick(2, "plugin"), ny = 1 + c.pick(3, "channels"); c.tag("diffuse"); std::string pl = k ? "nonlinear_function_lafortune" : "nonlinear_function_diffuse"; std::ostringstream h; h << "#ALTA FUNC HEADER\n#CMD --func " << pl << "\n#DIM 6 " << ny << "\n#PARAM_IN CARTESIAN\n#PARAM_OUT INV_STERADIAN\n#ALTA HEADER END\n\n#FUNC " << pl << "\n"; std::vector<double> kd; for(int i=0;i<ny;++i) kd.push_back(std::vector<double>{0.25, 0.0, 1.0/3, 1e-7}[c.pick(4, "kd")]);
  std::ostringstream l; l.precision(12); for(int i=0;i<ny;++i) l << "kd " << kd[i] << "\n"; std::ostringstream lobe; if(k) for(int i=0;i<ny;++i) lobe << "Cx -1\nCx -1\nCz 0.5\nN 1\n"; std::string w = pl + " " + mc::vstr(kd); ptr<function> f;
  if(k) h << "#NB_LOBES 1\n"; f = load(h.str() + l.str() + lobe.str()); if(!c.check((bool)f, "not loaded " + pl, w)) return;
  vec x(6); x << 0, 0, 1, 0, 0, 1; vec v = f->value(x); for(int i=0;i<ny;++i) c.check(mc::close(v[i], kd[i] + (k ? 0.5 : 0), 1e-9, 1e-12), "diffuse value " + pl, w + " is " + mc::dstr(v[i])); roundtrip(c, *f, "--func " + pl, pl, w, true);
}
static Node built_cli(mc::Ctx& c, std::string& s, int maxn) {
  int n = 1 + c.pick(maxn, "parts"); bool list = n > 1 || c.flag("list"); Node root; s = "";
  if(list) { root.kind = 1; root.fixed = false; for(int k=0;k<n;++k) { std::string t; root.kids.push_back(cli_part(c, t, true, n > 1)); s += (k ? ", " : "") + t; } s = "--func [" + s + "]"; }
  else { root = cli_part(c, s, false, false); s = "--func " + s; } return root;
}
static void scen_compound(mc::Ctx& c) {
  std::string s; Node root = built_cli(c, s, c.thorough ? 3 : 2); int given = c.of(GIVEN, "given"), ny = c.flag("channels") ? 3 : 1; place(root, given); c.tag("compound"); std::string w = s + " in " + geo::NAMES[given];
  ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), parameters(geo::DIMS[given], ny, geo::ALL[given], params::INV_STERADIAN))); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(!c.check(nf != 0, "no function", w)) return; int salt = 0; if(!fill(c, root, nf, ny, salt, w)) return;
  ptr<function> g = roundtrip(c, *nf, s, "compound", w, true); nonlinear_function* ng = dynamic_cast<nonlinear_function*>(g.get()); if(ng) values(c, root, *ng, ny, w + " loaded");
}
// --bootstrap FILE starts from the function in FILE, with its header or without
static void from_file(mc::Ctx& c, const function& f, function& g, const std::string& cmd, bool base, bool vals, const std::string& sig, const std::string& w) {
  std::string t = save(f, cmd), why; bool head = !c.flag("without header"); if(!head) { size_t at = t.find("#ALTA HEADER END"); t = t.substr(t.find('\n', at) + 1); } if(!head && !base) { c.trivial = true; return; }
  const parameters& p = g.parametrization(); ptr<data> d = tiny(p.dimX(), p.dimY(), p.input_parametrization(), 0.5); arguments a = arguments::create_arguments("--bootstrap " + FILE_()); { Rm r; spit(FILE_(), t); mc::dirty(); if(nonlinear_function* n = base ? dynamic_cast<nonlinear_function*>(&g) : 0) n->nonlinear_function::bootstrap(d, a); else g.bootstrap(d, a); }
  c.state(mc::hstr(t)); int n = differ(f, g, why); c.outcome(n); c.check(n == 0, "bootstrap file " + sig, w + (head ? "" : " without header") + ": " + why); if(n == 0 && vals) c.check(values_agree(f, g, why), "bootstrap file value " + sig, w + ": " + why); }
static void scen_bootstrap(mc::Ctx& c) {
  int nm = (int)models().size(), k = c.pick(nm + 1, "model"), ny = 1 + c.pick(3, "channels"); if(k < nm) { const Model& m = models()[k]; c.tag(m.name); int in = input(m, 0); NF f = make(m, ny, in), g = make(m, ny, in); if(!c.check(f && g, "missing", m.name)) return; vec q = pvec(m, ny, choose(c, m)); f->setParameters(q); from_file(c, *f, *g, std::string("--func ") + m.plugin, true, true, m.name, std::string(m.name) + " " + mc::vstr(q)); return; }
  c.tag("rational"); int np = 1 + c.pick(4, "np"), nq = 1 + c.pick(3, "nq"); parameters p(2, ny, params::RUSIN_TH_TD, params::RGB_COLOR); rational_function f(p), g(p); vec lo(2), hi(2); lo << 0, 0.5; hi << 1.5, 2.5; f.setMin(lo); f.setMax(hi); f.setSize(np, nq); for(int j=0;j<ny;++j) { vec a(np), b(nq); for(int i=0;i<np;++i) a[i] = 0.5 - 0.75*i + j; for(int i=0;i<nq;++i) b[i] = i ? 0.25*i - j : 1; f.get(j)->update(a, b); } from_file(c, f, g, "--func rational_function", true, true, "rational", "rational " + std::to_string(np) + "/" + std::to_string(nq)); }
static void scen_bootcomb(mc::Ctx& c) {
  std::string s; Node root = built_cli(c, s, 2); int given = c.of(GIVEN, "given"), ny = c.flag("channels") ? 3 : 1; place(root, given); c.tag("bootstrap compound"); std::string w = s + " in " + geo::NAMES[given]; if(s.find("diffuse") != std::string::npos) { c.trivial = true; return; }
  parameters p(geo::DIMS[given], ny, geo::ALL[given], params::INV_STERADIAN); ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), p)), g(plugins_manager::get_function(arguments::create_arguments(s), p)); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(!c.check(nf && g, "no function", w)) return;
  bool comb = dynamic_cast<compound_function*>(nf) || dynamic_cast<product_function*>(nf); if(!comb) { c.trivial = true; return; } int salt = 0; if(!fill(c, root, nf, ny, salt, w)) return; from_file(c, *nf, *g, s, false, true, "combined", w); }
// damage: the file cut after each line, at each byte, one line removed, another function named
struct Sub { ptr<function> f; std::string cmd, name; };
static Sub subject(mc::Ctx& c) {
  Sub r; int nm = (int)models().size(), k = c.pick(nm + 4 + 4, "subject"), ny = c.flag("channels") ? 3 : 1;
  if(k < nm) { const Model& m = models()[k]; NF f = make(m, ny, input(m, 0)); r.name = m.name; r.cmd = std::string("--func ") + m.plugin; if(f) f->setParameters(pvec(m, ny, std::vector<int>(m.np*m.lobes + m.extra, 1))); r.f = f; return r; }
  if(k < nm+4) { static const std::vector<const char*> KIND{ "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" }; k -= nm; parameters p(2, ny, params::RUSIN_TH_TD, params::RGB_COLOR); ptr<rational_function> f = dynamic_pointer_cast<rational_function>(plugins_manager::get_function(std::string(KIND[k]), p)); vec lo(2), hi(2); lo << 0, 0.5; hi << 1.5, 2.5; f->setMin(lo); f->setMax(hi); f->setSize(3, 2); for(int j=0;j<ny;++j) { vec a(3), b(2); a << 2 + j, -1.0/3, 0.625; b << 1, 0.75 + j; f->get(j)->update(a, b); } r.f = f; r.name = KIND[k]; r.cmd = std::string("--func ") + KIND[k]; return r; }
  static const char* CMD[] = { "--func [nonlinear_function_beckmann, nonlinear_function_blinn]", "--func nonlinear_function_lafortune --fresnel nonlinear_fresnel_schlick", "--func [nonlinear_function_diffuse, nonlinear_function_lafortune --fresnel nonlinear_fresnel_schlick --fixed-lobe, nonlinear_function_abc --fixed]", "--func [nonlinear_function_diffuse, nonlinear_function_blinn, nonlinear_function_abc, nonlinear_function_beckmann, nonlinear_function_blinn]" };
  r.cmd = CMD[k - nm - 4]; r.name = r.cmd; r.f = ptr<function>(plugins_manager::get_function(arguments::create_arguments(r.cmd), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN)));
  if(nonlinear_function* n = dynamic_cast<nonlinear_function*>(r.f.get())) { std::string d; std::ostringstream o; vec p = n->parameters(); for(int i=0;i<p.size();++i) p[i] = 0.5 + 0.0625*i; n->setParameters(p); } return r;
}
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> r; std::istringstream i(t); std::string l; while(std::getline(i, l)) r.push_back(l + "\n"); return r; }
static void scen_damage(mc::Ctx& c) {
  Sub s = subject(c); c.tag("damage " + s.name); if(!c.check((bool)s.f, "missing", s.name)) return; std::string t = save(*s.f, s.cmd), why; ptr<function> g0 = load(t); if(!g0) { c.fail("not loaded " + s.name, t); return; } std::vector<std::string> L = lines(t); int kind = c.pick(4, "damage"); std::string u; int allowed = 0; std::string w;
  if(kind == 0) { int n = c.pick((int)L.size(), "lines kept"); for(int i=0;i<n;++i) u += L[i]; w = "cut after line " + std::to_string(n); }
  if(kind == 1) { int n = c.pick((int)t.size(), "bytes kept"); u = t.substr(0, n); allowed = n > 0 && t[n] != '\n' && t[n-1] != '\n' ? 1 : 0; w = "cut at byte " + std::to_string(n); }
  if(kind == 2) { int n = c.pick((int)L.size(), "line removed"); if(!L[n].compare(0, 6, "#PARAM") || !L[n].compare(0, 6, "#TYPE ") || (!L[n].compare(0, 5, "#CMD ") && t.find("#FUNC rational_function") != std::string::npos)) {   // optional lines
       c.trivial = true; return; } for(int i=0;i<(int)L.size();++i) if(i != n) u += L[i]; w = "without line " + L[n]; }
  if(kind == 3) { std::vector<int> at; for(int i=0;i<(int)L.size();++i) if(!L[i].compare(0, 6, "#FUNC ")) at.push_back(i); int n = c.of(at, "name"); std::vector<std::string> N = plugins(); N.push_back("rational_function"); N.push_back("nonlinear_function"); N.push_back("x"); std::string o = c.of(N, "other name"); if(L[n] == "#FUNC " + o + "\n") { c.trivial = true; return; } for(int i=0;i<(int)L.size();++i) u += i == n ? "#FUNC " + o + "\n" : L[i]; w = "with " + o + " for " + L[n]; }
  ptr<function> g = load(u); c.outcome(g ? 1 : 0); c.state(mc::hstr(u)); if(!g) return; if(kind == 3) { c.fail("other function accepted " + s.name, s.name + " " + w); return; }
  int d = differ(*g0, *g, why, 1e-12); c.check(d >= 0 && d <= allowed, std::string(kind == 0 ? "cut" : kind == 1 ? "cut within a line" : "missing line") + " accepted " + s.name, s.name + " " + w + ": " + why + "\n" + u); if(d == 0 && !allowed) c.check(values_agree(*g0, *g, why), std::string("damaged value ") + s.name, s.name + " " + w + ": " + why);
}
// the command line names another function than the content
static void scen_command(mc::Ctx& c) {
  Sub s = subject(c); c.tag("command " + s.name); if(!s.f) return; std::string t = save(*s.f, s.cmd); std::vector<std::string> N = plugins(); N.push_back("[" + N[0] + "," + N[1] + "]"); N.push_back("vp_unknown"); N.push_back("[]"); N.push_back(N[0] + " --fresnel vp_unknown"); N.push_back("[vp_unknown]"); N.push_back(N[2] + " --fresnel " + N[12]); std::string o = "--func " + c.of(N, "other"); std::string w = s.name + " named " + o, sq, oq; for(char ch : s.cmd) if(ch != ' ') sq += ch; for(char ch : o) if(ch != ' ') oq += ch; if(sq == oq ||o == s.cmd || o == s.cmd.substr(0, o.size()) || (s.cmd[7] == '[' && s.cmd.compare(8, o.size()-7, o.substr(7)) == 0)) { c.trivial = true; return; }
  std::string cm = "#CMD " + arguments::create_arguments(s.cmd).get_cmd(); size_t at = t.find("#CMD "), e = t.find('\n', at); std::string u = t.substr(0, at) + "#CMD " + o + t.substr(e); ptr<function> g = load(u); c.outcome(g ? 1 : 0); c.state(w); c.check(!g, "another command accepted", w);
}
// the function files the repository ships
static void scen_shipped(mc::Ctx& c) {
  static const char* F[] = { "Kirby2.brdf", "nonlinear-example-01.brdf", "rational-example-01.brdf" }; std::string n = F[c.pick(3, "file")]; c.tag("shipped " + n); const char* rep = getenv("VERIF_REPO"); std::string t = slurp(std::string(rep ? rep : "/repo") + "/documents/brdfs/" + n); if(t.empty()) { c.trivial = true; return; } ptr<function> f = load(t); if(!c.check((bool)f, "shipped file not loaded", n)) return;
  std::vector<double> e; std::istringstream in(t); std::string l; int np = 0, nq = 0, row = 0; bool body = false; std::vector<double> a, b;
  while(std::getline(in, l)) { std::istringstream s(l); std::string k; double v; s >> k; if(k == "#FUNC") { body = true; continue; } if(!body || k.empty()) continue; if(k == "#NP") { s >> np; row = 0; a.clear(); b.clear(); continue; } if(k == "#NQ") { s >> nq; continue; } if(k[0] == '#') continue;
    if(np) { double last = 0; while(s >> v) last = v; (row < np ? a : b).push_back(last); if(++row == np + nq) { for(double x : a) e.push_back(x/b[0]); for(double x : b) e.push_back(x/b[0]); } } else if(k != "kd") { s >> v; e.push_back(v); } }
  std::vector<double> g; if(rational_function* r = dynamic_cast<rational_function*>(f.get())) { for(int j=0;j<f->parametrization().dimY();++j) { vec p = r->get(j)->getP(), q = r->get(j)->getQ(); for(int i=0;i<p.size();++i) g.push_back(p[i]); for(int i=0;i<q.size();++i) g.push_back(q[i]); } } else g = coeffs(*f);
  if(c.check(g.size() == e.size(), "shipped coefficients", n + ": " + std::to_string(g.size()) + " not " + std::to_string(e.size()))) for(size_t i=0;i<e.size();++i) c.check(mc::close(g[i], e[i], 1e-9, 0), "shipped coefficients", n + " " + std::to_string(i)); size_t at = t.find("#CMD "); roundtrip(c, *f, t.substr(at + 5, t.find('\n', at) - at - 5), "shipped", n, true);
}
// many channels and lobes; long lists
static void scen_wide(mc::Ctx& c) {
  const Model& m = wide()[c.pick((int)wide().size(), "model")]; int in = input(m, c.pick(inputs(m), "input")), ny = c.of(std::vector<int>{ 1, 2, 4, 7 }, "channels"); c.tag(m.name); NF f = make(m, ny, in); if(!c.check((bool)f, "missing", m.name)) return; int s = c.pick(3, "scale"), b = c.pick(2, "parameters"), n = m.np*m.lobes + m.extra; std::vector<int> a(n); for(int k=0;k<n;++k) a[k] = (b + k) % m.alpha[k].size(); vec q = pvec(m, ny, a); for(int i=0;i<q.size();++i) q[i] *= s == 0 ? 1 : s == 1 ? 1 + i/3.0 : 1 + 1e-9*(7*i % 11); f->setParameters(q);
  roundtrip(c, *f, std::string("--func ") + m.plugin, m.name, std::string(m.name) + " " + mc::vstr(q) + " in " + geo::NAMES[in], true);
}
static Node leafs(int k, std::string& s, bool fx) { static const std::vector<int> L{ 0, 1, 7, 4, 15, 3 }; Node l = leaf(L[k % L.size()]); s = models()[l.model].plugin; if(k % 3 == 1) { Node f = leaf(k % 2 ? 17 : 20), p; p.kind = 2; p.fixed = false; p.kids = { l, f }; p.fixed1 = k % 2 != 0; p.fixed2 = false; s += std::string(" --fresnel ") + models()[f.model].plugin + (p.fixed1 ? " --fixed-lobe" : ""); l = p; } if(fx) { l.fixed = true; s += " --fixed"; } return l; }
static void scen_many(mc::Ctx& c) {
  int n = 3 + c.pick(4, "parts"), first = c.pick(3, "first"), step = 1 + c.pick(2, "step"), pat = c.pick(c.thorough ? 1 << n : 8, "fixed"), given = c.of(GIVEN, "given"), ny = c.flag("channels") ? 3 : 1; c.tag("many"); Node root; root.kind = 1; root.fixed = false; std::string s; for(int k=0;k<n;++k) { std::string t; root.kids.push_back(leafs(first + k*step, t, c.thorough ? pat >> k & 1 : pat >> (k % 3) & 1)); s += (k ? ", " : "") + t; } s = "--func [" + s + "]"; place(root, given); std::string w = s + " in " + geo::NAMES[given];
  ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), parameters(geo::DIMS[given], ny, geo::ALL[given], params::INV_STERADIAN))); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(!c.check(nf != 0, "no function", w)) return; int salt = 0; if(!fill(c, root, nf, ny, salt, w)) return; ptr<function> g = roundtrip(c, *nf, s, "compound", w, true); nonlinear_function* ng = dynamic_cast<nonlinear_function*>(g.get()); if(ng) values(c, root, *ng, ny, w + " loaded");
}
MC_MAIN({"wide", scen_wide, 3, 20}, {"many", scen_many, 3, 20}, {"shipped", scen_shipped, 1, 20}, {"model", scen_model, 3, 20}, {"rational", scen_rational, 3, 20}, {"diffuse", scen_diffuse, 2, 20}, {"compound", scen_compound, 5, 20}, {"damage", scen_damage, 4, 20}, {"command", scen_command, 2, 20}, {"bootstrap", scen_bootstrap, 3, 20}, {"bootcomb", scen_bootcomb, 4, 20})
