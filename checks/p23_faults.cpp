// P23: files that could not be written completely, or that end early, are never taken for complete ones.
#include "tools.h"
#include "tree.h"
#include "exr.h"
#include "core/rational_function.h"
#include "core/data_storage.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/syscall.h>
using namespace mdl;
typedef std::vector<double> D; typedef std::vector<D> Rows; typedef std::vector<std::string> Args;
static std::string path(const std::string& n) { return tool::dir() + "/" + n; }
// ---- faults of single system calls on the file being saved, injected below the C++ library
static struct Fault { bool on; int at, kind, calls, closes; bool close_fails; dev_t dev; ino_t ino; std::string file; } G;
static bool watched(int fd) { if(!G.on) return false; struct stat a, b; return fstat(fd, &a) == 0 && S_ISREG(a.st_mode) && stat(G.file.c_str(), &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino; }
enum { ENOSPC_ONCE, EIO_ONCE, HALF_THEN_ENOSPC, SHORT, INTERRUPTED, NKIND };
static bool half_pending;
static ssize_t raw_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
static int plan(size_t n) { if(half_pending) { half_pending = false; return ENOSPC_ONCE; } int k = G.calls++; if(k != G.at) return -1; if(G.kind == HALF_THEN_ENOSPC && n > 1) half_pending = true; return G.kind; }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if(!watched(fd)) return raw_write(fd, p, n); int k = plan(n); if(k == ENOSPC_ONCE) { errno = ENOSPC; return -1; } if(k == EIO_ONCE) { errno = EIO; return -1; } if(k == INTERRUPTED) { errno = EINTR; return -1; } if((k == SHORT || k == HALF_THEN_ENOSPC) && n > 1) n /= 2; return raw_write(fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if(!watched(fd)) return syscall(SYS_writev, fd, v, c); size_t n = 0; for(int i=0;i<c;++i) n += v[i].iov_len; int k = plan(n); if(k == ENOSPC_ONCE) { errno = ENOSPC; return -1; } if(k == EIO_ONCE) { errno = EIO; return -1; } if(k == INTERRUPTED) { errno = EINTR; return -1; } if((k == SHORT || k == HALF_THEN_ENOSPC) && n > 1) { for(int i=0;i<c;++i) if(v[i].iov_len) return raw_write(fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len/2 : 1); } return syscall(SYS_writev, fd, v, c); }
extern "C" int fclose(FILE* f) { static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose"); bool w = G.on && G.close_fails && watched(fileno(f)); int r = real(f); if(w) { ++G.closes; errno = EIO; return EOF; } return r; }
extern "C" int close(int fd) { bool w = G.on && G.close_fails && watched(fd); int r = (int)syscall(SYS_close, fd); if(w) { ++G.closes; errno = EIO; return -1; } return r; }
struct Limit { struct rlimit old; Limit(long k) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; l.rlim_cur = k; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
// ---- things that can be saved
static std::string head(int nx, int ny, const std::string& in, const std::string& out, const std::string& more = "") { std::ostringstream o; o << "#DIM " << nx << " " << ny << "\n#PARAM_IN " << in << "\n#PARAM_OUT " << out << "\n" << more; return o.str(); }
static double val(int i, int j) { return 1 + 0.5*i + 0.125*((i*7 + j*3) % 5) + j/3.0; }
static Rows sample_rows(int n, int nx, int ny) { Rows r; for(int i=0;i<n;++i) { D x; for(int k=0;k<nx;++k) x.push_back(0.1 + 0.8*std::fmod((i+1)*0.6180339887*(k+1) + 0.31*k, 1.0)); for(int k=0;k<ny;++k) x.push_back(val(i, k)); r.push_back(x); } return r; }
static std::string text(const Rows& r, int nx, int ny, const std::string& in, const std::string& out, const std::string& more = "", int ci = 0) { std::ostringstream o; o.precision(12); o << head(nx, ny, in, out, more); for(auto& x : r) { for(size_t k=0;k<x.size();++k) o << (k ? " " : "") << x[k]; for(int q=0;q<ci;++q) for(int k=0;k<ny;++k) o << " " << x[nx+k] + (q ? 0.25 : -0.25); o << "\n"; } return o.str(); }
enum { S_TEXT, S_BINARY, S_GRID, S_RBF, S_SLICE, S_MERL, S_UTIA, S_UTIAEXR, S_FUNC0 };
static const char* DN[] = { "vertical_segment text", "vertical_segment binary", "data_grid", "data_rbf", "data_brdf_slice", "data_merl", "data_utia", "data_utia exr" };
static ptr<data> make_data(int k) {
  if(k == S_TEXT || k == S_BINARY) { std::istringstream i(text(sample_rows(6, 2, 3), 2, 3, "RUSIN_TH_TD", "RGB_COLOR")); return plugins_manager::load_data("vertical_segment", i, arguments()); }
  if(k == S_GRID) { ptr<data> g = plugins_manager::get_data("data_grid", 0, parameters(2, 3, params::STARK_2D, params::RGB_COLOR), arguments::create_arguments("--grid-size [2,3]")); for(int i=0;i<g->size();++i) { vec x = g->get(i); for(int j=0;j<3;++j) x[2+j] = val(i, j); g->set(i, x); } return g; }
  if(k == S_RBF) { std::string f = path("src.txt"); tool::spit(f, text(sample_rows(6, 2, 3), 2, 3, "RUSIN_TH_TD", "RGB_COLOR")); ptr<data> d = plugins_manager::load_data(f, "data_rbf", arguments()); unlink(f.c_str()); return d; }
  if(k == S_SLICE) { std::vector<float> p; for(int i=0;i<3*4*3;++i) p.push_back(0.5f + (i*5) % 17); std::string f = path("src.exr"); tool::spit(f, exr::file(4, 3, p)); ptr<data> d = plugins_manager::load_data(f, "data_brdf_slice", arguments()); unlink(f.c_str()); return d; }
  const char* P = k == S_MERL ? "data_merl" : "data_utia"; ptr<data> d = plugins_manager::get_data(P, 0, k == S_MERL ? parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR) : parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments()); if(!d) return d; int nx = d->parametrization().dimX(); for(int i=0;i<d->size();++i) { vec x = d->get(i); for(int j=0;j<3;++j) x[nx+j] = 0.25*(1 + (i*7 + j*13) % 101); d->set(i, x); } return d; }
struct Sub { ptr<data> d; ptr<function> f; std::string name, cmd, file; void save(const std::string& to) const { if(f) { f->save(to, arguments::create_arguments(cmd)); return; } if(name == DN[S_BINARY]) { std::ofstream o; o.exceptions(std::ios::failbit|std::ios::badbit); o.open(to.c_str()); save_data_as_binary(o, *d); o.close(); return; } d->save(to); } };
static const int NR = 4, NC = 3;
static int nfunc() { return (int)models().size() + NR + NC; }
static Sub subject(int k, int ny) {
  Sub r; if(k < S_FUNC0) { static ptr<data> cache[S_FUNC0]; if(!cache[k]) cache[k] = make_data(k); r.d = cache[k]; r.name = DN[k]; r.file = k == S_SLICE || k == S_UTIAEXR ? "out.exr" : k == S_UTIA ? "out.bin" : "out.dat"; return r; }
  k -= S_FUNC0; r.file = "out.func"; int nm = (int)models().size();
  if(k < nm) { const Model& m = models()[k]; NF f = make(m, ny, input(m, 0)); r.name = m.name; r.cmd = std::string("--func ") + m.plugin; if(f) f->setParameters(pvec(m, ny, std::vector<int>(m.np*m.lobes + m.extra, 1))); r.f = f; return r; } k -= nm;
  if(k < NR) { static const char* KIND[] = { "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine" }; r.name = KIND[k]; r.cmd = std::string("--func ") + KIND[k]; ptr<function> g(plugins_manager::get_function(arguments::create_arguments(r.cmd), parameters(2, ny, params::RUSIN_TH_TD, params::RGB_COLOR))); rational_function* q = dynamic_cast<rational_function*>(g.get()); if(!q) return r; q->setMin(vec::Zero(2)); q->setMax(vec::Constant(2, 1.5)); q->setSize(3, 2); for(int j=0;j<ny;++j) { vec a(3), b(2); a << 1, -0.5, 0.25 + j; b << 1, 0.125; q->get(j)->update(a, b); } r.f = g; return r; } k -= NR;
  static const char* CMD[] = { "--func [nonlinear_function_beckmann, nonlinear_function_blinn]", "--func nonlinear_function_lafortune --fresnel nonlinear_fresnel_schlick", "--func [nonlinear_function_diffuse, nonlinear_function_ward --fresnel nonlinear_fresnel_schlick]" }; r.cmd = CMD[k]; r.name = CMD[k]; r.f = ptr<function>(plugins_manager::get_function(arguments::create_arguments(r.cmd), parameters(6, ny, params::CARTESIAN, params::INV_STERADIAN))); if(nonlinear_function* n = dynamic_cast<nonlinear_function*>(r.f.get())) { vec p = n->parameters(); for(int i=0;i<p.size();++i) p[i] = 0.5 + 0.0625*i; n->setParameters(p); } return r; }
static const char* EXPORTS[] = { "", " --export matlab", " --export C++", " --export shader", " --export explorer" };
// what saving it without faults writes; false: it has no such export
static bool reference(mc::Ctx& c, Sub& s, int ex, std::string& ref) { s.cmd += EXPORTS[ex]; std::string f = path("ref." + s.file); try { s.save(f); } catch(std::exception& e) { if(ex == 0) c.fail("cannot be saved", s.name + ": " + e.what()); unlink(f.c_str()); return false; } ref = tool::slurp(f); unlink(f.c_str()); c.check(!ref.empty(), "empty file", s.name); return true; }
static std::vector<long> points(long n, bool all, bool thorough) { std::vector<long> r; if(all) { for(long k=0;k<=n;++k) r.push_back(k); return r; } std::set<long> p; long e = thorough ? 64 : 16; for(long k=0;k<e;++k) { p.insert(k); p.insert(n - k); } int parts = thorough ? 96 : 12; for(int i=1;i<parts;++i) for(long q : { -1, 0, 1 }) p.insert(n/parts*i + q); for(long b : { 4096, 8191, 8192, 65536 }) for(long q : { -1, 0, 1 }) if(b + q < n) p.insert(b + q); for(int i=1;i<3;++i) for(long q : { -8, -1, 0, 1, 8 }) p.insert(i*n/3 + q); for(long k : p) if(k >= 0 && k <= n) r.push_back(k); return r; }
static bool big(int k) { return k == S_MERL || k == S_UTIA || k == S_UTIAEXR; }
static int pick_subject(mc::Ctx& c, int& ny, int& ex) { int k = c.pick(S_FUNC0 + nfunc(), "subject"); ny = 3; ex = 0; if(k >= S_FUNC0) { ny = c.flag("one channel") ? 1 : 3; ex = c.pick(5, "export"); } return k; }
// the device is full after any number of bytes
static void scen_full(mc::Ctx& c) {
  int ny, ex, k = pick_subject(c, ny, ex); tool::clean(); Sub s = subject(k, ny); c.tag(s.name); if(!c.check(s.d || s.f, "missing", s.name)) return; static std::map<std::vector<int>, std::pair<bool, std::string> > memo; auto& M = memo[{ k, ny, ex }]; if(M.second.empty() && !M.first) { M.first = !reference(c, s, ex, M.second); } else s.cmd += EXPORTS[ex]; if(M.first) { c.trivial = true; return; } const std::string& ref = M.second;
  static std::map<int, std::vector<long> > pm; std::vector<long> P = points((long)ref.size(), !big(k), c.thorough); long n = P[c.pick((int)P.size(), "bytes")]; std::string f = path(s.file), w = s.name + EXPORTS[ex] + " with room for " + std::to_string(n) + " of " + std::to_string(ref.size()) + " bytes"; c.state(w); bool thrown = false; std::string what;
  { Limit l(n); try { s.save(f); } catch(std::exception& e) { thrown = true; } } if(n < (long)ref.size()) c.check(thrown, "success of an incomplete save", w); else c.check(!thrown && tool::slurp(f) == ref, "save", w); c.outcome((int)thrown); unlink(f.c_str()); }
// one system call fails, is interrupted or is short; closing the file fails
static void scen_call(mc::Ctx& c) {
  int ny, ex, k = pick_subject(c, ny, ex); if(ny == 1 && !c.thorough) c.prune(); tool::clean(); Sub s = subject(k, ny); c.tag(s.name); if(!c.check(s.d || s.f, "missing", s.name)) return; std::string ref; if(!reference(c, s, ex, ref)) { c.trivial = true; return; }
  std::string f = path(s.file); tool::spit(f, ""); int kind = c.pick(NKIND + 1, "fault"); G.file = f; G.calls = G.closes = 0; G.at = -1; G.kind = 0; G.close_fails = false; half_pending = false; std::string w = s.name + EXPORTS[ex]; bool thrown = false; G.on = true; try { s.save(f); } catch(std::exception&) { thrown = true; } G.on = false; if(!c.check(!thrown && tool::slurp(f) == ref, "save", w)) return; int calls = G.calls; if(!c.check(calls > 0, "no call", w)) return;
  if(kind < NKIND) { std::vector<int> at; if(calls <= 64) for(int i=0;i<calls;++i) at.push_back(i); else { std::set<int> p; for(int i=0;i<8;++i) { p.insert(i); p.insert(calls-1-i); p.insert(calls*i/8); } at.assign(p.begin(), p.end()); } G.at = c.of(at, "call"); G.kind = kind; } else G.close_fails = true;
  tool::spit(f, ""); G.calls = G.closes = 0; half_pending = false; thrown = false; G.on = true; try { s.save(f); } catch(std::exception&) { thrown = true; } G.on = false; static const char* KN[] = { "ENOSPC", "EIO", "half written then ENOSPC", "short", "EINTR", "failing close" }; w += std::string(": ") + KN[kind] + (kind < NKIND ? " at call " + std::to_string(G.at) + " of " + std::to_string(calls) : ""); c.state(w); std::string got = tool::slurp(f);
  if(kind < HALF_THEN_ENOSPC) c.check(thrown, "success of an incomplete save", w); else if(kind < NKIND) c.check(thrown || got == ref, "success of an incomplete save", w); else c.check(thrown || !G.closes, "failed close ignored", w); c.outcome((int)thrown); unlink(f.c_str()); }
// the file cannot be created
static void scen_path(mc::Ctx& c) {
  int ny, ex, k = pick_subject(c, ny, ex); tool::clean(); Sub s = subject(k, ny); c.tag(s.name); if(!c.check(s.d || s.f, "missing", s.name)) return; std::string ref; if(k != S_MERL && !reference(c, s, ex, ref)) { c.trivial = true; return; } s.cmd += k == S_MERL ? EXPORTS[ex] : ""; std::string dot = s.file.substr(s.file.find('.')); tool::spit(path("plain"), "x"); mkdir(path("dirdir" + dot).c_str(), 0755);
  std::vector<std::string> T{ path("no/where" + dot), path("dirdir" + dot), path("plain/o" + dot), path(std::string(300, 'a') + dot), "", path("dirdir" + dot) + "/", "/dev/full" }; int n = c.pick((int)T.size() + 1, "path"); bool thrown = false; std::string w = s.name + EXPORTS[ex]; if(n < (int)T.size()) { w += " to " + (n == 3 ? "a name of 300 letters" : T[n].substr(0, 60)); if(n == 6 && dot == ".exr") { symlink("/dev/full", path("full.exr").c_str()); T[n] = path("full.exr"); } try { s.save(T[n]); } catch(std::exception&) { thrown = true; } c.check(thrown, "success without a file", w); }
  else { w += " without a free descriptor"; struct rlimit o, l; getrlimit(RLIMIT_NOFILE, &o); l = o; l.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &l); try { s.save(path(s.file)); } catch(std::exception&) { thrown = true; } setrlimit(RLIMIT_NOFILE, &o); c.check(thrown, "success without a file", w); } c.state(w); c.outcome((int)thrown); rmdir(path("dirdir" + dot).c_str()); }
// ---- files that end early
struct Meaning { bool must_fail, zero; Rows r; Meaning() : must_fail(false), zero(false) {} };
static bool number(const std::string& w, double& v) { char* e; v = strtod(w.c_str(), &e); return !w.empty() && !*e; }
static Meaning text_meaning(const std::string& s, int ci, int want = -1) { Meaning m; std::istringstream in(s); std::string l; int nx = 0, ny = 0; while(std::getline(in, l)) { if(!l.compare(0, 5, "#DIM ")) { if(sscanf(l.c_str(), "#DIM %d %d", &nx, &ny) != 2) nx = ny = 0; continue; } if(l.empty() || l[0] == '#') continue; std::istringstream ls(l); D x; std::string w; double v; bool ok = true; while(ls >> w) { ok = ok && number(w, v); x.push_back(v); } if(x.empty()) continue; if(!ok || (int)x.size() < nx + ny*(1 + ci)) { m.must_fail = true; return m; } x.resize(nx + ny); m.r.push_back(x); } if(nx < 1 || ny < 1) m.must_fail = true; m.zero = m.r.empty(); if(want >= 0 && (int)m.r.size() < want) m.must_fail = true; return m; }
static Meaning astm_meaning(const std::string& s) { Meaning m; std::istringstream in(s); std::string l; int n = -1; bool vars = false; int w = 0; while(std::getline(in, l)) { if(!vars) { if(!l.compare(0, 11, "NUM_POINTS ")) n = atoi(l.c_str() + 11); if(!l.compare(0, 5, "VARS ")) { vars = true; w = 1 + std::count(l.begin(), l.end(), ','); } continue; } if(l.find(',') == std::string::npos) continue; std::replace(l.begin(), l.end(), ',', ' '); std::istringstream ls(l); D x; double v; std::string t; while((int)x.size() < w && ls >> t) { if(!number(t, v)) { m.must_fail = true; return m; } x.push_back(v); } if((int)x.size() < w) { m.must_fail = true; return m; } m.r.push_back(x); } if(!vars || n < 0 || (int)m.r.size() < n) m.must_fail = true; return m; }
static Meaning binary_meaning(const std::string& s, int w) { Meaning m; size_t f = s.find("#FORMAT binary\n"); if(f == std::string::npos) { m = text_meaning(s, 0); m.zero = true; m.must_fail = m.must_fail && m.r.empty() && false; m.zero = true; return m; } size_t b = s.find("#BEGIN_STREAM\n"), n = s.find("#SAMPLE_COUNT "); if(b == std::string::npos || n == std::string::npos) { m.must_fail = true; return m; } int k = atoi(s.c_str() + n + 14); b += 14; if(s.size() < b + (size_t)k*w*8) { m.must_fail = true; return m; } for(int i=0;i<k;++i) { D x(w); memcpy(&x[0], s.data() + b + i*w*8, w*8); m.r.push_back(x); } return m; }
enum { L_TEXT, L_CI, L_BINARY, L_GRID, L_RBF, L_ASTM, L_SLICE, L_MERL, L_UTIA, L_UTIAEXR, L_N };
static const char* LP[] = { "vertical_segment", "vertical_segment", "vertical_segment", "data_grid", "data_rbf", "data_astm", "data_brdf_slice", "data_merl", "data_utia", "data_utia" };
static const char* LN[] = { "text", "text with intervals", "binary", "grid", "rbf", "astm", "slice", "merl", "utia", "utia exr" };
static std::string lfile(int k) { return k == L_SLICE || k == L_UTIAEXR ? "in.exr" : k == L_UTIA ? "in.bin" : "in.dat"; }
static const std::string& whole(int k) { static std::string memo[L_N]; std::string& s = memo[k]; if(!s.empty()) return s; if(k == L_CI) return s = text(sample_rows(3, 1, 2), 1, 2, "COS_TH", "ENERGY", "#VS 2 2\n", 2); if(k == L_ASTM) return s = "NAME paint\nNUM_POINTS 3\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n0.125,0.25,0.375,0.5,1.5,2.25,3\n0.5,0,0.25,1,4,5,6.125\n0.75,3,0.5,2,7.25,8,9.5\n";
  static const int S[] = { S_TEXT, 0, S_BINARY, S_GRID, S_RBF, 0, S_SLICE, S_MERL, S_UTIA, S_UTIAEXR }; std::string f = path("whole." + lfile(k)); subject(S[k], 3).save(f); s = tool::slurp(f); unlink(f.c_str()); return s; }
static Meaning meaning(int k, const std::string& p) { if(p == whole(k)) { Meaning m; m.zero = true; return m; } if(k == L_TEXT || k == L_RBF) return text_meaning(p, 0); if(k == L_CI) return text_meaning(p, 2); if(k == L_GRID) return text_meaning(p, 0, 6); if(k == L_ASTM) return astm_meaning(p); if(k == L_BINARY) return binary_meaning(p, 11); Meaning m; m.must_fail = true; return m; }
static void scen_cut(mc::Ctx& c) {
  int k = c.pick(L_N, "format"); tool::clean(); c.tag(LN[k]); const std::string& s = whole(k); std::vector<long> P = points((long)s.size(), k < L_MERL, c.thorough); long n = P[c.pick((int)P.size(), "bytes")]; std::string p = s.substr(0, n), f = path(lfile(k)), w = std::string(LN[k]) + " cut to " + std::to_string(n) + " of " + std::to_string(s.size()) + " bytes"; c.state(w); tool::spit(f, p); ptr<data> d; std::string what; try { d = plugins_manager::load_data(f, LP[k], arguments()); } catch(std::exception& e) { what = e.what(); } c.outcome((bool)d); Meaning m = meaning(k, p);
  if(n == (long)s.size()) { c.check((bool)d, "whole file refused", w + ": " + what); return; } if(m.must_fail) { c.check(!d, "incomplete file loaded", w + (d ? " as " + std::to_string(d->size()) + " samples" : "")); return; } if(!d) { c.check(m.zero || !m.must_fail, "", w); return; }
  if(m.zero && m.r.empty()) { c.check(d->size() == 0, "invented samples", w); return; } int nx = d->parametrization().dimX(), ny = d->parametrization().dimY(); if(!c.check(d->size() == (int)m.r.size(), "invented samples", w + ": " + std::to_string(d->size()) + " not " + std::to_string(m.r.size()))) return; for(int i=0;i<d->size();++i) { vec x = d->get(i); for(int j=0;j<nx+ny;++j) if(!c.check(mc::close(x[j], m.r[i][j], 1e-12, 1e-12), "invented value", w + " row " + std::to_string(i))) return; } }
static void scen_cut_function(mc::Ctx& c) {
  int k = c.pick(nfunc(), "function"), ny = c.flag("one channel") ? 1 : 3; tool::clean(); Sub s = subject(S_FUNC0 + k, ny); c.tag(s.name); if(!c.check((bool)s.f, "missing", s.name)) return; static std::map<std::vector<int>, std::string> memo; std::string& t = memo[{ k, ny }]; if(t.empty() && !reference(c, s, 0, t)) return; size_t e = t.find_last_not_of(" \n\t\r") + 1, b = t.find_last_of(" \n\t", e - 1) + 1; int n = c.pick((int)t.size() + 1, "bytes"); std::string f = path("in.func"), w = s.name + " cut to " + std::to_string(n) + " of " + std::to_string(t.size()) + " bytes"; c.state(w); tool::spit(f, t.substr(0, n)); ptr<function> g; try { g = ptr<function>(plugins_manager::load_function(f)); } catch(std::exception&) {} c.outcome((bool)g);
  if(n == (int)t.size()) c.check((bool)g, "whole file refused", w); else if(n <= (int)b) c.check(!g, "incomplete file loaded", w); }
// ---- tools whose output does not fit
struct T { const char* name; std::string args; const char* out; bool large; };
static const std::vector<T>& TT() { static const std::vector<T> t{
  { "data2data", "--input d.dat --output o.dat", "o.dat", false }, { "data2data", "--input d.dat --output o.dat --out-data alta-binary --param CARTESIAN", "o.dat", false }, { "data2data", "--input d.dat --in-data data_rbf --output o.dat --out-data data_grid --grid-size [2,2]", "o.dat", false },
  { "brdf2data", "--input f.func --data-file d.dat --output o.dat", "o.dat", false }, { "brdf2brdf", "--input f.func --output o.func", "o.func", false }, { "brdf2brdf", "--input f.func --output o.func --export explorer", "o.func", false }, { "brdf2brdf", "--input f.func --output o.func --export shader", "o.func", false }, { "brdf2gnuplot", "--input f.func --data-file d.dat --output o.txt", "o.txt", false }, { "brdf2gnuplot", "--input f.func --polar-plot --samples 8 --output o.txt", "o.txt", false },
  { "brdf2stats", "--brdf f.func --input d.dat --output o.txt", "o.txt", false }, { "data2stats", "--input d.dat --in-data data_rbf --ref d.dat --output o.txt", "o.txt", false }, { "data2moments", "--input d.dat --data data_rbf --samples [3,3] --output o.txt", "o.txt", false }, { "data2brdf", "--input d.dat --func nonlinear_function_diffuse --fitter nonlinear_fitter_eigen --output o.func", "o.func", false }, { "data2brdf", "--input d.dat --fitter rational_fitter_eigen --np 2 --nq 1 --output o.func", "o.func", false },
  { "data2data", "--input d.dat --in-data data_rbf --output o.exr --out-data data_brdf_slice", "o.exr", true }, { "data2data", "--input d.dat --in-data data_rbf --output o.bin --out-data data_utia", "o.bin", true }, { "brdf2data", "--input f.func --data data_merl --output o.bin", "o.bin", true } }; return t; }
static Args split(const std::string& s) { Args r; std::istringstream i(s); std::string w; while(i >> w) r.push_back(w); return r; }
static std::string func_text() { return "#ALTA FUNC HEADER\n#CMD --func nonlinear_function_blinn\n#DIM 1 3\n#PARAM_IN COS_TH\n#PARAM_OUT RGB_COLOR\n#ALTA HEADER END\n\n#FUNC nonlinear_function_blinn\nKs 0.5\nN 3\nKs 0.25\nN 4\nKs 1\nN 10\n"; }
static void inputs() { tool::spit(path("d.dat"), text(sample_rows(4, 2, 3), 2, 3, "RUSIN_TH_TD", "RGB_COLOR")); tool::spit(path("f.func"), func_text()); }
static void scen_tool_full(mc::Ctx& c) {
  int ti = c.pick((int)TT().size(), "tool"); const T& t = TT()[ti]; if(t.large && !c.thorough && ti != 14) c.prune(); tool::clean(); inputs(); std::string w = std::string(t.name) + " " + t.args; c.tag(w); static std::map<int, std::string> memo; std::string& ref = memo[ti]; if(ref.empty()) { tool::Run r = tool::run(t.name, split(t.args), 120); if(!c.check(r.ok(), "status", w + " " + r.str() + " " + r.err.substr(0, 200))) return; ref = tool::slurp(path(t.out)); unlink(path(t.out).c_str()); }
  std::vector<long> P = points((long)ref.size(), !t.large, false); if(t.large) { std::vector<long> q; for(size_t i=0;i<P.size();i+=c.thorough ? 1 : 6) q.push_back(P[i]); q.push_back((long)ref.size()); P = q; } long n = P[c.pick((int)P.size(), "bytes")]; w += " with room for " + std::to_string(n) + " of " + std::to_string(ref.size()) + " bytes"; c.state(w); tool::Run r = tool::run(t.name, split(t.args), 120, n); c.outcome(r.status); c.check(!r.signalled && !r.hung, "crash", w + " " + r.str());
  if(n < (long)ref.size()) c.check(!r.ok(), "success of an incomplete output", w); else c.check(r.ok() && tool::slurp(path(t.out)) == ref, "output", w + " " + r.str() + " " + r.err.substr(0, 200)); }
static void scen_tool_path(mc::Ctx& c) {
  int ti = c.pick((int)TT().size(), "tool"); const T& t = TT()[ti]; if(t.large && !c.thorough) c.prune(); tool::clean(); inputs(); std::string o = t.out, dot = o.substr(o.find('.')); mkdir(path("dirdir" + dot).c_str(), 0755); symlink("/dev/full", path("full" + dot).c_str()); static const char* P[] = { "no/where", "dirdir", "full" }; std::string to = P[c.pick(3, "path")] + dot, a = t.args; a.replace(a.find("--output " + o) + 9, o.size(), to); std::string w = std::string(t.name) + " " + a; c.tag(t.name); c.state(w); tool::Run r = tool::run(t.name, split(a), 120); c.outcome(r.status); c.check(!r.signalled && !r.hung, "crash", w + " " + r.str()); c.check(!r.ok(), "success without an output", w); rmdir(path("dirdir" + dot).c_str()); }
// ---- tools whose input ends early
struct TC { const char* name; std::string args; int kind; const char* in; };   // kind: a format, or -1 for a function
static const std::vector<TC>& TI() { static const std::vector<TC> t{
  { "data2data", "--input x.dat --output o.dat", L_TEXT, "x.dat" }, { "data2data", "--input x.dat --output o.dat", L_CI, "x.dat" }, { "data2data", "--input x.dat --output o.dat --out-data alta-binary", L_BINARY, "x.dat" }, { "data2data", "--input x.dat --in-data data_grid --output o.dat --out-data data_grid --grid-size [2,2]", L_GRID, "x.dat" }, { "data2data", "--input x.dat --in-data data_rbf --output o.dat --out-data data_grid --grid-size [2,2]", L_RBF, "x.dat" }, { "data2data", "--input x.dat --in-data data_astm --output o.dat", L_ASTM, "x.dat" }, { "data2data", "--input x.exr --in-data data_brdf_slice --output o.dat", L_SLICE, "x.exr" },
  { "brdf2data", "--input x.func --data-file d.dat --output o.dat", -1, "x.func" }, { "brdf2data", "--input f.func --data-file x.dat --output o.dat", L_BINARY, "x.dat" }, { "brdf2data", "--input f.func --data-file x.dat --output o.dat", L_TEXT, "x.dat" }, { "brdf2brdf", "--input x.func --output o.func", -1, "x.func" }, { "brdf2gnuplot", "--input x.func --polar-plot --output o.txt", -1, "x.func" }, { "brdf2gnuplot", "--input f.func --data-file x.dat --output o.txt", L_TEXT, "x.dat" }, { "brdf2stats", "--brdf x.func --input d.dat", -1, "x.func" }, { "brdf2stats", "--brdf f.func --input x.dat", L_TEXT, "x.dat" }, { "data2stats", "--input x.dat --in-data data_rbf --ref d.dat", L_RBF, "x.dat" }, { "data2stats", "--input d.dat --in-data data_rbf --ref x.dat", L_TEXT, "x.dat" }, { "data2moments", "--input x.dat --data data_rbf --samples [3,3] --output o.txt", L_RBF, "x.dat" }, { "data2brdf", "--input x.dat --func nonlinear_function_diffuse --fitter nonlinear_fitter_eigen --output o.func", L_TEXT, "x.dat" }, { "data2brdf", "--input x.dat --func nonlinear_function_diffuse --fitter nonlinear_fitter_eigen --output o.func", L_BINARY, "x.dat" } }; return t; }
static void scen_tool_cut(mc::Ctx& c) {
  int ti = c.pick((int)TI().size(), "tool"); const TC& t = TI()[ti]; tool::clean(); inputs(); std::string s = t.kind < 0 ? func_text() : whole(t.kind); int n = c.pick((int)s.size() + 1, "bytes"); std::string p = s.substr(0, n); tool::spit(path(t.in), p); std::string w = std::string(t.name) + " " + t.args + " with " + std::to_string(n) + " of " + std::to_string(s.size()) + " bytes of " + (t.kind < 0 ? "function" : LN[t.kind]); c.tag(t.name); c.state(w); tool::Run r = tool::run(t.name, split(t.args), 60); c.outcome(r.status); c.check(!r.signalled && !r.hung, "crash", w + " " + r.str() + " " + r.err.substr(0, 200));
  bool must; if(t.kind < 0) { size_t e = s.find_last_not_of(" \n") + 1, b = s.find_last_of(" \n", e - 1) + 1; must = n <= (int)b; } else must = meaning(t.kind, p).must_fail; if(n == (int)s.size()) c.check(r.ok(), "refused", w + " " + r.str() + " " + r.err.substr(0, 300)); else if(must) c.check(!r.ok(), "success on incomplete input", w); }
MC_MAIN({"full", scen_full, 4, 60}, {"call", scen_call, 4, 60}, {"path", scen_path, 3, 60}, {"cut", scen_cut, 2, 60}, {"cut_function", scen_cut_function, 3, 60}, {"tool_full", scen_tool_full, 2, 120}, {"tool_path", scen_tool_path, 2, 120}, {"tool_cut", scen_tool_cut, 2, 60})
