// P16: every request answered by the first directory of the search path that can answer it, or by null.
#include "mc.h"
#include "core/plugins_manager.h"
#include "core/vertical_segment.h"
#include "core/rational_function.h"
#include <dlfcn.h>
#include <poll.h>
using namespace alta;
static std::string ROOT, SYS; static const std::string SYSDIR = "/usr/lib/alta_plugins";
// the installation directory is redirected to a scratch directory
extern "C" void* __real_dlopen(const char*, int);
extern "C" void* __wrap_dlopen(const char* f, int fl) { if(f && !strncmp(f, SYSDIR.c_str(), SYSDIR.size()) && f[SYSDIR.size()] == '/') return __real_dlopen((SYS + (f + SYSDIR.size())).c_str(), fl); return __real_dlopen(f, fl); }
enum { NODIR, ABSENT, FUNC, DATA, FIT, ALLK, JUNK, EMPTYF, BADELF, DIRNAMED, DANGLING, LINK, UNRES, UNREAD, NS };
static const char* SN[] = { "no directory", "no file", "function", "data", "fitter", "everything", "text", "empty file", "bad ELF", "directory", "dangling link", "link", "unresolved symbol", "unreadable" };
static const char* SRC =
"#include <core/function.h>\n#include <core/data.h>\n#include <core/fitter.h>\nusing namespace alta;\n"
"#ifdef UNRES\nextern int vp_not_there; int* vp_needs = &vp_not_there;\n#endif\n"
"#ifdef FUNC\nnamespace { struct F : nonlinear_function { F(const alta::parameters& p) : nonlinear_function(p) {} vec value(const vec&) const { return vec::Constant(_parameters.dimY(), 7); } bool load(std::istream&) { return true; } int nbParameters() const { return 0; } vec parameters() const { return vec(0); } void setParameters(const vec&) {} vec parametersJacobian(const vec&) const { return vec(0); } }; }\n"
"extern \"C\" function* provide_function(const parameters& p) { return new F(p); }\n#endif\n"
"#ifdef DATA\nnamespace { struct D : data { D(const alta::parameters& p, int n) : data(p, n) {} vec get(int) const { return vec::Zero(1); } vec value(const vec&) const { return vec::Zero(1); } void set(int, const vec&) {} }; }\n"
"extern \"C\" data* provide_data(size_t n, const parameters& p, const arguments&) { return new D(p, (int)n); }\n"
"extern \"C\" data* load_data(std::istream& in, const arguments& a) { int n = 0; in >> n; return new D(alta::parameters(1, a.is_defined(\"filename\") ? 2 : 1, params::RUSIN_TH_TD, params::RGB_COLOR), n); }\n#endif\n"
"#ifdef FIT\nnamespace { struct T : fitter { bool fit_data(const ptr<data>&, ptr<function>&, const arguments&) { return true; } void set_parameters(const arguments&) {} }; }\n"
"extern \"C\" fitter* provide_fitter() { return new T; }\n#endif\n"
"extern \"C\" int vp_other() { return 1; }\n";
static void sh(const std::string& s) { if(system(s.c_str())) { fprintf(stderr, "failed: %s\n", s.c_str()); exit(3); } }
static void text(const std::string& f, const std::string& s) { std::ofstream o(f.c_str()); o << s; }
static std::string slot(int k, int st) { return ROOT + "/d" + std::to_string(k) + "_" + std::to_string(st); }
static bool DROP = false;      // requests run as an unprivileged user, so that unreadable means unreadable
// file names present in a directory: libvpx.so, and libso.so, libx.so, libvpso.so (short or misleading bare names)
static const std::vector<std::string> NAMES{ "vpx", "libvpx.so", "so", "x", "vpso", "vp.so.so", "vp.so.x", "nope", "" };
static std::string file_of(const std::string& n) { return n.size() > 3 && n.substr(n.size()-3) == ".so" ? n : "lib" + n + ".so"; }
static struct Setup { Setup() {
  const char* s = getenv("VERIF_SCRATCH"); if(!s) return; ROOT = std::string(s) + "/p16"; SYS = ROOT + "/d9_5"; if(access((ROOT + "/ready").c_str(), R_OK) == 0) { DROP = access((ROOT + "/drop").c_str(), R_OK) == 0; return; }
  chmod(s, 0755); mkdir(ROOT.c_str(), 0755); text(ROOT + "/p.cpp", SRC); std::string rep = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo", g = "g++ -std=c++11 -w -shared -fPIC -I" + rep + "/sources -I/usr/include/eigen3 -I/opt/vp/include -I" + rep + "/external/build " + ROOT + "/p.cpp -o " + ROOT + "/";
  sh("( " + g + "k2 -DFUNC & p=$!; " + g + "k3 -DDATA & q=$!; " + g + "k4 -DFIT & r=$!; " + g + "k5 -DFUNC -DDATA -DFIT & t=$!; " + g + "k12 -DFUNC -DDATA -DFIT -DUNRES & u=$!; wait $p && wait $q && wait $r && wait $t && wait $u ) >/dev/null 2>&1");
  text(ROOT + "/k6", "this is not a library\n"); text(ROOT + "/k7", ""); { std::ifstream a((ROOT + "/k5").c_str(), std::ios::binary); std::string b(64, 0); a.read(&b[0], 64); b[4] = 9; std::ofstream o((ROOT + "/k8").c_str(), std::ios::binary); o << b; }
  for(int k : {0, 1, 2, 3, 9}) for(int st=1;st<NS;++st) { std::string d = slot(k, st); mkdir(d.c_str(), 0755); for(auto& n : NAMES) { if(n == "nope" || n.empty() || (st == ABSENT)) continue; std::string f = d + "/" + file_of(n); if(st == DIRNAMED) { mkdir(f.c_str(), 0755); continue; }
    if(st == DANGLING) { if(symlink("nowhere", f.c_str())) {} continue; } if(st == LINK) { if(access((f + ".real").c_str(), F_OK)) { std::ifstream a((ROOT + "/k5").c_str(), std::ios::binary); std::ofstream o((f + ".real").c_str(), std::ios::binary); o << a.rdbuf(); } if(symlink((f + ".real").c_str(), f.c_str())) {} continue; }
    std::string from = ROOT + "/k" + std::to_string(st == UNREAD ? (int)ALLK : st); std::ifstream a(from.c_str(), std::ios::binary); std::ofstream o(f.c_str(), std::ios::binary); o << a.rdbuf(); o.close(); if(st == JUNK) {} if(st == EMPTYF) { std::ofstream e(f.c_str(), std::ios::trunc); } if(st == UNREAD) chmod(f.c_str(), 0); } }
  text(ROOT + "/data.txt", "3\n");
  for(auto& n : NAMES) text(ROOT + "/f_" + n, "#ALTA FUNC HEADER\n#DIM 2 3\n#PARAM_IN RUSIN_TH_TD\n#PARAM_OUT RGB_COLOR\n#CMD --func " + n + "\n#ALTA HEADER END\n");
  if(geteuid() == 0) { pid_t p = fork(); if(p == 0) { if(setgid(65534) || setuid(65534)) _exit(1); _exit(access((slot(1, ALLK) + "/libvpx.so").c_str(), R_OK) == 0 && access((slot(1, UNREAD) + "/libvpx.so").c_str(), R_OK) != 0 ? 0 : 1); } int st; waitpid(p, &st, 0); if(st == 0) { DROP = true; text(ROOT + "/drop", ""); } }
  else if(access((slot(1, UNREAD) + "/libvpx.so").c_str(), R_OK) != 0) { text(ROOT + "/drop", ""); DROP = true; }
  text(ROOT + "/ready", "");
} } setup_;
enum { R_FUNC, R_FUNC_ARGS, R_FUNC_LIST, R_FRESNEL, R_FUNC_FILE, R_DATA, R_LOAD_STREAM, R_LOAD_FILE, R_FIT, NR };
static const char* RN[] = { "get_function(name)", "get_function(--func)", "get_function(--func [..])", "get_function(--fresnel)", "load_function", "get_data", "load_data(stream)", "load_data(file)", "get_fitter" };
template<class T> static std::string where(T* o) { if(!o) return "null"; void* vt = *(void**)(void*)o; Dl_info i; if(!dladdr(vt, &i) || !i.dli_fname) return "?"; std::string f = i.dli_fname; if(f.compare(0, ROOT.size(), ROOT) || f.find("/d") == std::string::npos) return "core"; return f.substr(f.find("/d", ROOT.size()) + 1); }
static const parameters PR(2, 3, params::RUSIN_TH_TD, params::RGB_COLOR);
static std::string fsig(function* f) { if(!f) return "null"; if(f->parametrization().dimX() != 2 || f->parametrization().dimY() != 3 || f->parametrization().input_parametrization() != params::RUSIN_TH_TD || f->parametrization().output_parametrization() != params::RGB_COLOR) return "wrong parameters"; if(f->value(vec::Zero(2))[0] != 7) return "wrong value"; return where(f); }
static std::string request(int r, const std::string& n) {
  try {
  if(r == R_FUNC) { ptr<function> f = plugins_manager::get_function(n, PR); return fsig(f.get()); }
  if(r == R_FUNC_ARGS) return fsig(plugins_manager::get_function(arguments::create_arguments("--func " + n), PR));
  if(r == R_FUNC_LIST) { function* f = plugins_manager::get_function(arguments::create_arguments("--func [" + n + "]"), PR); if(!f) return "null"; compound_function* c = dynamic_cast<compound_function*>(f); return c && c->size() == 1 ? fsig((*c)[0]) : "not a list"; }
  if(r == R_FRESNEL) { function* f = plugins_manager::get_function(arguments::create_arguments("--func " + n + " --fresnel " + n), PR); if(!f) return "null"; product_function* p = dynamic_cast<product_function*>(f); if(!p) return "not a product"; std::string a = fsig(p->first()), b = fsig(p->second()); return a == b ? a : "two"; }
  if(r == R_FUNC_FILE) { return fsig(plugins_manager::load_function(ROOT + "/f_" + n)); }
  if(r == R_DATA) { ptr<data> d = plugins_manager::get_data(n, 5, PR, arguments::create_arguments("--a 1")); if(!d) return "null"; if(d->size() != 5 || d->parametrization().dimX() != 2 || d->parametrization().dimY() != 3) return "wrong size"; return where(d.get()); }
  if(r == R_LOAD_STREAM || r == R_LOAD_FILE) { std::istringstream in("3\n"); ptr<data> d = r == R_LOAD_STREAM ? plugins_manager::load_data(n, in, arguments::create_arguments("--a 1")) : plugins_manager::load_data(ROOT + "/data.txt", n, arguments::create_arguments("--a 1"));
    if(!d) return "null"; if(d->size() != 3 || d->parametrization().dimY() != (r == R_LOAD_FILE ? 2 : 1)) return "wrong size"; return where(d.get()); }
  ptr<fitter> t = plugins_manager::get_fitter(n); return where(t.get());
  } catch(std::exception& e) { return std::string("exception ") + e.what(); } catch(...) { return "exception"; }
}
static bool provides(int st, int r) { bool f = r <= R_FUNC_FILE, d = r >= R_DATA && r <= R_LOAD_FILE, t = r == R_FIT; if(st == ALLK || st == LINK || (st == UNREAD && !DROP)) return true; return (st == FUNC && f) || (st == DATA && d) || (st == FIT && t); }
struct Ent { int slot, st; std::string text; };
static std::string expect(const std::vector<Ent>& path, int r, const std::string& n) {
  if(n == "nope") return "null"; if(n.empty() && (r == R_FUNC || r == R_FIT || r == R_FUNC_LIST)) return "null";
  for(auto& e : path) if(provides(e.st, r)) return "d" + std::to_string(e.slot) + "_" + std::to_string(e.st) + "/" + file_of(n); return "null";
}
static std::vector<std::string> in_child(mc::Ctx& c, const std::vector<std::pair<std::string,std::pair<int,std::string> > >& q, const std::string& w) {   // path, request, name
  int fd[2]; if(pipe(fd)) c.prune(); pid_t p = fork();
  if(p == 0) { ::close(fd[0]); if(DROP && geteuid() == 0) { if(setgid(65534) || setuid(65534)) _exit(9); } std::string o; for(auto& x : q) { if(x.first == "\1") unsetenv("ALTA_PLUGIN_PATH"); else setenv("ALTA_PLUGIN_PATH", x.first.c_str(), 1); o = request(x.second.first, x.second.second) + "\n"; if(write(fd[1], o.c_str(), o.size()) < 0) _exit(8); } _exit(0); }
  ::close(fd[1]); std::string s; char b[512]; ssize_t k; while((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k); ::close(fd[0]); int st; waitpid(p, &st, 0); if(st != 0) c.fail("crash", w + " process ended with status " + std::to_string(st));
  std::vector<std::string> r; std::istringstream is(s); std::string l; while(std::getline(is, l)) r.push_back(l); r.resize(q.size(), "(no answer)"); return r;
}
static std::string join(const std::vector<Ent>& p) { std::string s; for(size_t k=0;k<p.size();++k) s += (k ? ":" : "") + p[k].text; return s; }
static std::string describe(const std::vector<Ent>& p) { std::string s = "["; for(auto& e : p) s += e.slot == 9 ? "(install) " : std::string(SN[e.st]) + "; "; return s + "]"; }
// every request against every pair (thorough: triple) of directories
static void scen_search(mc::Ctx& c) {
  static const std::vector<int> FEW{ ABSENT, FUNC, DATA, FIT, ALLK, JUNK, UNRES };
  int n = 1 + c.pick(c.thorough ? 4 : 3, "directories"); std::vector<Ent> path; for(int k=0;k<n;++k) { int st = n <= 2 || (n == 3 && c.thorough) ? c.pick(NS, "state") : c.of(FEW, "state"); path.push_back({ k, st, slot(k, st) }); }
  int r = c.pick(NR, "request"); std::string nm = n == 1 ? NAMES[c.pick((int)NAMES.size()-1, "name")] : NAMES[c.pick(2, "name")]; if(nm == "vp.so.so" && r == R_FUNC_FILE) c.prune();
  std::string w = std::string(RN[r]) + " of " + nm + " in " + describe(path), e = expect(path, r, nm); c.tag(RN[r]); c.state(w); std::string g = in_child(c, { { join(path), { r, nm } } }, w)[0];
  c.check(g == e, RN[r], w + " is " + g + " not " + e); c.outcome(g);
}
// empty entries stand for the installation directory, wherever they are
static void scen_install(mc::Ctx& c) {
  int n = c.pick(4, "entries"); std::vector<Ent> path; bool unset = false; Ent inst{ 9, ALLK, "" }; if(n == 0) { unset = c.flag("unset"); path.push_back(inst); } static const std::vector<int> FEW{ ABSENT, ALLK, JUNK, FUNC, NODIR };
  for(int k=0;k<n;++k) { if(c.flag("empty entry")) path.push_back(inst); else { int st = c.of(FEW, "state"); path.push_back({ k, st, slot(k, st) }); } }
  std::string s = n == 0 ? (unset ? "\1" : "") : join(path); if(n == 1 && s.empty()) c.prune(); int r = c.pick(NR, "request"); std::string w = std::string(RN[r]) + " in " + describe(path), e = expect(path, r, "vpx"); c.tag("install"); c.state(w + s);
  std::string g = in_child(c, { { s, { r, "vpx" } } }, w)[0]; c.check(g == e, "installation directory", w + " is " + g + " not " + e); c.outcome(g);
}
// two (thorough three) requests in one process: an answer does not depend on the requests before it
static void scen_history(mc::Ctx& c) {
  static const std::vector<int> FEW{ ABSENT, FUNC, DATA, FIT, ALLK, JUNK, UNRES }; int n = c.thorough ? 3 : 2; std::vector<std::pair<std::string,std::pair<int,std::string> > > q; std::vector<std::string> e; std::string w;
  for(int k=0;k<n;++k) { std::vector<Ent> path; int m = k == 0 ? 1 : 2; for(int j=0;j<m;++j) { int st = c.of(FEW, "state"); path.push_back({ j, st, slot(j, st) }); } static const std::vector<int> RQ{ R_FUNC, R_DATA, R_LOAD_STREAM, R_FIT, R_FRESNEL }; int r = c.thorough && k == 2 ? (int)R_FUNC : c.of(RQ, "request"); q.push_back({ join(path), { r, "vpx" } }); e.push_back(expect(path, r, "vpx")); w += std::string(RN[r]) + " in " + describe(path) + ", then "; }
  c.tag("history"); auto g = in_child(c, q, w); for(int k=0;k<n;++k) { c.check(g[k] == e[k], std::string("history ") + RN[q[k].second.first], w + std::to_string(k) + " is " + g[k] + " not " + e[k]); c.outcome(g[k]); c.state(w + std::to_string(k)); }
}
// requests that name no plugin: built-in kinds, and files that cannot be opened
static void scen_builtin(mc::Ctx& c) {
  int k = c.pick(17, "case"), st = c.of(std::vector<int>{ ABSENT, ALLK }, "state"); std::string path = slot(0, st); setenv("ALTA_PLUGIN_PATH", path.c_str(), 1); c.tag("built in"); bool ok = false; std::string w;
  switch(k) {
    case 0: { w = "rational_function by name"; ptr<function> f = plugins_manager::get_function("rational_function", PR); ok = dynamic_cast<rational_function*>(f.get()) && f->parametrization().dimX() == 2 && f->parametrization().dimY() == 3; break; }
    case 1: { w = "--func rational_function"; function* f = plugins_manager::get_function(arguments::create_arguments("--func rational_function"), PR); ok = dynamic_cast<rational_function*>(f) != 0; break; }
    case 2: { w = "no --func"; function* f = plugins_manager::get_function(arguments::create_arguments("--other 1"), PR); ok = dynamic_cast<rational_function*>(f) != 0; break; }
    case 3: { w = "no data plugin"; ptr<data> d = plugins_manager::get_data("", 3, PR, arguments()); ok = dynamic_cast<vertical_segment*>(d.get()) && d->size() == 3 && d->parametrization().dimX() == 2; break; }
    case 4: { w = "vertical_segment"; ptr<data> d = plugins_manager::get_data("vertical_segment", 3, PR, arguments()); ok = dynamic_cast<vertical_segment*>(d.get()) && d->size() == 3; break; }
    case 5: { w = "load text"; std::istringstream in("#DIM 1 1\n0.5 2\n0.25 3\n"); ptr<data> d = plugins_manager::load_data("", in, arguments()); ok = d && d->size() == 2 && d->get(1)[1] == 3; break; }
    case 6: { w = "file that does not exist"; try { ptr<data> d = plugins_manager::load_data(ROOT + "/none", "", arguments()); ok = !d; } catch(std::exception&) { ok = true; } break; }
    case 7: { w = "function file that does not exist"; ok = plugins_manager::load_function(ROOT + "/none") == NULL; break; }
    case 8: { w = "empty names"; ok = !plugins_manager::get_function("", PR) && !plugins_manager::get_fitter("") && !plugins_manager::get_function(arguments::create_arguments("--func []"), PR); break; }
    case 9: case 10: case 11: case 12: case 13: { static const char* A[] = { "--func vpx --fresnel rational_function", "--func rational_function --fresnel vpx", "--func vpx --fresnel nope", "--func [vpx, rational_function]", "--func [vpx, nope]" }; w = A[k-9]; ok = plugins_manager::get_function(arguments::create_arguments(A[k-9]), PR) == NULL; break; }
    case 14: case 15: case 16: { static const char* D[] = { "2 0", "0 3", "2 -1" }; w = std::string("function file of dimensions ") + D[k-14]; text(ROOT + "/f_dim" + std::to_string(k) + "_" + std::to_string(st) + "_" + std::to_string(getpid()), std::string("#ALTA FUNC HEADER\n#DIM ") + D[k-14] + "\n#PARAM_IN RUSIN_TH_TD\n#PARAM_OUT RGB_COLOR\n#CMD --func vpx\n#ALTA HEADER END\n"); std::string f = ROOT + "/f_dim" + std::to_string(k) + "_" + std::to_string(st) + "_" + std::to_string(getpid()); ok = plugins_manager::load_function(f) == NULL; unlink(f.c_str()); break; }
  }
  c.check(ok, "built in", w + " in " + SN[st]); c.outcome(k); c.state(w + SN[st]);
}
// long search paths: directories repeat, and only the one at some place answers
static void scen_long(mc::Ctx& c) {
  static const std::vector<int> NS{ 5, 8, 17, 40 }, OTHER{ ABSENT, JUNK, NODIR, DATA, UNRES }; int n = c.of(NS, "directories"), at = c.pick(n + 1, "place"), r = c.of(std::vector<int>{ R_FUNC, R_FUNC_ARGS, R_FRESNEL, R_FIT, R_FUNC_FILE }, "request"), good = r == R_FIT ? FIT : FUNC, o = c.of(OTHER, "other"), o2 = c.flag("mixed") ? ABSENT : o; std::vector<Ent> path; for(int k=0;k<n;++k) { int st = k == at ? good : k > at && k % 2 ? (int)ALLK : k % 3 ? o : o2; path.push_back({ k % 4, st, slot(k % 4, st) }); } Ent inst{ 9, ALLK, "" }; int em = c.pick(3, "empty entry"); if(em == 1) path.push_back(inst); else if(em == 2) path.insert(path.begin() + n/2, inst);
  std::string w = std::string(RN[r]) + " in " + std::to_string(n) + (em == 1 ? " and a last empty entry," : em == 2 ? " and an empty entry between them," : "") + " directories, answered by " + std::to_string(at), e = expect(path, r, "vpx"); c.tag("long"); c.state(w + SN[o] + SN[o2]); std::string g = in_child(c, { { join(path), { r, "vpx" } } }, w)[0]; c.check(g == e, "long path", w + " is " + g + " not " + e); c.outcome(g); }
MC_MAIN({"long", scen_long, 3, 20}, {"search", scen_search, 3, 20}, {"install", scen_install, 3, 20}, {"history", scen_history, 3, 20}, {"builtin", scen_builtin, 2, 20})
