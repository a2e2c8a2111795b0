// Running ALTA's command-line tools from a harness, each in a directory of its own.
#pragma once
#include "mc.h"
#include <dirent.h>
#include <spawn.h>
extern char** environ;
namespace tool {
struct Run { int status; bool signalled, hung; std::string out, err; bool ok() const { return !signalled && !hung && status == 0; } bool failed() const { return !signalled && !hung && status != 0; }
  std::string str() const { return hung ? "did not end" : signalled ? "was ended by signal " + std::to_string(status) : "exited with " + std::to_string(status); } };
inline std::string env(const char* n, const char* d) { const char* s = getenv(n); return s ? s : d; }
inline std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o << s; }
// a scratch directory of this process
inline const std::string& dir() { static std::string d; static pid_t p = 0; if(p != getpid()) { p = getpid(); d = env("VERIF_SCRATCH", "/tmp") + "/t" + std::to_string((int)p); mkdir(d.c_str(), 0755); } return d; }
inline void clean() { DIR* d = opendir(dir().c_str()); if(!d) return; while(dirent* e = readdir(d)) { std::string n = e->d_name; if(n == "." || n == "..") continue; unlink((dir() + "/" + n).c_str()); } closedir(d); }
inline Run run(const std::string& name, const std::vector<std::string>& a, double timeout = 20, long fsize = -1) {
  std::string exe = name[0] == '/' ? name : env("VERIF_B", "/repo/_build") + "/softs/" + name, o = dir() + "/.out", e = dir() + "/.err"; Run r; r.status = 0; r.signalled = r.hung = false;
  std::string wd = dir(); pid_t p = fork(); if(p == 0) { int fo = open(o.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644), fi = open("/dev/null", O_RDONLY); dup2(fi,0); dup2(fo,1); dup2(fe,2); if(chdir(wd.c_str())) _exit(126);
    if(fsize >= 0) { struct rlimit l; l.rlim_cur = l.rlim_max = fsize; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); } struct rlimit c; c.rlim_cur = c.rlim_max = 0; setrlimit(RLIMIT_CORE, &c);
    std::vector<char*> v; v.push_back((char*)exe.c_str()); for(auto& s : a) v.push_back((char*)s.c_str()); v.push_back(0); execv(exe.c_str(), &v[0]); _exit(127); }
  double t0 = mc::now(); int st = 0; useconds_t w = 200; while(true) { pid_t q = waitpid(p, &st, WNOHANG); if(q == p) break; if(mc::now() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); r.hung = true; break; } usleep(w); if(w < 2000) w += 200; }
  if(WIFSIGNALED(st)) { r.signalled = true; r.status = WTERMSIG(st); } else r.status = WEXITSTATUS(st);
  r.out = slurp(o); r.err = slurp(e); return r;
}
// all numbers of a text
inline std::vector<double> numbers(const std::string& s) { std::vector<double> r; const char* p = s.c_str(); while(*p) { if((*p >= '0' && *p <= '9') || ((*p == '-' || *p == '+') && ((p[1] >= '0' && p[1] <= '9') || p[1] == '.' || p[1] == 'i' || p[1] == 'n')) || (*p == '.' && p[1] >= '0' && p[1] <= '9') || !strncmp(p, "nan", 3) || !strncmp(p, "inf", 3)) { char* e; double d = strtod(p, &e); if(e != p) { r.push_back(d); p = e; continue; } } ++p; } return r; }
struct File { std::map<std::string,std::string> head; std::vector<std::vector<double> > rows; };
inline File table(const std::string& s) { File f; std::istringstream in(s); std::string l; while(std::getline(in, l)) { if(!l.empty() && l[0] == '#') { size_t k = l.find_first_of(" \t", 1); std::string key = l.substr(1, k == std::string::npos ? k : k-1), v; if(k != std::string::npos) { v = l.substr(l.find_first_not_of(" \t", k) == std::string::npos ? l.size() : l.find_first_not_of(" \t", k)); while(!v.empty() && (v.back() == ' ' || v.back() == '\r' || v.back() == '\t')) v.pop_back(); } f.head[key] = v; continue; } std::vector<double> r; std::istringstream ls(l); std::string w; while(ls >> w) r.push_back(strtod(w.c_str(), 0)); if(!r.empty()) f.rows.push_back(r); } return f; }
}
