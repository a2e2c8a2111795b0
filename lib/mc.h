// mc.h -- a small stateless model checker for in-process C++ code.
//
// A scenario is an ordinary function that drives the real library and asks the
// engine for every nondeterministic decision (operation, operand, fault point,
// schedule, ...) with ctx.pick(n).  The engine re-executes the scenario once
// for every sequence of answers, depth first, until the bounded tree of
// behaviours is exhausted.  Work is split over forked workers; a worker that
// dies or hangs is itself a violation, attributed to the decision sequence that
// was running, and exploration resumes with the next sequence.
//
// Every violation is stored with its decision vector, which replays it alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <cmath>
#include <limits>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>

namespace mc {

static const int MAXD = 512;

static const int RING = 48, RINGW = 96;
struct Shm {
  volatile int n;                 // number of decisions made so far
  volatile int val[MAXD], ar[MAXD];
  volatile unsigned long execs;
  volatile double started;        // start of the running execution, 0 = idle
  volatile int done;
  char tag[256];
  volatile int ring[RING][RINGW], rn[RING]; volatile unsigned long nring;   // decisions of the executions this process ran before
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2);
  h *= 0xff51afd7ed558ccdull; h ^= h>>33; return h;
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h;
}
inline uint64_t hdbl(double d) { uint64_t u; if(d == 0.0) d = 0.0; memcpy(&u, &d, 8); return u; }

struct Skip {};      // branch belongs to another worker
struct Pruned {};    // scenario gave up on this branch (not a complete execution)

struct Viol { std::string scen, sig, msg, hist; std::vector<int> ch; unsigned long count; bool repro; std::string mode; };

// leave small numbers where the next calls have their local variables, so that one read before it is written is seen
__attribute__((noinline)) inline void dirty(int v = 1) { volatile int a[16384]; for(int i=0;i<16384;++i) a[i] = v; asm volatile("" : : "r"(a) : "memory"); }
inline std::string history(Shm* s);
class Ctx {
 public:
  Shm* shm; bool replay; bool thorough;
  std::vector<int> prefix;                 // forced decisions
  int shard, nshards, split; unsigned long ord;
  bool skipping_enabled;
  uint64_t dig; bool trivial;
  unsigned long transitions;
  std::unordered_set<uint64_t>* states;
  std::vector<Viol>* out; std::string scen;
  std::map<std::string,int>* seen;
  std::ostringstream tr;
  FILE* log;   // violations are logged as they appear, so a later crash loses none

  Ctx() : shm(0), replay(false), thorough(false), shard(0), nshards(1), split(2), ord(0), skipping_enabled(false),
          dig(0), trivial(false), transitions(0), states(0), out(0), seen(0), log(0) {}

  int pick(int n, const char* label = "") {
    if(n <= 0) { fail(std::string("empty:") + label, "nothing to choose from"); throw Pruned(); }
    int d = shm->n;
    if(d >= MAXD) { fprintf(stderr, "mc: too deep\n"); _exit(98); }
    int v = d < (int)prefix.size() ? prefix[d] : 0;
    if(v >= n) { v = n-1; }
    shm->val[d] = v; shm->ar[d] = n; shm->n = d+1;
    if(d < split && skipping_enabled) {
      ord = ord * (unsigned)n + (unsigned)v;
      if(d+1 == split && (int)(mix(ord, 12345) % (unsigned)nshards) != shard) throw Skip();
    }
    if(replay) { tr << "  choice " << d << " " << label << " = " << v << " of " << n << "\n"; }
    return v;
  }
  bool flag(const char* label = "") { return pick(2, label) == 1; }
  template<class T> const T& of(const std::vector<T>& v, const char* label = "") { return v[pick((int)v.size(), label)]; }

  void tag(const std::string& s) { strncpy(shm->tag, s.c_str(), 255); shm->tag[255] = 0; }
  void prune() { throw Pruned(); }
  // a reached model state (hash) by one transition
  void state(uint64_t h) { ++transitions; if(states) states->insert(h); }
  void state(const std::string& s) { state(hstr(s)); }
  void outcome(uint64_t h) { dig = mix(dig, h); }
  void outcome(const std::string& s) { dig = mix(dig, hstr(s)); }
  void outcome(int v) { dig = mix(dig, (uint64_t)(int64_t)v); }
  void outcome(double d) { dig = mix(dig, hdbl(d)); }
  void note(const std::string& s) { if(replay) tr << "  " << s << "\n"; }

  void fail(const std::string& sig, const std::string& msg) {
    if(replay) tr << "  VIOLATED " << sig << ": " << msg << "\n";
    int& c = (*seen)[sig];
    ++c;
    if(c == 1) {
      Viol v; v.scen = scen; v.sig = sig; v.msg = msg; v.count = 1; v.repro = false;
      for(int i=0;i<shm->n;++i) v.ch.push_back((int)shm->val[i]);
      out->push_back(v);
      if(log) {
        fprintf(log, "V 1 "); for(int x : v.ch) fprintf(log, "%d,", x);
        std::string m = msg; for(char& k : m) if(k=='\n'||k=='\t') k=' ';
        fprintf(log, "\t%s\t%s\t%s\n", sig.c_str(), m.c_str(), history(shm).c_str()); fflush(log);
      }
    }
  }
  bool check(bool ok, const std::string& sig, const std::string& msg) { if(!ok) fail(sig, msg); return ok; }
};

typedef void (*ScenarioFn)(Ctx&);
struct Scenario { const char* name; ScenarioFn fn; int split; double timeout; };

// ---------------------------------------------------------------- helpers
inline std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
template<class V> inline std::string vstr(const V& v) {
  std::ostringstream o; o.precision(17); o << "[";
  for(int i=0;i<(int)v.size();++i) { if(i) o << ", "; o << v[i]; } o << "]"; return o.str();
}
inline std::string dstr(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
// relative-or-absolute closeness; NaN never close
inline bool close(double a, double b, double rel, double abs) {
  if(a == b) return true;
  if(!(std::isfinite(a) && std::isfinite(b))) return false;
  double d = std::fabs(a-b);
  return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

struct Tally {
  unsigned long execs, trans, pruned, edges; std::unordered_set<uint64_t> digs, states; std::vector<Viol> viol;
  std::vector<std::string> samples; unsigned long crashes; bool complete;
  Tally() : execs(0), trans(0), pruned(0), edges(0), crashes(0), complete(true) {}
};

// the executions the process of s ran before the present one, oldest first: "1,0,2;1,0,3;"
inline std::string history(Shm* s) {
  std::ostringstream o; unsigned long n = s->nring;
  for(unsigned long k = n > (unsigned long)RING ? n - RING : 0; k < n; ++k) { int r = k % RING; for(int i=0;i<s->rn[r];++i) o << (i ? "," : "") << s->ring[r][i]; o << ";"; }
  return o.str();
}
inline void remember(Shm* s) {
  if(s->n > RINGW) return; int r = s->nring % RING; for(int i=0;i<s->n;++i) s->ring[r][i] = s->val[i]; s->rn[r] = s->n; s->nring = s->nring + 1;
}
inline std::vector<int> numbers(const std::string& t) { std::vector<int> v; std::istringstream cs(t); std::string x; while(std::getline(cs, x, ',')) if(!x.empty()) v.push_back(atoi(x.c_str())); return v; }
inline bool advance(Shm* s, std::vector<int>& next) {
  int n = s->n;
  while(n > 0 && s->val[n-1] + 1 >= s->ar[n-1]) --n;
  if(n == 0) return false;
  next.assign(n, 0);
  for(int i=0;i<n;++i) next[i] = s->val[i];
  next[n-1]++;
  return true;
}

inline void run_one(const Scenario& sc, Ctx& c) {
  c.shm->n = 0; c.dig = 0; c.ord = 0; c.transitions = 0; c.trivial = false;
  c.tag("");
  c.shm->started = now();
  try { sc.fn(c); }
  catch(Skip&) { c.shm->started = 0; throw; }
  catch(Pruned&) { c.shm->started = 0; throw; }
  catch(std::exception& e) { c.fail(std::string("exception:") + sc.name + ":" + c.shm->tag, std::string("uncaught exception ") + e.what()); }
  catch(...) { c.fail(std::string("exception:") + sc.name + ":" + c.shm->tag, "uncaught non-standard exception"); }
  c.shm->started = 0;
}

inline void quiet() {
  int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2); dup2(fd, 0); ::close(fd);
}

// one worker over one shard; writes its tally to file
inline void worker(const Scenario& sc, Shm* shm, int shard, int nshards, bool thorough,
                   std::vector<int> start, const std::string& file, double deadline) {
  Tally t; std::map<std::string,int> seen;
  Ctx c; c.shm = shm; c.thorough = thorough; c.shard = shard; c.nshards = nshards; c.split = sc.split;
  c.skipping_enabled = nshards > 1; c.states = &t.states; c.out = &t.viol; c.seen = &seen; c.scen = sc.name;
  c.prefix = start;
  FILE* f = fopen(file.c_str(), "w"); c.log = f;
  bool more = true;
  while(more) {
    try {
      run_one(sc, c);
      bool mine = !(c.skipping_enabled && shm->n < c.split && c.shard != 0);   // short executions are run by every shard, counted once
      if(mine) { ++t.execs; t.trans += c.transitions; t.edges += shm->n - (c.prefix.empty() ? 0 : (int)c.prefix.size() - 1); }
      shm->execs = t.execs;
      if(mine && !c.trivial) t.digs.insert(c.dig);
      if(t.samples.size() < 2) {
        std::ostringstream o; o << sc.name << ":"; for(int i=0;i<shm->n;++i) o << (i?",":"") << shm->val[i]; o << " -> " << std::hex << c.dig;
        t.samples.push_back(o.str());
      }
      remember(shm);
    } catch(Skip&) {} catch(Pruned&) { ++t.pruned; remember(shm); }
    more = advance(shm, c.prefix);
    if(now() > deadline) { t.complete = !more; more = false; }
  }
  fprintf(f, "E %lu %lu %lu %d %lu\n", t.execs, t.trans, t.pruned, (int)t.complete, t.edges);
  for(uint64_t d : t.digs) fprintf(f, "D %llx\n", (unsigned long long)d);
  for(uint64_t d : t.states) fprintf(f, "S %llx\n", (unsigned long long)d);
  for(auto& s : t.samples) fprintf(f, "P %s\n", s.c_str());
  for(auto& v : seen) fprintf(f, "C %d\t%s\n", v.second - 1, v.first.c_str());
  fclose(f);
  shm->done = 1;
}

inline void load_tally(const std::string& file, const Scenario& sc, Tally& t) {
  std::ifstream in(file.c_str()); std::string line;
  while(std::getline(in, line)) {
    if(line[0]=='E') { unsigned long a,b,p,e; int c; sscanf(line.c_str(), "E %lu %lu %lu %d %lu", &a,&b,&p,&c,&e); t.execs+=a; t.edges+=e; t.trans+=b; t.pruned+=p; if(!c) t.complete=false; }
    else if(line[0]=='D') t.digs.insert(strtoull(line.c_str()+2, 0, 16));
    else if(line[0]=='S') t.states.insert(strtoull(line.c_str()+2, 0, 16));
    else if(line[0]=='C') {
      size_t t1 = line.find('\t'); std::string sg = line.substr(t1+1);
      for(auto& o : t.viol) if(o.sig == sg) o.count += strtoul(line.c_str()+2, 0, 10);
    }
    else if(line[0]=='P') t.samples.push_back(line.substr(2));
    else if(line[0]=='V') {
      Viol v; v.scen = sc.name; v.repro=false;
      size_t t1 = line.find('\t'), t2 = line.find('\t', t1+1);
      std::string head = line.substr(2, t1-2); v.sig = line.substr(t1+1, t2-t1-1); size_t t3 = line.rfind('\t'); v.msg = line.substr(t2+1, t3-t2-1); v.hist = line.substr(t3+1);
      std::istringstream hs(head); hs >> v.count; std::string ch; hs >> ch; std::istringstream cs(ch); std::string x;
      while(std::getline(cs, x, ',')) if(!x.empty()) v.ch.push_back(atoi(x.c_str()));
      bool merged=false;
      for(auto& o : t.viol) if(o.sig == v.sig) { o.count += v.count; merged = true; }
      if(!merged) t.viol.push_back(v);
    }
  }
}

inline Shm* newshm() {
  Shm* s = (Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  memset((void*)s, 0, sizeof(Shm)); return s;
}

// Runs one decision vector in a fresh child; returns the signatures it violated.
inline std::set<std::string> replay_child(const Scenario& sc, const std::vector<int>& ch, bool thorough, const std::string& scratch, bool show, const std::string& hist = "") {
  std::set<std::string> sigs;
  Shm* shm = newshm();
  std::string file = scratch + "/replay.out";
  unlink(file.c_str());
  pid_t p = fork();
  if(p == 0) {
    if(!show) quiet();
    std::vector<Viol> out; std::map<std::string,int> seen; std::istringstream hs(hist); std::string h; int nh = 0;
    while(std::getline(hs, h, ';')) { std::vector<Viol> o; std::map<std::string,int> sn; Ctx c; c.shm = shm; c.thorough = thorough; c.prefix = numbers(h); c.scen = sc.name; c.out = &o; c.seen = &sn; try { run_one(sc, c); } catch(...) {} ++nh; }
    if(show && nh) fprintf(stderr, "  after %d other executions in the same process\n", nh);
    Ctx c; c.shm = shm; c.replay = true; c.thorough = thorough; c.prefix = ch; c.scen = sc.name; c.out = &out; c.seen = &seen;
    try { run_one(sc, c); } catch(...) {}
    FILE* f = fopen(file.c_str(), "w"); for(auto& v : out) fprintf(f, "%s\n", v.sig.c_str()); fclose(f);
    if(show) { std::cout.flush(); fprintf(stderr, "%s", c.tr.str().c_str()); fflush(stderr); }
    shm->done = 1; _exit(0);
  }
  double t0 = now(); int st; bool hung = false;
  while(waitpid(p, &st, WNOHANG) == 0) {
    usleep(2000);
    if(now() - t0 > sc.timeout*(hist.empty() ? 1 : 2)) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
  }
  if(!shm->done) {
    std::string what = hung ? "hang" : "crash";
    sigs.insert(what + ":" + sc.name + ":" + (const char*)shm->tag);
    if(show) fprintf(stderr, "  VIOLATED %s (%s)\n", sigs.begin()->c_str(), hung ? "no answer in time" : strsignal(WTERMSIG(st)));
  } else {
    std::ifstream in(file.c_str()); std::string l; while(std::getline(in, l)) sigs.insert(l);
  }
  munmap((void*)shm, sizeof(Shm));
  return sigs;
}

inline void explore(const Scenario& sc, int nw, bool thorough, const std::string& scratch, double deadline, unsigned maxhang, Tally& t) {
  std::vector<Shm*> sh(nw); std::vector<pid_t> pid(nw); std::vector<int> gen(nw, 0); std::vector<bool> live(nw, true);
  std::vector<std::vector<std::string> > files(nw);
  auto launch = [&](int w, std::vector<int> start) {
    sh[w]->done = 0; sh[w]->nring = 0; sh[w]->n = 0; sh[w]->started = 0; sh[w]->execs = 0;
    std::ostringstream f; f << scratch << "/" << sc.name << "." << w << "." << gen[w]++;
    files[w].push_back(f.str());
    pid_t p = fork();
    if(p == 0) { quiet(); worker(sc, sh[w], w, nw, thorough, start, f.str(), deadline); _exit(0); }
    pid[w] = p;
  };
  for(int w=0; w<nw; ++w) { sh[w] = newshm(); launch(w, std::vector<int>()); }
  int nlive = nw;
  while(nlive > 0) {
    usleep(1000);
    for(int w=0; w<nw; ++w) if(live[w]) {
      int st; bool hung = false; pid_t r = waitpid(pid[w], &st, WNOHANG);
      if(r == 0) {
        double s = sh[w]->started;
        if(s > 0 && now() - s > sc.timeout) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hung = true; }
        else continue;
      }
      if(sh[w]->done) { live[w] = false; --nlive; continue; }
      if(!hung && WIFEXITED(st) && WEXITSTATUS(st) >= 97) { fprintf(stderr, "mc: engine error in %s\n", sc.name); exit(2); }
      // died or hung on the decision vector in shared memory
      Viol v; v.scen = sc.name; v.count = 1; v.repro = false;
      v.sig = std::string(hung ? "hang:" : "crash:") + sc.name + ":" + (const char*)sh[w]->tag;
      v.msg = hung ? "execution did not finish in time" :
        (WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "process exited inside the library");
      for(int i=0;i<sh[w]->n;++i) v.ch.push_back((int)sh[w]->val[i]);
      v.hist = history(sh[w]);
      bool merged = false; for(auto& o : t.viol) if(o.sig == v.sig) { o.count++; merged = true; }
      if(!merged) t.viol.push_back(v);
      t.crashes++; t.execs += sh[w]->execs + 1;  // executions before the crash are counted, their digests are lost
      std::vector<int> next;
      if(t.crashes < (hung ? maxhang : 2000u) && advance(sh[w], next)) launch(w, next);
      else { live[w] = false; --nlive; if(t.crashes >= std::min(maxhang, 24u)) t.complete = false; }
    }
  }
  for(int w=0; w<nw; ++w) for(auto& f : files[w]) { load_tally(f, sc, t); unlink(f.c_str()); }
}

inline int main_(int argc, char** argv, const std::vector<Scenario>& scs) {
  std::string only, outp = "", scratch = "/tmp", replay; int nw = 8; bool thorough = false; double limit = 1e9;
  for(int i=1;i<argc;++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if(a == "--scenario") only = val(); else if(a == "--out") outp = val(); else if(a == "--scratch") scratch = val();
    else if(a == "--workers") nw = atoi(val().c_str()); else if(a == "--thorough") thorough = true;
    else if(a == "--limit") limit = atof(val().c_str()); else if(a == "--replay") replay = val();
    else if(a == "--list") { for(auto& s : scs) printf("%s\n", s.name); return 0; }
  }
  rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
  rl.rlim_cur = rl.rlim_max = 3500ul << 20; setrlimit(RLIMIT_AS, &rl);   // a runaway allocation fails in its own process
#endif
  if(!replay.empty()) {   // "scenario|thorough|1,2,3"
    std::istringstream is(replay); std::string sn, th, ch; std::getline(is, sn, '|'); std::getline(is, th, '|'); std::getline(is, ch, '|');
    size_t cut = ch.rfind(';'); std::vector<int> v = numbers(cut == std::string::npos ? ch : ch.substr(cut+1));
    for(auto& s : scs) if(sn == s.name) {
      std::set<std::string> g = replay_child(s, v, th == "1", scratch, true, cut == std::string::npos ? "" : ch.substr(0, cut+1));
      for(auto& q : g) printf("REPRODUCED %s\n", q.c_str());
      return g.empty() ? 0 : 1;
    }
    fprintf(stderr, "no such scenario\n"); return 2;
  }
  double t0 = now(), replayed = 0; int hangs = 0; bool confirmed = false;
  std::ostringstream js; js.precision(6);
  js << "{\"scenarios\":[";
  bool first = true;
  for(auto& sc : scs) {
    if(!only.empty() && only != sc.name) continue;
    Tally t; double s0 = now();
    explore(sc, nw, thorough, scratch, t0 + limit, hangs ? 1u : 24u, t);
    for(auto& v : t.viol) {   // each is replayed in a fresh process; the time for that is bounded once one has come back
      bool ends = v.sig.compare(0, 5, "hang:") != 0; if(confirmed && (replayed > 90 || (!ends && hangs >= 2))) continue;
      double r0 = now();
      for(int k=0; k<(ends ? 3 : 2) && !v.repro; ++k) { std::set<std::string> g = replay_child(sc, v.ch, thorough, scratch, false); if(g.count(v.sig)) v.repro = true; }
      if(!v.repro && !v.hist.empty()) { std::set<std::string> g = replay_child(sc, v.ch, thorough, scratch, false, v.hist); if(g.count(v.sig)) v.repro = true; }   // needs what ran before it
      else v.hist.clear();
      replayed += now() - r0; if(v.repro) { confirmed = true; if(!ends) ++hangs; }
    }
    if(!first) js << ","; first = false;
    js << "\n{\"name\":\"" << sc.name << "\",\"executions\":" << t.execs << ",\"distinct\":" << t.digs.size() << ",\"transitions\":" << t.trans << ",\"edges\":" << t.edges
       << ",\"states\":" << t.states.size() << ",\"pruned\":" << t.pruned << ",\"crashes\":" << t.crashes << ",\"complete\":" << (t.complete?"true":"false")
       << ",\"wall_s\":" << (now()-s0) << ",\"samples\":[";
    for(size_t i=0;i<t.samples.size() && i<3;++i) js << (i?",":"") << "\"" << jesc(t.samples[i]) << "\"";
    js << "],\"violations\":[";
    for(size_t i=0;i<t.viol.size();++i) {
      auto& v = t.viol[i];
      js << (i?",":"") << "\n {\"sig\":\"" << jesc(v.sig) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"count\":" << v.count << ",\"reproduced\":" << (v.repro?"true":"false") << ",\"choices\":\"" << (v.repro ? v.hist : std::string());
      for(size_t k=0;k<v.ch.size();++k) js << (k?",":"") << v.ch[k];
      js << "\"}";
    }
    js << "]}";
  }
  js << "\n]}\n";
  if(outp.empty()) std::cout << js.str(); else { std::ofstream o(outp.c_str()); o << js.str(); }
  return 0;
}

} // namespace mc

#define MC_MAIN(...) int main(int argc, char** argv) { return mc::main_(argc, argv, std::vector<mc::Scenario>{ __VA_ARGS__ }); }
