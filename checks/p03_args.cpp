// P03: command line arguments against a token-sequence model of the grammar.
#include "mc.h"
#include <climits>
#include "core/args.h"
using namespace alta;
typedef std::map<std::string,std::string> Map;
// reference scanner: a value that starts with a bracket ends at the bracket that closes it
static int depth(const std::string& s) { int d = 0; for(char k : s) d += k == '[' ? 1 : k == ']' ? -1 : 0; return d; }
static Map model(const std::vector<std::string>& t) {
  Map m; size_t i = 0;
  while(i < t.size()) {
    if(t[i].compare(0,2,"--") != 0) { ++i; continue; }
    std::string k = t[i].substr(2), d; ++i;
    if(i < t.size() && !(t[i].size() && t[i][0] == '-')) {
      if(t[i].size() && t[i][0] == '[' && (t[i][t[i].size()-1] != ']' || depth(t[i]) > 0)) {
        d = t[i++];
        while(i < t.size()) { d += " " + t[i]; bool e = t[i].size() && t[i][t[i].size()-1] == ']' && depth(d) <= 0; ++i; if(e) break; }
      } else d = t[i++];
    }
    if(!m.count(k)) m[k] = d;
  }
  return m;
}
static void compare(mc::Ctx& c, const arguments& a, const Map& m, const std::string& cmd) {
  static const char* keys[] = { "a", "b", "ab", "", "5", "x.dat" };
  for(const char* k : keys) {
    bool d = m.count(k) > 0; std::string v = d ? m.find(k)->second : "";
    c.check(a.is_defined(k) == d, "defined", cmd + " key " + k);
    c.check(a[k] == v, "value", cmd + " key " + k + " is '" + a[k] + "' not '" + v + "'");
    c.check(a.get_string(k, "dflt") == (d ? v : "dflt"), "string", cmd + " key " + k);
    c.check(a.is_vec(k) == (d && v.size() && v[0]=='['), "is_vec", cmd + " key " + k);
    c.check(a.get_int(k, 42) == (d ? atoi(v.c_str()) : 42), "int", cmd + " key " + k);
    c.check(a.get_float(k, 1.5f) == (d ? (float)atof(v.c_str()) : 1.5f), "float", cmd + " key " + k);
    bool num = v == "5" || v == "-2.5" || !d;
    if(num) c.check(a.get_double(k, 0.7) == (d ? atof(v.c_str()) : 0.7), "double", cmd + " key " + k);
  }
}
static const std::vector<std::string> TOK{ "--a", "--b", "--ab", "5", "-2.5", "[1,", "2", "3]", "[4,5]", "x.dat", "" };
static std::string join(const std::vector<std::string>& t) { std::string s; for(auto& x : t) s += "'" + x + "' "; return s; }
static arguments make(std::vector<std::string> t) {
  std::vector<char*> v; for(auto& s : t) v.push_back(&s[0]);
  return arguments((int)v.size(), v.empty() ? NULL : &v[0]); }
static void scen_tokens(mc::Ctx& c) {
  int n = c.pick(c.thorough ? 7 : 6, "length"); std::vector<std::string> t;
  for(int i=0;i<n;++i) t.push_back(c.of(TOK, "token"));
  c.tag("tokens"); Map m = model(t); arguments a = make(t);
  std::string cmd = join(t); compare(c, a, m, cmd);
  std::string sig; for(auto& kv : m) sig += kv.first + "=" + kv.second + ";";
  c.state(sig); c.outcome(sig);
  arguments b(a); compare(c, b, m, cmd + "(copy)");
  // update overrides, on the copy only
  b.update("a", "new"); Map m2 = m; m2["a"] = "new"; compare(c, b, m2, cmd + "(updated copy)"); compare(c, a, m, cmd + "(after updating a copy)");
}
// a configuration string is split at white space, whatever its amount
static void scen_strings(mc::Ctx& c) {
  static const std::vector<std::string> T{ "--a", "--b", "--ab", "5", "-2.5", "[1,", "2", "3]", "[4,5]", "x.dat", "0", "a[1]" };
  static const std::vector<std::string> WS{ " ", "  ", "\t", "\n" };
  int n = c.pick(5, "length"); std::vector<std::string> t; std::string s = c.flag("lead") ? " " : "";
  for(int i=0;i<n;++i) { if(i) s += i == 1 ? c.of(WS, "space") : std::string(" "); t.push_back(c.of(T, "token")); s += t.back(); }
  Map m = model(t); bool closed = true;
  for(auto& kv : m) if(kv.second.size() && kv.second[0]=='[' && (kv.second[kv.second.size()-1] != ']' || depth(kv.second) > 0)) closed = false;
  if(closed && c.flag("trail")) s += " ";      // after an unclosed bracket the blank would belong to the value
  c.tag("strings"); arguments a = arguments::create_arguments(s); compare(c, a, m, s);
  // printing the arguments and reading them again gives the same arguments
  bool plain = true; for(auto& kv : m) if(kv.first.empty()) plain = false;
  if(plain && closed) compare(c, arguments::create_arguments(a.get_cmd()), m, "get_cmd of " + s);
  std::string sig; for(auto& kv : m) sig += kv.first + "=" + kv.second + ";"; c.state(sig); c.outcome(sig);
}
// independent options in any order
static void scen_order(mc::Ctx& c) {
  std::vector<std::vector<std::string> > o{ {"--a","5"}, {"--b"}, {"--ab","[1,","2","3]"}, {"--5","x.dat"}, {"--x.dat","[4,5]"} };
  std::vector<std::string> t; std::vector<int> left{0,1,2,3,4}; Map m;
  for(auto& g : o) for(auto& kv : model(g)) m[kv.first] = kv.second;
  if(c.flag("program name")) t.push_back("prog");
  while(!left.empty()) { int i = c.pick((int)left.size(), "next"); for(auto& x : o[left[i]]) t.push_back(x); left.erase(left.begin()+i); }
  c.tag("order"); compare(c, make(t), m, join(t)); c.state(join(t)); c.outcome(join(t));
}
// vectors and lists
static void scen_vectors(mc::Ctx& c) {
  static const std::vector<std::string> E{ "0", "3", "-7", "2.5", "1e-3", "0.1", "-0.25", "12345678.5", "0.30000000000000004", "-1234567890123456.75" };
  static const std::vector<std::string> SEP{ ",", ", ", " ,", " , " };
  int n = c.pick(c.thorough ? 6 : 5, "elements"); std::string s = "["; std::vector<double> v; std::vector<int> iv; std::string sep = c.of(SEP, "separator");
  for(int i=0;i<n;++i) { if(i) s += sep; std::string e = c.of(E, "element"); s += e; v.push_back(atof(e.c_str())); iv.push_back(std::fabs(v.back()) < 2147483648.0 ? atoi(e.c_str()) : v.back() < 0 ? INT_MIN : INT_MAX); }
  s += "]";
  c.tag("vectors"); c.state(s); c.outcome(s);
  arguments a; a.update("k", s);
  // the same text through the command line, as separate tokens
  std::vector<std::string> t{"--z", "1", "--k"}; { std::istringstream is(s); std::string w; while(is >> w) t.push_back(w); } t.push_back("--y"); t.push_back("2");
  arguments b = make(t);
  c.check(b["z"] == "1" && b["y"] == "2", "vector:neighbours", s);
  for(int w=0; w<2; ++w) {
    const arguments& q = w ? b : a;
    std::vector<double> g = q.get_vec<double>("k"); c.check(g == v, "vector:double", s + " -> " + mc::vstr(g));
    std::vector<float> f = q.get_vec<float>("k"); bool ok = f.size() == v.size(); for(size_t i=0; ok && i<v.size(); ++i) ok = f[i] == (float)v[i]; c.check(ok, "vector:float", s);
    std::vector<int> in = q.get_vec<int>("k"); ok = in.size() == v.size(); for(size_t i=0; ok && i<v.size(); ++i) ok = in[i] == iv[i]; c.check(ok, "vector:int", s + " -> " + mc::vstr(in));
    for(int size=0; size<=n+2; ++size) if(n > 0) {
      vec r = q.get_vec("k", size, 7.5f); ok = r.size() == size;
      for(int i=0; ok && i<size; ++i) ok = r[i] == (i < n ? v[i] : 7.5);
      c.check(ok, "vector:sized", s + " -> " + mc::vstr(r));
    }
    if(n > 0) { std::vector<std::string> st = q.get_vec("k"); ok = (int)st.size() == n; for(int i=0; ok && i<n; ++i) ok = atof(st[i].c_str()) == v[i]; c.check(ok, "vector:strings", s); }
  }
  // absent key
  c.check(a.get_vec<double>("none").empty() && a.get_vec("none").empty(), "vector:absent", "");
  vec r = a.get_vec("none", n, -1.25f); bool ok = r.size() == n; for(int i=0; ok && i<n; ++i) ok = r[i] == -1.25; c.check(ok, "vector:default", s);
}
static void scen_scalars(mc::Ctx& c) {
  static const std::vector<std::string> E{ "0", "3", "7", "2.5", "1e-3", "0.1", "12345678.5", "1e10", "0.30000000000000004", "2147483647" };
  std::string e = c.of(E, "value"); double v = atof(e.c_str()); int n = c.pick(5, "size");
  c.tag("scalars"); c.state(e); c.outcome(e + std::to_string(n));
  arguments a = make({"--k", e}); arguments neg; neg.update("k", "-" + e);
  for(int w=0; w<2; ++w) {
    const arguments& q = w ? neg : a; double x = w ? -v : v;
    c.check(q.get_double("k") == x, "scalar:double", e); c.check(q.get_float("k") == (float)x, "scalar:float", e);
    if(std::fabs(x) < 2147483648.0) c.check(q.get_int("k") == (w ? -1 : 1)*atoi(e.c_str()), "scalar:int", e);
    vec r = q.get_vec("k", n, 3.0f); bool ok = r.size() == n; for(int i=0; ok && i<n; ++i) ok = r[i] == x; c.check(ok, "scalar:spread", e + " -> " + mc::vstr(r));
  }
  c.check(a.get_double("none") == 0 && a.get_float("none") == 0 && a.get_int("none") == 0 && a.get_string("none") == "" && a["none"] == "", "scalar:default", "");
}
// lists of names, of any length
static void scen_names(mc::Ctx& c) {
  int n = 1 + c.pick(4, "elements"); std::vector<std::string> v; std::string s = "[";
  for(int i=0;i<n;++i) { int l = c.of(std::vector<int>{1, 20, 254, 255, 256, 600}, "length"); std::string w; for(int k=0;k<l;++k) w += (char)('a' + (k*7+i)%26); v.push_back(w); s += (i ? "," : "") + w; }
  s += "]"; c.tag("names"); c.state(s); c.outcome(s);
  arguments a = make({"--func", s, "--end"});
  c.check(a["func"] == s && a.is_defined("end"), "names:value", "");
  c.check(a.get_vec<std::string>("func") == v, "names:template", s.substr(0,60)); c.check(a.get_vec("func") == v, "names:strings", s.substr(0,60));
}
// lists whose elements carry options, some with bracketed values of their own (function lists)
static void scen_nested(mc::Ctx& c) {
  static const std::vector<std::string> O{ "", " --fixed", " --bootstrap [1, 2.5]", " --fresnel [g --bootstrap [0.3,4]]", " --bootstrap [7]", " --bootstrap [1,2] --fixed" };
  int n = 1 + c.pick(3, "elements"); std::vector<std::string> v; std::string s = "[", sep = c.flag("space") ? ", " : ","; for(int i=0;i<n;++i) { v.push_back(std::string(1, (char)('f'+i)) + c.of(O, "options")); s += (i ? sep : "") + v[i]; } s += "]"; c.tag("nested"); c.state(s); c.outcome(s);
  arguments a = arguments::create_arguments("--x 1 --func " + s + " --y 2"); c.check(a["func"] == s && a["x"] == "1" && a["y"] == "2", "nested:value", s + " is " + a["func"]);
  std::vector<std::string> g = a.get_vec("func"); if(!c.check((int)g.size() == n, "nested:count", s + " has " + std::to_string(g.size()))) return;
  for(int i=0;i<n;++i) { size_t b = g[i].find_first_not_of(' '); std::string t = b == std::string::npos ? "" : g[i].substr(b); c.check(t == v[i], "nested:element", s + " element '" + t + "' not '" + v[i] + "'");
    arguments e = arguments::create_arguments("--func " + g[i]), m = arguments::create_arguments("--func " + v[i]); c.check(e["func"] == std::string(1, (char)('f'+i)), "nested:name", v[i]); c.check(e["bootstrap"] == m["bootstrap"] && e["fresnel"] == m["fresnel"] && e.is_defined("fixed") == (v[i].find("--fixed") != std::string::npos), "nested:options", v[i]);
    if(v[i].find("--bootstrap [1, 2.5]") != std::string::npos) c.check(e.get_vec<double>("bootstrap") == std::vector<double>({1, 2.5}), "nested:vector", v[i]); }
}
// a list with lists in it, spread over tokens at any of its places
static void scen_spread(mc::Ctx& c) {
  static const std::vector<std::vector<std::string> > S{ { "[", "1", ",", "[", "2", ",", "3", "]", ",", "4", "]" }, { "[", "[", "1", "]", ",", "[", "2", "]", "]" }, { "[", "[", "[", "1", "]", "]", ",", "f", "]" }, { "[", "f", ",", "[", "a", "]", "]" }, { "[", "[", "1", ",", "2", "]", ",", "3", "]" }, { "[", "1", ",", "2", ",", "3", "]" } }; static const int N[] = { 3, 2, 2, 2, 2, 3 };
  int k = c.pick((int)S.size(), "list"); std::vector<std::string> t; std::string joined; for(size_t i=0;i<S[k].size();++i) { if(i == 0 || c.flag("split")) t.push_back(S[k][i]); else t.back() += S[k][i]; } for(auto& x : t) joined += (joined.empty() ? "" : " ") + x; std::vector<std::string> a{ "--x", "1", "--list" }; a.insert(a.end(), t.begin(), t.end()); a.push_back("--y"); a.push_back("2");
  c.tag("spread"); c.state(joined); c.outcome(joined); arguments m = c.flag("string") ? arguments::create_arguments("--x 1 --list " + joined + " --y 2") : make(a); c.check(m["list"] == joined && m["x"] == "1" && m["y"] == "2" && m.is_vec("list"), "spread list", joined + " is " + m["list"]); c.check((int)m.get_vec("list").size() == N[k], "spread list elements", joined);
}
static void scen_pairs(mc::Ctx& c) {
  static const std::vector<std::string> E{ "0", "3", "-7", "12", "999999" }; static const std::vector<std::string> WS{ " ", "  ", "\t" };
  std::string x = c.of(E,"first"), y = c.of(E,"second"), w = c.of(WS,"space"); c.tag("pairs");
  arguments a({{"DIM", x + w + y}}); std::pair<int,int> p = a.get_pair<int>("DIM");
  c.check(p.first == atoi(x.c_str()) && p.second == atoi(y.c_str()), "pair", x + w + y);
  std::pair<int,int> q = a.get_pair<int>("none"); c.check(q.first == 0 && q.second == 0, "pair:absent", "");
  c.state(x + w + y); c.outcome(x + w + y);
}
// elements that hold no number count as zero, whatever stands before them
static void scen_blanks(mc::Ctx& c) {
  static const std::vector<std::string> E{ "5", "-2.5", "", " ", "x", "name" };
  int n = 1 + c.pick(4, "elements"); std::string s = "["; std::vector<double> v; std::vector<std::string> raw;
  for(int i=0;i<n;++i) { std::string e = c.of(E, "element"); raw.push_back(e); s += (i ? "," : "") + e; v.push_back(atof(e.c_str())); } s += "]"; c.tag("blanks"); c.state(s); c.outcome(s);
  arguments a; a.update("k", s); bool lastempty = raw.back().empty();
  std::vector<double> g = a.get_vec<double>("k"); if(lastempty && (int)g.size() == n-1) g.push_back(0); c.check(g == v, "blank:double", s + " -> " + mc::vstr(g));
  std::vector<int> in = a.get_vec<int>("k"); if(lastempty && (int)in.size() == n-1) in.push_back(0); bool ok = (int)in.size() == n; for(int i=0; ok && i<n; ++i) ok = in[i] == (int)v[i]; c.check(ok, "blank:int", s);
  vec r = a.get_vec("k", n, 0.0f); ok = r.size() == n; for(int i=0; ok && i<n; ++i) ok = r[i] == v[i]; c.check(ok, "blank:sized", s + " -> " + mc::vstr(r));
}
// long command lines
static void scen_long(mc::Ctx& c) {
  static const std::vector<int> N{ 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025 };
  int n = c.of(N, "options"), kind = c.pick(3, "shape"), how = c.pick(2, "how"); std::vector<std::string> t; Map m;
  if(kind == 2) { std::string v = "["; t.push_back("--vec"); for(int i=0;i<n;++i) { std::string e = (i ? "" : "[") + std::to_string(i) + (i+1 < n ? "," : "]"); t.push_back(e); v += (i ? " " : "") + std::to_string(i) + (i+1 < n ? "," : "]"); } m["vec"] = v; t.push_back("--after"); t.push_back("9"); m["after"] = "9"; }
  else for(int i=0;i<n;++i) { std::string k = "key" + std::to_string(i); t.push_back("--" + k); if(kind == 0) t.push_back(std::to_string(i)); m[k] = kind == 0 ? std::to_string(i) : ""; }
  std::string s; for(auto& x : t) s += (s.empty() ? "" : " ") + x; c.tag("long"); c.state(s); c.outcome(std::to_string(n) + std::to_string(kind) + std::to_string(how));
  arguments a = how ? arguments::create_arguments(s) : make(t);
  for(auto& kv : m) c.check(a.is_defined(kv.first) && a[kv.first] == kv.second, "long", std::to_string(n) + " options, key " + kv.first);
  if(kind == 2) { std::vector<int> g = a.get_vec<int>("vec"); bool ok = (int)g.size() == n; for(int i=0; ok && i<n; ++i) ok = g[i] == i; c.check(ok, "long:vector", std::to_string(n)); vec r = a.get_vec("vec", n); ok = r.size() == n; for(int i=0; ok && i<n; ++i) ok = r[i] == i; c.check(ok, "long:sized", std::to_string(n)); }
}
// values of every kind with brackets or separators inside
static void scen_isvec(mc::Ctx& c) {
  static const std::vector<std::string> V{ "", "5", "[1,2]", "a[1]", "x[", "]", "1,2", " [1]", "a,[1,2]", "[", "[]", "[x" };
  std::string v = c.of(V, "value"); arguments a; a.update("k", v); c.tag("is_vec"); c.state(v); c.outcome(v);
  c.check(a.is_vec("k") == (v.size() && v[0] == '['), "is_vec:value", v); c.check(!a.is_vec("none"), "is_vec:absent", ""); c.check(a["k"] == v && a.get_string("k", "d") == v, "string:value", v);
}
// histories of updates
static void scen_updates(mc::Ctx& c) {
  Map m; arguments a; int n = c.thorough ? 5 : 4;
  for(int i=0;i<n;++i) {
    static const std::vector<std::string> K{"a","b","ab",""}, V{"", "5", "[1,2]"};
    std::string k = c.of(K,"key"), v = c.of(V,"value"); m[k] = v; a.update(k, v); c.tag("updates"); compare(c, a, m, "update " + k + "=" + v);
    std::string sig; for(auto& kv : m) sig += kv.first + "=" + kv.second + ";"; c.state(sig); c.outcome(sig);
  }
}
// long command lines, long vectors, long values
static void scen_large(mc::Ctx& c) {
  static const std::vector<int> NS{ 10, 33, 64, 65, 130, 300 }; int n = c.of(NS, "count"), kind = c.pick(5, "kind"), split = c.pick(3, "split"), rep = c.pick(2, "repeated"); c.tag("large"); std::string w = "large " + std::to_string(kind) + " " + std::to_string(n); c.state(w + std::to_string(split) + std::to_string(rep)); c.outcome(w);
  if(kind == 0) { std::vector<std::string> t; for(int i=0;i<n;++i) { int j = (i*7) % n; if(n % 7 == 0) j = i; t.push_back("--k" + std::to_string(j)); if(split == 1 || (split == 2 && j % 2)) t.push_back("v" + std::to_string(j)); } if(rep) for(int j=0;j<n;++j) { t.push_back("--k" + std::to_string(j)); t.push_back("again"); } arguments a = make(t), b = arguments::create_arguments(a.get_cmd()), e(a); e.update("k3", "z");
    for(int j=0;j<n;++j) { std::string k = "k" + std::to_string(j), v = split == 1 || (split == 2 && j % 2) ? "v" + std::to_string(j) : ""; c.check(a.is_defined(k) && a[k] == v, "many options", w + " " + k + " is " + a[k]); c.check(b.is_defined(k) && b[k] == v, "many options printed", w + " " + k); c.check(e[k] == (j == 3 ? "z" : v), "many options copied", w + " " + k); } c.check(!a.is_defined("k" + std::to_string(n)) && !a.is_defined("k"), "undefined", w); return; }
  if(kind == 1 || kind == 2) { std::string s = "["; std::vector<double> v; std::vector<int> iv; std::vector<std::string> t{ "--z", "1", "--k" }; for(int i=0;i<n;++i) { std::ostringstream o; o.precision(17); double x = kind == 1 ? (i % 3 ? 1 : -1)*(i*1.25 + 1e-4*i*i) : i*37 - 500; o << x; v.push_back(atof(o.str().c_str())); iv.push_back((int)v.back()); s += (i ? "," : "") + o.str(); if(split && i + 1 < n && i % split == 0) { t.push_back(s + (split == 2 ? "," : "")); if(split == 2) { s = " "; s.clear(); } else s.clear(); if(split == 2) { ++i; std::ostringstream p; p.precision(17); double y = i*2.5; p << y; v.push_back(y); iv.push_back((int)y); s = p.str(); } } }
    s += "]"; t.push_back(s); t.push_back("--y"); t.push_back("2"); arguments a = make(t); c.check(a["z"] == "1" && a["y"] == "2" && a.is_vec("k"), "long vector neighbours", w); std::vector<double> g = a.get_vec<double>("k"); c.check(g == v, "long vector", w + " -> " + mc::vstr(g)); c.check(a.get_vec<int>("k") == iv, "long int vector", w); vec r = a.get_vec("k", n + 3, 0.5f); bool ok = r.size() == n + 3; for(int i=0;ok && i<n+3;++i) ok = r[i] == (i < n ? v[i] : 0.5); c.check(ok, "long sized vector", w); c.check((int)a.get_vec("k").size() == n, "long list", w); return; }
  if(kind == 3) { std::string big, key; for(int i=0;i<n*20;++i) big += (char)('a' + (i*11) % 26); for(int i=0;i<n;++i) key += (char)('a' + (i*5) % 26); arguments a = split == 1 ? arguments::create_arguments("--" + key + " " + big + " --b 5") : make({ "--" + key, big, "--b", "5" }); c.check(a[key] == big && a.get_string(key, "") == big && a["b"] == "5" && a.get_int("b", 0) == 5, "long value", w); c.check(!a.is_defined(key.substr(0, n-1)) && !a.is_defined(key + "a"), "long key", w); return; }
  std::string s = "["; std::vector<std::string> e; for(int i=0;i<n;++i) { std::string x = "f" + std::to_string(i) + (split == 0 ? "" : i % 2 ? " --fixed" : split == 1 ? " --fresnel g" + std::to_string(i) : " --bootstrap [1,2]"); e.push_back(x); s += (i ? (rep ? "," : ", ") : "") + x; } s += "]"; arguments a = arguments::create_arguments("--x 1 --func " + s + " --y 2"); c.check(a["x"] == "1" && a["y"] == "2" && a["func"] == s, "long list value", w); auto g = a.get_vec("func"); bool ok = (int)g.size() == n; for(int i=0;ok && i<n;++i) { size_t b = g[i].find_first_not_of(' '); ok = b != std::string::npos && g[i].substr(b) == e[i]; } c.check(ok, "long list elements", w);
}
MC_MAIN({"large", scen_large, 2, 20}, {"tokens", scen_tokens, 3, 20}, {"strings", scen_strings, 3, 20}, {"order", scen_order, 2, 20}, {"vectors", scen_vectors, 3, 20},
        {"scalars", scen_scalars, 1, 20}, {"names", scen_names, 2, 20}, {"pairs", scen_pairs, 1, 20}, {"nested", scen_nested, 2, 20}, {"spread", scen_spread, 4, 20}, {"blanks", scen_blanks, 2, 20}, {"long", scen_long, 1, 20}, {"isvec", scen_isvec, 1, 20}, {"updates", scen_updates, 2, 20})
