// Shared by P25: a strict interpreter for the part of GLSL 1.20+ exported shaders use (no implicit narrowing, no mixed-size builtins, integer division, declaration before use), and a calculator for Matlab scalars.
#pragma once
#include <cctype>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace glsl {
struct Error : std::runtime_error { Error(const std::string& s) : std::runtime_error(s) {} };
struct Val { int n; bool i; double d[3]; };                      // n components (0: none, -1: boolean); i: integer
inline Val num(double x) { Val v = { 1, false, {x,0,0} }; return v; }
inline Val inum(double x) { Val v = { 1, true, {x,0,0} }; return v; }
inline Val boolean(bool b) { Val v = { -1, false, {b ? 1.0 : 0.0,0,0} }; return v; }
inline Val vec3(double x, double y, double z) { Val v = { 3, false, {x,y,z} }; return v; }
struct Tok { char k; std::string s; };                           // k: i identifier, n float, d integer, p punctuation, e end
inline std::vector<Tok> lex(const std::string& t) { std::vector<Tok> r; size_t p = 0; while(p < t.size()) { char c = t[p];
  if(isspace((unsigned char)c)) { ++p; continue; }
  if(c == '#') throw Error("preprocessor directive in the shader");
  if(t.compare(p, 2, "//") == 0) { while(p < t.size() && t[p] != '\n') ++p; continue; }
  if(t.compare(p, 2, "/*") == 0) { size_t e = t.find("*/", p+2); if(e == std::string::npos) throw Error("unterminated comment"); p = e + 2; continue; }
  if(isalpha((unsigned char)c) || c == '_') { size_t q = p; while(q < t.size() && (isalnum((unsigned char)t[q]) || t[q] == '_')) ++q; r.push_back(Tok{'i', t.substr(p,q-p)}); p = q; continue; }
  if(isdigit((unsigned char)c) || (c == '.' && p+1 < t.size() && isdigit((unsigned char)t[p+1]))) { size_t q = p; bool f = false; while(q < t.size() && isdigit((unsigned char)t[q])) ++q; if(q < t.size() && t[q] == '.') { f = true; ++q; while(q < t.size() && isdigit((unsigned char)t[q])) ++q; }
    if(q < t.size() && (t[q] == 'e' || t[q] == 'E')) { f = true; ++q; if(q < t.size() && (t[q] == '+' || t[q] == '-')) ++q; if(q >= t.size() || !isdigit((unsigned char)t[q])) throw Error("malformed number"); while(q < t.size() && isdigit((unsigned char)t[q])) ++q; }
    r.push_back(Tok{f ? 'n' : 'd', t.substr(p,q-p)}); p = q; if(p < t.size() && (t[p] == 'f' || t[p] == 'F')) { if(!f) throw Error("float suffix on an integer"); ++p; } if(p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) throw Error("malformed number"); continue; }
  static const char* two[] = { "+=", "-=", "*=", "/=", "==", "!=", "<=", ">=", "&&", "||", "++", "--" }; bool m = false; for(auto s : two) if(t.compare(p, 2, s) == 0) { r.push_back(Tok{'p', s}); p += 2; m = true; break; } if(m) continue;
  if(std::string("+-*/(){}[];,.<>=!?:").find(c) == std::string::npos) throw Error(std::string("stray character ") + c);
  r.push_back(Tok{'p', std::string(1,c)}); ++p; }
  r.push_back(Tok{'e', ""}); return r; }
struct Node; typedef std::shared_ptr<Node> N;
struct Node { char k; std::string s; Val v; std::vector<N> c; int slot; };   // kinds below
typedef std::vector<Val> Frame;
struct Func { std::string name; Val (*b)(const std::vector<Val>&); std::vector<int> types; int ret; N body; int slots; };
inline int type(const std::string& s) { return s == "float" ? 1 : s == "vec2" ? 2 : s == "vec3" ? 3 : s == "int" ? 4 : s == "bool" ? -1 : s == "void" ? 9 : 0; }
inline Val convert(const Val& v, int t, const char* what) { Val r = v; int have = v.n == 1 && v.i ? 4 : v.n; if(t == have) return r; if(t == 1 && have == 4) { r.i = false; return r; } throw Error(std::string("type mismatch in ") + what); }
inline Val arith(char op, Val a, Val b) { if(a.n < 1 || b.n < 1) throw Error("arithmetic on a value that is not a number"); if(a.n > 1 && b.n > 1 && a.n != b.n) throw Error("vectors of different sizes");
  Val r; r.n = std::max(a.n, b.n); r.i = a.i && b.i; for(int k=0;k<3;++k) { double x = a.d[a.n == 1 ? 0 : k], y = b.d[b.n == 1 ? 0 : k]; r.d[k] = k >= r.n ? 0 : op == '+' ? x+y : op == '-' ? x-y : op == '*' ? x*y : r.i ? (y == 0 ? throw Error("integer division by zero") : std::trunc(x/y)) : x/y; } return r; }
class Program {
  std::vector<Tok> t; size_t p; std::vector<std::unique_ptr<Func> > funcs; std::map<std::string,std::vector<Func*> > by; std::vector<std::map<std::string,std::pair<int,int> > > scope; int slots;   // name -> slot, type (negative slot: constant)
  std::vector<int> slotType;
  bool is(const char* s) const { return t[p].k == 'p' && t[p].s == s; }
  bool take(const char* s) { if(is(s)) { ++p; return true; } return false; }
  void need(const char* s) { if(!take(s)) throw Error(std::string("expected ") + s + " before '" + t[p].s + "'" + where()); }
  std::string where() const { std::string r = " near:"; for(size_t k = p > 6 ? p-6 : 0; k < p+4 && k < t.size(); ++k) r += " " + t[k].s; return r; }
  std::string ident() { if(t[p].k != 'i') throw Error("expected a name before '" + t[p].s + "'" + where()); return t[p++].s; }
  N mk(char k, std::vector<N> c = {}, const std::string& s = "") { N n(new Node); n->k = k; n->c = c; n->s = s; n->slot = 0; return n; }
  int declare(const std::string& n, int ty) { if(type(n)) throw Error("a type name is used as a variable"); if(scope.back().count(n)) throw Error("redeclaration of " + n); scope.back()[n] = std::make_pair(slots, ty); slotType.push_back(ty); return slots++; }
  N primary() { if(t[p].k == 'd') { N n = mk('c'); n->v = inum(std::stod(t[p++].s)); return n; } if(t[p].k == 'n') { N n = mk('c'); n->v = num(std::stod(t[p++].s)); return n; }
    if(take("(")) { N n = expr(); need(")"); return n; }
    std::string s = ident(); if(s == "true" || s == "false") { N n = mk('c'); n->v = boolean(s == "true"); return n; }
    if(is("(")) { ++p; std::vector<N> a; if(!take(")")) { do a.push_back(assign()); while(take(",")); need(")"); }
      if(type(s)) { N n = mk('t', a); n->slot = type(s); if(n->slot == 9) throw Error("void constructor"); return n; }
      for(auto it = scope.rbegin(); it != scope.rend(); ++it) if(it->count(s)) throw Error(s + " is a variable, not a function" + where());
      if(by.count(s)) return mk('f', a, s); if(builtins().count(s)) return mk('b', a, s); throw Error("call of an undefined function " + s); }
    for(auto it = scope.rbegin(); it != scope.rend(); ++it) if(it->count(s)) { N n = mk('v', {}, s); n->slot = (*it)[s].first; return n; }
    throw Error("undeclared name " + s); }
  N postfix() { N n = primary(); for(;;) { if(take(".")) { std::string s = ident(); if(s.empty() || s.size() > 3) throw Error("bad swizzle"); for(char c : s) if(std::string("xyzrgb").find(c) == std::string::npos) throw Error("bad swizzle ." + s); n = mk('.', {n}, s); } else if(take("[")) { N i = expr(); need("]"); n = mk('[', {n,i}); } else return n; } }
  N unary() { if(take("-")) return mk('-', {unary()}); if(take("+")) return unary(); if(take("!")) return mk('!', {unary()}); return postfix(); }
  N mul() { N n = unary(); for(;;) { if(take("*")) n = mk('A', {n,unary()}, "*"); else if(take("/")) n = mk('A', {n,unary()}, "/"); else return n; } }
  N add() { N n = mul(); for(;;) { if(take("+")) n = mk('A', {n,mul()}, "+"); else if(take("-")) n = mk('A', {n,mul()}, "-"); else return n; } }
  N cmp() { N n = add(); for(;;) { static const char* o[] = { "<=", ">=", "<", ">", "==", "!=" }; bool m = false; for(auto s : o) if(take(s)) { n = mk('C', {n,add()}, s); m = true; break; } if(!m) return n; } }
  N land() { N n = cmp(); while(take("&&")) n = mk('&', {n,cmp()}); return n; }
  N lor() { N n = land(); while(take("||")) n = mk('|', {n,land()}); return n; }
  N tern() { N n = lor(); if(take("?")) { N a = expr(); need(":"); N b = tern(); return mk('?', {n,a,b}); } return n; }
  N assign() { N n = tern(); static const char* o[] = { "=", "+=", "-=", "*=", "/=" }; for(auto s : o) if(take(s)) { N l = n; while(l->k == '.' || l->k == '[') l = l->c[0]; if(l->k != 'v') throw Error("assignment to an expression"); if(consts.count(l->slot)) throw Error("assignment to a constant"); N r = assign(); return mk('=', {n,r}, s); } return n; }
  N expr() { return assign(); }
  std::set<int> consts;
  N declaration(bool c) { int ty = type(ident()); if(!ty || ty == 9) throw Error("expected a type" + where()); N b = mk('D'); do { std::string s = ident(); N init; if(is("(")) throw Error("constructor syntax in a declaration of " + s); if(take("=")) init = assign(); else if(c) throw Error("constant without a value"); int sl = declare(s, ty); if(c) consts.insert(sl); N d = mk('d', init ? std::vector<N>{init} : std::vector<N>()); d->slot = sl; d->s = s; d->v.n = ty; b->c.push_back(d); } while(take(",")); need(";"); return b; }
  N statement() {
    if(take(";")) return mk('B');
    if(take("{")) { scope.push_back({}); N b = mk('B'); while(!take("}")) b->c.push_back(statement()); scope.pop_back(); return b; }
    if(t[p].k == 'i') { const std::string& s = t[p].s;
      if(s == "const") { ++p; return declaration(true); }
      if(type(s) && t[p+1].k == 'i') return declaration(false);
      if(s == "return") { ++p; N n = mk('r'); if(!is(";")) n->c.push_back(expr()); need(";"); return n; }
      if(s == "if") { ++p; need("("); N c = expr(); need(")"); N a = statement(); std::vector<N> ch{c,a}; if(t[p].k == 'i' && t[p].s == "else") { ++p; ch.push_back(statement()); } return mk('I', ch); }
      if(s == "for") { ++p; need("("); scope.push_back({}); N i = t[p].k == 'i' && type(t[p].s) ? declaration(false) : statement(); N c = expr(); need(";"); N st = step(); need(")"); N b = statement(); scope.pop_back(); return mk('F', {i,c,st,b}); } }
    N n = step(); need(";"); return mk('E', {n}); }
  N step() { N n = expr(); if(is("++") || is("--")) { std::string o = is("++") ? "+=" : "-="; ++p; if(n->k != 'v') throw Error("++ of an expression"); N one = mk('c'); one->v = inum(1); return mk('=', {n,one}, o); } return n; }
  static double ap(const std::string& s, double x, double y, double z) {
    if(s == "pow") return std::pow(x,y); if(s == "min") return std::min(x,y); if(s == "max") return std::max(x,y); if(s == "mod") return x - y*std::floor(x/y); if(s == "step") return y < x ? 0 : 1; if(s == "mix") return x*(1-z) + y*z; if(s == "clamp") return std::min(std::max(x,y),z); if(s == "atan2") return std::atan2(x,y);
    if(s == "exp") return std::exp(x); if(s == "sqrt") return std::sqrt(x); if(s == "abs") return std::fabs(x); if(s == "sin") return std::sin(x); if(s == "cos") return std::cos(x); if(s == "tan") return std::tan(x); if(s == "acos") return std::acos(x); if(s == "asin") return std::asin(x); if(s == "atan") return std::atan(x); if(s == "log") return std::log(x); if(s == "exp2") return std::exp2(x); if(s == "log2") return std::log2(x); if(s == "inversesqrt") return 1/std::sqrt(x); if(s == "floor") return std::floor(x); if(s == "ceil") return std::ceil(x); if(s == "fract") return x - std::floor(x); if(s == "sign") return x > 0 ? 1 : x < 0 ? -1 : 0; throw Error("builtin " + s); }
  static const std::map<std::string,int>& builtins() { static const std::map<std::string,int> b{{"pow",2},{"min",2},{"max",2},{"mod",2},{"step",2},{"mix",3},{"clamp",3},{"atan",-1},{"exp",1},{"sqrt",1},{"abs",1},{"sin",1},{"cos",1},{"tan",1},{"acos",1},{"asin",1},{"log",1},{"exp2",1},{"log2",1},{"inversesqrt",1},{"floor",1},{"ceil",1},{"fract",1},{"sign",1},{"normalize",1},{"length",1},{"dot",2},{"cross",2},{"reflect",2},{"distance",2}}; return b; }
  static Val builtin(const std::string& s, std::vector<Val> a) { int want = builtins().at(s); if(want > 0 ? (int)a.size() != want : a.size() < 1 || a.size() > 2) throw Error("wrong number of arguments to " + s); for(auto& v : a) { if(v.n < 1) throw Error("bad argument to " + s); v.i = false; }
    if(s == "dot" || s == "distance" || s == "cross" || s == "reflect") { if(a[0].n != a[1].n) throw Error("vectors of different sizes in " + s); double r = 0; for(int k=0;k<a[0].n;++k) r += s == "distance" ? (a[0].d[k]-a[1].d[k])*(a[0].d[k]-a[1].d[k]) : a[0].d[k]*a[1].d[k]; if(s == "dot") return num(r); if(s == "distance") return num(std::sqrt(r));
      if(s == "cross") { if(a[0].n != 3) throw Error("cross of vectors that are not vec3"); double *x = a[0].d, *y = a[1].d; return vec3(x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0]); }
      Val v = a[0]; for(int k=0;k<v.n;++k) v.d[k] -= 2*r*a[1].d[k]; return v; }
    if(s == "length" || s == "normalize") { double r = 0; for(int k=0;k<a[0].n;++k) r += a[0].d[k]*a[0].d[k]; r = std::sqrt(r); if(s == "length") return num(r); Val v = a[0]; for(int k=0;k<v.n;++k) v.d[k] /= r; return v; }
    int n = a[0].n; for(auto& v : a) n = std::max(n, v.n); for(size_t k=0;k<a.size();++k) if(a[k].n != n) { bool ok = a[k].n == 1 && ((k >= 1 && (s == "min" || s == "max" || s == "clamp" || s == "mod")) || (s == "mix" && k == 2) || (s == "step" && k == 0)); if(!ok) throw Error("no " + s + " for these vector sizes"); }
    if(s == "clamp" && a[1].n != a[2].n) throw Error("no clamp for these vector sizes");
    std::string f = s == "atan" && a.size() == 2 ? "atan2" : s; Val r; r.n = n; r.i = false; for(int k=0;k<3;++k) { double q[3] = {0,0,0}; for(size_t j=0;j<a.size();++j) q[j] = a[j].d[a[j].n == 1 ? 0 : k]; r.d[k] = k < n ? ap(f, q[0], q[1], q[2]) : 0; } return r; }
  static int comp(char c) { return c == 'x' || c == 'r' ? 0 : c == 'y' || c == 'g' ? 1 : 2; }
  Val run(const Node& n, Frame& f, bool& ret, int depth) const {
    switch(n.k) {
      case 'c': return n.v;
      case 'v': if(f[n.slot].n == 0) throw Error("use of " + n.s + " before it has a value"); return f[n.slot];
      case '-': { Val v = run(*n.c[0], f, ret, depth); return arith('-', v.i ? inum(0) : num(0), v); }
      case '!': { Val v = run(*n.c[0], f, ret, depth); if(v.n != -1) throw Error("! of a number"); return boolean(v.d[0] == 0); }
      case 'A': { Val a = run(*n.c[0], f, ret, depth), b = run(*n.c[1], f, ret, depth); return arith(n.s[0], a, b); }
      case 'C': { Val a = run(*n.c[0], f, ret, depth), b = run(*n.c[1], f, ret, depth); if(a.n != 1 || b.n != 1) { if((n.s == "==" || n.s == "!=") && a.n == b.n && a.n > 0) { bool e = true; for(int k=0;k<a.n;++k) e = e && a.d[k] == b.d[k]; return boolean(e == (n.s == "==")); } throw Error("comparison of values that are not numbers"); } double x = a.d[0], y = b.d[0]; return boolean(n.s == "<" ? x < y : n.s == ">" ? x > y : n.s == "<=" ? x <= y : n.s == ">=" ? x >= y : n.s == "==" ? x == y : x != y); }
      case '&': case '|': { Val a = run(*n.c[0], f, ret, depth); if(a.n != -1) throw Error("logic on numbers"); if((a.d[0] != 0) == (n.k == '|')) return a; Val b = run(*n.c[1], f, ret, depth); if(b.n != -1) throw Error("logic on numbers"); return b; }
      case '?': { Val a = run(*n.c[0], f, ret, depth); if(a.n != -1) throw Error("condition that is not boolean"); return run(*n.c[a.d[0] != 0 ? 1 : 2], f, ret, depth); }
      case '.': { Val a = run(*n.c[0], f, ret, depth); if(a.n < 2) throw Error("swizzle of a scalar"); Val r; r.n = (int)n.s.size(); r.i = false; r.d[0] = r.d[1] = r.d[2] = 0; for(int k=0;k<r.n;++k) { int j = comp(n.s[k]); if(j >= a.n) throw Error("swizzle beyond the vector"); r.d[k] = a.d[j]; } return r; }
      case '[': { Val a = run(*n.c[0], f, ret, depth), i = run(*n.c[1], f, ret, depth); if(a.n < 2 || !i.i || i.d[0] < 0 || i.d[0] >= a.n) throw Error("bad vector index"); return num(a.d[(int)i.d[0]]); }
      case 't': { std::vector<Val> a; for(auto& c : n.c) { a.push_back(run(*c, f, ret, depth)); if(a.back().n < 1) throw Error("bad constructor argument"); } int want = n.slot == 4 || n.slot == -1 ? 1 : n.slot; if(a.empty()) throw Error("constructor without arguments"); Val r; r.i = false; r.n = want; r.d[0] = r.d[1] = r.d[2] = 0;
        if(n.slot == -1) return boolean(a[0].d[0] != 0); if(n.slot == 4) return inum(std::trunc(a[0].d[0])); if(want == 1) { if(a.size() != 1) throw Error("float constructor with several arguments"); return num(a[0].d[0]); }
        if(a.size() == 1 && a[0].n == 1) { for(int k=0;k<want;++k) r.d[k] = a[0].d[0]; return r; } int k = 0; for(auto& v : a) { if(k >= want) throw Error("too many constructor arguments"); for(int j=0;j<v.n && k<want;++j) r.d[k++] = v.d[j]; } if(k < want) throw Error("not enough constructor arguments"); return r; }
      case 'b': { std::vector<Val> a; for(auto& c : n.c) a.push_back(run(*c, f, ret, depth)); return builtin(n.s, a); }
      case 'f': { std::vector<Val> a; for(auto& c : n.c) a.push_back(run(*c, f, ret, depth)); return call(n.s, a, depth+1); }
      case 'B': case 'D': for(auto& c : n.c) { Val v = run(*c, f, ret, depth); if(ret) return v; } return Val{0,false,{0,0,0}};
      case 'd': f[n.slot] = n.c.empty() ? Val{0,false,{0,0,0}} : convert(run(*n.c[0], f, ret, depth), n.v.n, ("the declaration of " + n.s).c_str()); if(n.c.empty() && n.v.n >= 2 && n.v.n <= 3) { f[n.slot].n = n.v.n; for(int k=0;k<3;++k) f[n.slot].d[k] = NAN; } return Val{0,false,{0,0,0}};
      case 'E': run(*n.c[0], f, ret, depth); return Val{0,false,{0,0,0}};
      case 'r': { Val v{0,false,{0,0,0}}; if(!n.c.empty()) v = run(*n.c[0], f, ret, depth); ret = true; return v; }
      case 'I': { Val c = run(*n.c[0], f, ret, depth); if(c.n != -1) throw Error("condition that is not boolean"); if(c.d[0] != 0) return run(*n.c[1], f, ret, depth); if(n.c.size() > 2) return run(*n.c[2], f, ret, depth); return Val{0,false,{0,0,0}}; }
      case 'F': { run(*n.c[0], f, ret, depth); for(int g=0;;++g) { if(g > 100000) throw Error("endless loop"); Val c = run(*n.c[1], f, ret, depth); if(c.n != -1) throw Error("condition that is not boolean"); if(c.d[0] == 0) break; Val v = run(*n.c[3], f, ret, depth); if(ret) return v; run(*n.c[2], f, ret, depth); } return Val{0,false,{0,0,0}}; }
      case '=': { Val r = run(*n.c[1], f, ret, depth); const Node& l = *n.c[0]; if(n.s != "=") r = arith(n.s[0], run(l, f, ret, depth), r);
        if(l.k == 'v') { f[l.slot] = convert(r, slotTypes[l.slot], ("the assignment to " + l.s).c_str()); return f[l.slot]; }
        if(l.c[0]->k != 'v') throw Error("nested assignment target"); Val& v = f[l.c[0]->slot]; if(r.n != 1) throw Error("a vector assigned to a component"); int j; if(l.k == '.') { if(l.s.size() != 1) throw Error("assignment to a swizzle"); j = comp(l.s[0]); } else { Val i = run(*l.c[1], f, ret, depth); if(!i.i) throw Error("bad index"); j = (int)i.d[0]; } if(v.n < 2 || j < 0 || j >= v.n) throw Error("component out of range"); v.d[j] = r.d[0]; return num(r.d[0]); }
    }
    throw Error("internal"); }
  std::vector<int> slotTypes; std::vector<std::pair<int,Val> > globals;
public:
  explicit Program(const std::string& text) : t(lex(text)), p(0), slots(0) { scope.push_back({});
    while(t[p].k != 'e') { if(take(";")) continue; if(t[p].k == 'i' && t[p].s == "const") { ++p; N d = declaration(true); Frame fr(slots, Val{0,false,{0,0,0}}); for(auto& g : globals) fr[g.first] = g.second; bool ret = false; slotTypes = slotType; run(*d, fr, ret, 0); for(auto& e : d->c) globals.push_back(std::make_pair(e->slot, fr[e->slot])); continue; }
      std::string rt = ident(); int ty = type(rt); if(!ty) throw Error("unexpected '" + rt + "' outside of a function" + where()); std::unique_ptr<Func> f(new Func); f->name = ident(); f->ret = ty; if(type(f->name)) throw Error("a function has the name of a type"); need("(");
      scope.push_back({}); std::vector<std::pair<std::string,int> > ps; if(!take(")")) { do { if(t[p].k == 'i' && (t[p].s == "in" || t[p].s == "const")) ++p; int a = type(ident()); if(!a || a == 9) throw Error("bad parameter type" + where()); ps.push_back(std::make_pair(ident(), a)); } while(take(",")); need(")"); }
      for(auto& x : by[f->name]) if(x->types.size() == ps.size()) { bool same = true; for(size_t k=0;k<ps.size();++k) same = same && x->types[k] == ps[k].second; if(same) throw Error("redefinition of " + f->name); }
      f->slots = slots; for(auto& q : ps) { f->types.push_back(q.second); declare(q.first, q.second); }
      if(!is("{")) throw Error("expected a function body" + where()); Func* raw = f.get(); funcs.push_back(std::move(f)); by[raw->name].push_back(raw); ++p; raw->body = mk('B'); while(!take("}")) raw->body->c.push_back(statement()); scope.pop_back(); }
    slotTypes = slotType; }
  Val call(const std::string& name, const std::vector<Val>& a, int depth = 0) const { if(depth > 32) throw Error("recursion"); auto it = by.find(name); if(it == by.end()) throw Error("no function " + name);
    for(int exact=1; exact>=0; --exact) for(auto f : it->second) { if(f->types.size() != a.size()) continue; bool ok = true; Frame fr(slots, Val{0,false,{0,0,0}}); for(auto& g : globals) fr[g.first] = g.second; for(size_t k=0;k<a.size() && ok;++k) { int have = a[k].n == 1 && a[k].i ? 4 : a[k].n; if(have == f->types[k]) fr[f->slots+k] = a[k]; else if(!exact && have == 4 && f->types[k] == 1) { fr[f->slots+k] = a[k]; fr[f->slots+k].i = false; } else ok = false; }
      if(!ok) continue; bool ret = false; Val r = run(*f->body, fr, ret, depth); if(f->ret == 9) return Val{0,false,{0,0,0}}; if(!ret) throw Error(name + " ends without a value"); return convert(r, f->ret, ("the value of " + name).c_str()); }
    throw Error("no " + name + " takes these arguments"); }
  bool has(const std::string& n) const { return by.count(n) != 0; }
};
}
namespace matlab {
using glsl::Error;
// function res = NAME(x) / res = zeros(n[, m]) / res(i) = expression ; ... / [return] / end[function]
class Program { std::string t; size_t p; const double* x; int nx; std::vector<double> res; bool shaped; int rows;
  void ws() { for(;;) { while(p < t.size() && (isspace((unsigned char)t[p]) || t[p] == ';')) ++p; if(p < t.size() && t[p] == '%') { while(p < t.size() && t[p] != '\n') ++p; continue; } if(t.compare(p, 3, "...") == 0) { p += 3; continue; } return; } }
  void sp() { for(;;) { while(p < t.size() && (t[p] == ' ' || t[p] == '\t')) ++p; if(t.compare(p, 3, "...") == 0) { while(p < t.size() && t[p] != '\n') ++p; ++p; continue; } return; } }
  bool lit(const char* s) { sp(); size_t n = std::string(s).size(); if(t.compare(p, n, s) == 0) { p += n; return true; } return false; }
  bool word(const char* s) { size_t n = std::string(s).size(); sp(); if(t.compare(p, n, s) == 0 && !(p+n < t.size() && (isalnum((unsigned char)t[p+n]) || t[p+n] == '_'))) { p += n; return true; } return false; }
  void need(const char* s) { if(!lit(s)) throw Error(std::string("matlab: expected ") + s + " before '" + t.substr(p, 20) + "'"); }
  double prim() { sp(); if(lit("(")) { double v = sum(); need(")"); return v; }
    if(p < t.size() && (isdigit((unsigned char)t[p]) || t[p] == '.')) { size_t n; double v = std::stod(t.substr(p, 40), &n); p += n; if(p < t.size() && (isalpha((unsigned char)t[p]) || t[p] == '_' || t[p] == '(')) throw Error("matlab: missing operator near '" + t.substr(p, 20) + "'"); return v; }
    static const char* F[] = { "exp", "cos", "acos", "sin", "sqrt", "abs", "log" }; for(int k=0;k<7;++k) if(word(F[k])) { need("("); double v = sum(); need(")"); return k == 0 ? std::exp(v) : k == 1 ? std::cos(v) : k == 2 ? std::acos(v) : k == 3 ? std::sin(v) : k == 4 ? std::sqrt(v) : k == 5 ? std::fabs(v) : std::log(v); }
    if(word("pi")) return M_PI;
    if(word("res")) { double i = index(); if(i < 1 || i > (double)res.size() || i != std::floor(i)) throw Error("matlab: bad index of res"); return res[(int)i-1]; }
    if(word("x")) { if(!is("(")) { if(nx == 1) return x[0]; throw Error("matlab: the whole of x used as a number"); } double i = index(); if(i != std::floor(i) || i < 1 || i > nx) throw Error("matlab: bad index of x"); return x[(int)i-1]; }
    throw Error("matlab: unexpected '" + t.substr(p, 20) + "'"); }
  bool is(const char* s) { sp(); return t.compare(p, std::string(s).size(), s) == 0; }
  double index() { need("("); double i = sum(); if(lit(",")) { double j = sum(); if(i != 1 && j != 1) throw Error("matlab: bad index"); i = std::max(i, j); } need(")"); return i; }
  double power() { double v = prim(); for(;;) { if(lit(".^") || lit("^")) { double s = 1; while(is("-") || is("+")) { if(lit("-")) s = -s; else lit("+"); } v = std::pow(v, s*prim()); } else return v; } }
  double unary() { if(lit("-")) return -unary(); if(lit("+")) return unary(); return power(); }
  double prod() { double v = unary(); for(;;) { if(lit(".*") || lit("*")) v *= unary(); else if(lit("./") || lit("/")) v /= unary(); else return v; } }
  double sum() { double v = prod(); for(;;) { if(lit("+")) v += prod(); else if(lit("-")) v -= prod(); else return v; } }
public:
  explicit Program(const std::string& s) : t(s), p(0), x(0), nx(0), shaped(false), rows(0) {}
  std::vector<double> call(const double* xx, int n) { p = 0; x = xx; nx = n; res.clear(); ws(); if(!word("function")) throw Error("matlab: no function"); if(!word("res")) throw Error("matlab: no result"); need("="); sp(); while(p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p; need("("); if(!word("x")) throw Error("matlab: no argument x"); need(")");
    for(;;) { ws(); if(p >= t.size()) return res; if(word("end") || word("endfunction")) { ws(); if(p < t.size()) throw Error("matlab: text after the function: '" + t.substr(p, 20) + "'"); return res; } if(word("return")) { sp(); if(p < t.size() && t[p] != ';' && t[p] != '\n') throw Error("matlab: return takes no value"); continue; }
      if(!word("res")) throw Error("matlab: unexpected '" + t.substr(p, 20) + "'");
      if(is("(")) { double i = index(); need("="); double v = sum(); if(i < 1 || i != std::floor(i) || i > 100) throw Error("matlab: bad index of res"); if(i > res.size()) res.resize((int)i, 0.0); res[(int)i-1] = v; }
      else { need("="); if(word("zeros")) { need("("); double a = sum(), b = a; if(lit(",")) b = sum(); need(")"); if(a != 1 && b != 1) throw Error("matlab: the result is a matrix"); res.assign((int)std::max(a,b), 0.0); } else { double v = sum(); res.assign(1, v); } }
      sp(); if(p < t.size() && t[p] != ';' && t[p] != '\n' && t[p] != '\r' && t[p] != ',' && t[p] != '%') throw Error("matlab: trailing '" + t.substr(p, 20) + "'"); if(p < t.size() && t[p] == ',') ++p; } }
};
}
