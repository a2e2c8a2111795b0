// P18: the quadratic programming solver against an exact enumeration of active sets in rational arithmetic.
#include "mc.h"
#include <QuadProg++.hh>
using namespace Eigen;
typedef __int128 I;
struct Q { I n, d; Q(long a = 0) : n(a), d(1) {} Q(I a, I b) : n(a), d(b) { norm(); } void norm() { if(d < 0) { n = -n; d = -d; } I a = n < 0 ? -n : n, b = d; while(b) { I t = a % b; a = b; b = t; } if(a > 1) { n /= a; d /= a; } if(n == 0) d = 1; } double v() const { return (double)n/(double)d; } };
static Q operator+(Q a, Q b) { return Q(a.n*b.d + b.n*a.d, a.d*b.d); } static Q operator-(Q a, Q b) { return Q(a.n*b.d - b.n*a.d, a.d*b.d); } static Q operator*(Q a, Q b) { return Q(a.n*b.n, a.d*b.d); } static Q operator/(Q a, Q b) { return Q(a.n*b.d, a.d*b.n); }
struct Prob { int n; std::vector<std::vector<int> > G; std::vector<int> g; std::vector<std::vector<int> > E, C; };       // rows: normal then offset; normal.x + offset = 0 (E), >= 0 (C)
// solves A x = b exactly; false if singular
static bool solve(std::vector<std::vector<Q> >& A, std::vector<Q>& x) { int n = (int)A.size(); for(int c=0;c<n;++c) { int p = -1; for(int r=c;r<n;++r) if(A[r][c].n) { p = r; break; } if(p < 0) return false; std::swap(A[p], A[c]); for(int r=0;r<n;++r) if(r != c && A[r][c].n) { Q f = A[r][c]/A[c][c]; for(int k=c;k<=n;++k) A[r][k] = A[r][k] - f*A[c][k]; } } x.resize(n); for(int c=0;c<n;++c) x[c] = A[c][n]/A[c][c]; return true; }
struct Ref_ { bool feasible, dependent; std::vector<Q> x; Q f; int active; };
static Q dot(const std::vector<int>& r, const std::vector<Q>& x, int n) { Q s; for(int i=0;i<n;++i) s = s + Q(r[i])*x[i]; return s; }
static int rank(const std::vector<std::vector<int> >& R, int n) { std::vector<std::vector<Q> > A; for(auto& r : R) { A.push_back({}); for(int i=0;i<n;++i) A.back().push_back(Q(r[i])); } int k = 0; for(int c=0;c<n && k<(int)A.size();++c) { int p = -1; for(int r=k;r<(int)A.size();++r) if(A[r][c].n) { p = r; break; } if(p < 0) continue; std::swap(A[p], A[k]); for(int r=k+1;r<(int)A.size();++r) if(A[r][c].n) { Q f = A[r][c]/A[k][c]; for(int i=c;i<n;++i) A[r][i] = A[r][i] - f*A[k][i]; } ++k; } return k; }
static Ref_ oracle(const Prob& P) {
  Ref_ R; R.feasible = false; int p = (int)P.E.size(), m = (int)P.C.size(), n = P.n; R.dependent = rank(P.E, n) < p; if(R.dependent) return R;
  for(int s=0;s<(1<<m);++s) { std::vector<std::vector<int> > act = P.E; for(int i=0;i<m;++i) if(s >> i & 1) act.push_back(P.C[i]); int k = (int)act.size(); if(k > n || rank(act, n) < k) continue;
    std::vector<std::vector<Q> > A(n+k, std::vector<Q>(n+k+1)); for(int i=0;i<n;++i) { for(int j=0;j<n;++j) A[i][j] = Q(P.G[i][j]); for(int j=0;j<k;++j) A[i][n+j] = Q(-act[j][i]); A[i][n+k] = Q(-P.g[i]); } for(int j=0;j<k;++j) { for(int i=0;i<n;++i) A[n+j][i] = Q(act[j][i]); A[n+j][n+k] = Q(-act[j][n]); }
    std::vector<Q> x; if(!solve(A, x)) continue; bool ok = true; for(int j=p;j<k && ok;++j) ok = x[n+j].n >= 0; for(int i=0;i<m && ok;++i) ok = (dot(P.C[i], x, n) + Q(P.C[i][n])).n >= 0; if(!ok) continue;
    R.feasible = true; R.active = k; R.x.assign(x.begin(), x.begin()+n); R.f = Q(); for(int i=0;i<n;++i) { Q t; for(int j=0;j<n;++j) t = t + Q(P.G[i][j])*x[j]; R.f = R.f + x[i]*(t*Q(1,2) + Q(P.g[i])); } return R; }
  return R; }
static std::string str(const Prob& P) { std::string s = "G"; for(auto& r : P.G) s += mc::vstr(r); s += " g" + mc::vstr(P.g) + " E"; for(auto& r : P.E) s += mc::vstr(r); s += " C"; for(auto& r : P.C) s += mc::vstr(r); return s; }
static const char* MN[] = { "solve_quadprog", "worst first", "worst set first", "sliding windows", "growing windows", "windows of one", "last inequality first", "inequalities from the second first", "worst set of one first", "windows of two", "windows of two, growing" };
static void judge(mc::Ctx& c, const Prob& P, const Ref_& R, int modes = 11, double tol = 1e-9) {
  int n = P.n, p = (int)P.E.size(), m = (int)P.C.size(); MatrixXd G(n,n), CE(n,p), CI(n,m); VectorXd g(n), ce(p), ci(m); for(int i=0;i<n;++i) { g[i] = P.g[i]; for(int j=0;j<n;++j) G(i,j) = P.G[i][j]; } for(int j=0;j<p;++j) { for(int i=0;i<n;++i) CE(i,j) = P.E[j][i]; ce[j] = P.E[j][n]; } for(int j=0;j<m;++j) { for(int i=0;i<n;++i) CI(i,j) = P.C[j][i]; ci[j] = P.C[j][n]; }
  std::string w = str(P); c.state(w); c.outcome(R.dependent ? -2 : R.feasible ? R.active : -1); c.tag(w.substr(0, 200));
  for(int k=0;k<modes;++k) { if(m == 0 && k > 1) break; MatrixXd L = G; VectorXd x = VectorXd::Constant(n, 7.25); double f = 0; bool thrown = false; VectorXi act;
    try { if(k == 0) f = QuadProgPP::solve_quadprog(L, g, CE, ce, CI, ci, x); else { QuadProgPP::init_qp(L); x = L.triangularView<Lower>().solve(g); x = L.triangularView<Lower>().adjoint().solve(x); x = -x; QuadProgPP::Scheduling s; if(k == 2) s.initWorstSetFirst(n, m); if(k >= 3 && k <= 5) s.initSlidingWindows(n, m); if(k == 4) s.grow_factor = 2; if(k == 5) s.initial_chunk_size = 1; if(k == 6) act = VectorXi::Constant(1, m-1); if(k == 7) { act.resize(m-1); for(int i=1;i<m;++i) act[i-1] = i; } if(k == 8) { s.initWorstSetFirst(n, m); s.initial_chunk_size = 1; } if(k >= 9) { s.initSlidingWindows(n, m); s.initial_chunk_size = std::min(2, m); if(k == 10) s.grow_factor = 1.5; } f = QuadProgPP::solve_quadprog_with_guess(L, g, CE, ce, CI, ci, x, s, &act); } }
    catch(std::exception&) { thrown = true; }
    std::string v = std::string(MN[k]) + " " + w; if(thrown) { c.check(R.dependent, "exception", v); continue; } if(R.dependent) { c.fail("dependent equalities accepted", v); continue; }
    if(!R.feasible) { c.check(f == std::numeric_limits<double>::infinity(), std::string("infeasible accepted ") + MN[k], v + " returned " + mc::dstr(f)); continue; }
    if(!c.check(std::isfinite(f) && f < 1e300, std::string("feasible refused ") + MN[k], v + " returned " + mc::dstr(f))) continue;
    bool ok = true; std::string d; for(int i=0;i<n;++i) { double e = R.x[i].v(); if(!mc::close(x[i], e, tol, tol)) { ok = false; d += " x" + std::to_string(i) + " = " + mc::dstr(x[i]) + " not " + mc::dstr(e); } } c.check(ok, std::string("minimiser ") + MN[k], v + d); c.check(mc::close(f, R.f.v(), tol, tol), std::string("value ") + MN[k], v + " is " + mc::dstr(f) + " not " + mc::dstr(R.f.v())); }
}
static void judge(mc::Ctx& c, const Prob& P) { judge(c, P, oracle(P)); }
static std::vector<std::vector<std::vector<int> > > GS[4] = { {}, { {{1}}, {{4}} }, { {{1,0},{0,1}}, {{2,1},{1,2}}, {{4,-2},{-2,2}}, {{9,0},{0,1}} }, { {{1,0,0},{0,1,0},{0,0,1}}, {{2,1,0},{1,2,-1},{0,-1,3}}, {{4,2,2},{2,5,3},{2,3,6}} } };
static const std::vector<std::vector<int> > NS2{ {1,0},{-1,0},{0,1},{0,-1},{1,1},{-1,1},{2,-1},{-1,-2},{0,0} }, NS3{ {1,0,0},{0,-1,0},{0,0,1},{1,1,1},{-1,-1,-1},{1,-1,0},{0,1,2},{-2,1,1},{-1,0,-1} }, NS1{ {1},{-1},{2},{0} };
static std::vector<std::vector<int> > rows(const std::vector<std::vector<int> >& N, const std::vector<int>& off) { std::vector<std::vector<int> > r; for(auto& v : N) for(int o : off) { auto w = v; w.push_back(o); r.push_back(w); } return r; }
// every multiset of m inequalities out of the pool, in ascending or descending order
static void inequalities(mc::Ctx& c, Prob& P, const std::vector<std::vector<int> >& pool, int m) { int from = 0; bool desc = m > 1 && c.flag("descending"); for(int k=0;k<m;++k) { from += c.pick((int)pool.size() - from, "row"); P.C.push_back(pool[from]); } if(desc) std::reverse(P.C.begin(), P.C.end()); }
static void scen_one(mc::Ctx& c) { Prob P; P.n = 1; P.G = c.of(GS[1], "G"); P.g = { c.pick(5, "g") - 2 }; static const auto pool = rows(NS1, {-2,-1,0,1,3}); if(c.flag("equality")) P.E.push_back(c.of(pool, "e")); inequalities(c, P, pool, c.pick(P.E.empty() ? 4 : 3, "m")); judge(c, P); }
static void scen_two(mc::Ctx& c) { Prob P; P.n = 2; P.G = c.of(GS[2], "G"); static const std::vector<std::vector<int> > g{ {0,0},{1,-2},{-2,-1},{3,1} }; P.g = c.of(g, "g"); static const auto pool = rows(NS2, {-2,0,1}), poolt = rows(NS2, {-2,-1,0,1,3}); inequalities(c, P, c.thorough ? poolt : pool, c.pick(4, "m")); judge(c, P); }
static void scen_two_four(mc::Ctx& c) { Prob P; P.n = 2; P.G = c.of(GS[2], "G"); P.g = c.flag("g") ? std::vector<int>{1,-2} : std::vector<int>{-2,-1}; static const auto pool = rows(NS2, {-2,1}); std::vector<std::vector<int> > q(pool.begin(), c.thorough ? pool.end() : pool.begin() + 12); inequalities(c, P, q, c.thorough ? 5 : 4); judge(c, P); }
static void scen_three(mc::Ctx& c) { Prob P; P.n = 3; P.G = c.of(GS[3], "G"); static const std::vector<std::vector<int> > g{ {0,0,0},{1,-2,1},{-2,-1,3} }; P.g = c.of(g, "g"); static const auto pool = rows(NS3, {-2,1}), poolt = rows(NS3, {-2,0,1}); inequalities(c, P, c.thorough ? poolt : pool, c.thorough ? c.pick(5, "m") : 3 + c.pick(2, "m")); judge(c, P); }
static void scen_equal(mc::Ctx& c) { Prob P; P.n = 2 + c.pick(2, "n"); P.G = c.of(GS[P.n], "G"); P.g = P.n == 2 ? std::vector<int>{1,-2} : std::vector<int>{1,-2,1}; static const auto p2 = rows(NS2, {-2,0,1}), p3 = rows(NS3, {-2,1}); auto& pool = P.n == 2 ? p2 : p3; int p = c.pick(3, "p"); for(int k=0;k<p;++k) P.E.push_back(c.of(pool, "e")); inequalities(c, P, pool, p == 2 && !c.thorough ? 1 : 2); judge(c, P); }
// scaled copies of the rows and of the objective leave the minimiser where it is
static void scen_scaled(mc::Ctx& c) { Prob P; P.n = 2; P.G = c.of(GS[2], "G"); P.g = c.flag("g") ? std::vector<int>{1,-2} : std::vector<int>{-2,-1}; static const auto pool = rows(NS2, {-2,1}); static const std::vector<int> S{ 1, 1000 }; int so = c.of(S, "objective"); for(auto& r : P.G) for(int& v : r) v *= so; for(int& v : P.g) v *= so; int m = 2; int from = 0; for(int k=0;k<m;++k) { from += c.pick((int)pool.size() - from, "row"); auto r = pool[from]; int s = c.of(S, "scale"); for(int& v : r) v *= s; P.C.push_back(r); } judge(c, P); }
// malformed sizes are refused
static void scen_sizes(mc::Ctx& c) { int n = 2, d[6]; for(int k=0;k<6;++k) d[k] = c.pick(2, "size"); bool bad = d[0]||d[1]||d[2]||d[3]||d[4]; MatrixXd G = MatrixXd::Identity(n + d[0], n), CE(n + d[1], 1), CI(n + d[3], 1); CE.setOnes(); CI.setOnes(); VectorXd g = VectorXd::Zero(n), ce = VectorXd::Zero(1 + d[2]), ci = VectorXd::Zero(1 + d[4]), x(n); if(d[5]) { CI.setZero(); if(!bad) ci[0] = -1; } bool t = false; double f = 0; try { f = QuadProgPP::solve_quadprog(G, g, CE, ce, CI, ci, x); } catch(std::logic_error&) { t = true; } std::string w = mc::vstr(std::vector<int>(d, d+6)); c.check(t == bad, "sizes", w); if(!bad) c.check(d[5] ? f == std::numeric_limits<double>::infinity() : mc::close(f, 0, 0, 1e-12), "value", w); c.state(w); c.outcome(w); c.tag("sizes"); }
// many unknowns and constraints: the minimiser is chosen first, then the objective that makes it one (multipliers of the active rows), then slack rows around it
static void scen_large(mc::Ctx& c) { static const std::vector<int> NS{ 4, 6, 12 }, MS{ 8, 20, 33, 60 }; Prob P; int n = P.n = c.of(NS, "n"), m = c.of(MS, "m"), p = c.pick(3, "p"), na = c.pick(4, "active"), where = c.pick(3, "where"), gk = c.pick(2, "G"), sl = c.pick(3, "slack"), bad = c.pick(3, "contradiction"), seed = c.pick(c.thorough ? 8 : 3, "rows"); p = p == 2 ? n/2 : p; int a = na == 0 ? 0 : na == 1 ? 1 : na == 2 ? (n-p)/2 : n-p; a = std::min(a, m);
  unsigned lc = 12345u + 977u*seed; auto rnd = [&](int k) { lc = lc*1664525u + 1013904223u; return (int)((lc >> 16)%(unsigned)k); }; std::vector<int> x(n); for(int i=0;i<n;++i) x[i] = rnd(7) - 3; P.G.assign(n, std::vector<int>(n, 0)); for(int i=0;i<n;++i) { P.G[i][i] = gk ? 3 + i : 1; if(gk && i+1 < n) P.G[i][i+1] = P.G[i+1][i] = i%2 ? -1 : 1; } P.g.assign(n, 0); for(int i=0;i<n;++i) for(int j=0;j<n;++j) P.g[i] -= P.G[i][j]*x[j];
  auto row = [&](int k, int sgn) { std::vector<int> r(n+1, 0); r[k] = sgn; if(k+1 < n) r[k+1] = rnd(3) - 1; if(k+2 < n) r[k+2] = rnd(3) - 1; for(int i=0;i<n;++i) r[n] -= r[i]*x[i]; return r; };
  for(int k=0;k<p;++k) { P.E.push_back(row(k, 1)); int l = rnd(5) - 2; for(int i=0;i<n;++i) P.g[i] += l*P.E[k][i]; } std::vector<std::vector<int> > act, rest; for(int k=0;k<a;++k) { act.push_back(row(p+k, rnd(2) ? 1 : -1)); int l = 1 + rnd(4); for(int i=0;i<n;++i) P.g[i] += l*act[k][i]; }
  while((int)(act.size() + rest.size()) < m) { std::vector<int> r(n+1, 0); for(int i=0;i<n;++i) { r[i] = rnd(5) - 2; r[n] -= r[i]*x[i]; } r[n] += sl == 0 ? 1 + rnd(3) : sl == 1 ? 40 : rest.size()%4 ? 1 : 0; rest.push_back(r); }
  for(int k=0, i=0, j=0;k<m;++k) { bool t = i < a && (where == 0 || j >= (int)rest.size() || (where == 2 && k%std::max(1, m/std::max(1, a)) == 0)); P.C.push_back(t ? act[i++] : rest[j++]); }
  if(bad) { std::vector<int> r(n+1, 0), q(n+1, 0); r[n-1] = 1; r[n] = -x[n-1]; q[n-1] = -1; q[n] = x[n-1] - 1; int u = bad == 1 ? m-1 : m/2; P.C[0] = r; P.C[u] = q; }
  Ref_ R; R.dependent = false; R.feasible = !bad; R.active = p + a; for(int v : x) R.x.push_back(Q(v)); long f2 = 0; for(int i=0;i<n;++i) { long t = 2*P.g[i]; for(int j=0;j<n;++j) t += P.G[i][j]*x[j]; f2 += t*x[i]; } R.f = Q((I)f2, (I)2); judge(c, P, R, 11, 1e-7); }
MC_MAIN({"large", scen_large, 4, 30}, {"one", scen_one, 4, 20}, {"two", scen_two, 4, 20}, {"two_four", scen_two_four, 4, 20}, {"three", scen_three, 4, 20}, {"equal", scen_equal, 4, 20}, {"scaled", scen_scaled, 4, 20}, {"sizes", scen_sizes, 3, 20})
