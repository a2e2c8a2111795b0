// P19: rational fitters against an exact decision (rational arithmetic, Gordan's alternative) of whether a fit exists.
#include "mc.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/vertical_segment.h>
#include <core/rational_function.h>
#include <core/fitter.h>
#include <core/plugins_manager.h>
using namespace alta;
typedef __int128 I;
struct Q { I n, d; Q(long a = 0) : n(a), d(1) {} Q(I a, I b) : n(a), d(b) { if(d < 0) { n = -n; d = -d; } I x = n < 0 ? -n : n, y = d; while(y) { I t = x % y; x = y; y = t; } if(x > 1) { n /= x; d /= x; } if(n == 0) d = 1; } double v() const { return (double)n/(double)d; } };
static Q operator+(Q a, Q b) { return Q(a.n*b.d + b.n*a.d, a.d*b.d); } static Q operator-(Q a, Q b) { return Q(a.n*b.d - b.n*a.d, a.d*b.d); } static Q operator*(Q a, Q b) { return Q(a.n*b.n, a.d*b.d); } static Q operator/(Q a, Q b) { return Q(a.n*b.d, a.d*b.n); }
typedef std::vector<Q> Row;
// reduces the rows of A; returns the rank, pivots in piv
static int reduce(std::vector<Row>& A, std::vector<int>& piv) { int r = 0, n = A.empty() ? 0 : (int)A[0].size(); for(int c=0;c<n && r<(int)A.size();++c) { int p = -1; for(int k=r;k<(int)A.size();++k) if(A[k][c].n) { p = k; break; } if(p < 0) continue; std::swap(A[p], A[r]); for(int k=0;k<(int)A.size();++k) if(k != r && A[k][c].n) { Q f = A[k][c]/A[r][c]; for(int j=c;j<n;++j) A[k][j] = A[k][j] - f*A[r][j]; } piv.push_back(c); ++r; } return r; }
// is there x with rows.x > 0 ?  No exactly when a non-negative combination of some at most n+1 rows vanishes.
static bool strict(const std::vector<Row>& R, int n) { int m = (int)R.size(); std::vector<int> S; std::function<bool(int)> rec = [&](int from) -> bool {
    if(!S.empty()) { std::vector<Row> T(n, Row(S.size())); for(int i=0;i<n;++i) for(size_t j=0;j<S.size();++j) T[i][j] = R[S[j]][i]; std::vector<int> piv; int r = reduce(T, piv); if(r < (int)S.size()) { if(r == (int)S.size() - 1) { int free = 0; while(free < r && piv[free] == free) ++free; bool pos = true; for(int k=0;k<r;++k) if(!((Q(0) - T[k][free]/T[k][piv[k]]).n > 0)) pos = false; if(pos) return true; } return false; } }   // dependent sets are minimal candidates
    if((int)S.size() == n + 1) return false; for(int i=from;i<m;++i) { S.push_back(i); if(rec(i+1)) return true; S.pop_back(); } return false; };
  return !rec(0); }
struct Data { int dx, dy; std::vector<std::vector<int> > x; std::vector<std::vector<std::pair<int,int> > > y; };       // y[sample][channel] = interval, in halves
static std::string str(const Data& D) { std::string s; for(size_t i=0;i<D.x.size();++i) { s += mc::vstr(D.x[i]); for(auto& v : D.y[i]) s += "(" + mc::dstr(v.first/2.0) + "," + mc::dstr(v.second/2.0) + ")"; s += " "; } return s; }
static parameters par(int dx, int dy) { static const params::input in[] = { params::COS_TH, params::COS_TH, params::COS_TH_TD, params::UNKNOWN_INPUT }; return parameters(dx, dy, in[dx], params::UNKNOWN_OUTPUT); }
static ptr<data> make(const Data& D) { int w = D.dx + 3*D.dy; ptr<vertical_segment> d; double* p = new double[D.x.size()*w]; for(size_t i=0;i<D.x.size();++i) { for(int k=0;k<D.dx;++k) p[i*w+k] = D.x[i][k]; for(int k=0;k<D.dy;++k) { double lo = D.y[i][k].first/2.0, hi = D.y[i][k].second/2.0; p[i*w+D.dx+k] = (lo+hi)/2; p[i*w+D.dx+D.dy+k] = lo; p[i*w+D.dx+2*D.dy+k] = hi; } } return ptr<data>(new vertical_segment(par(D.dx, D.dy), D.x.size(), std::shared_ptr<double>(p, [](double* q) { delete[] q; }))); }
static std::vector<std::vector<int> > degs(int dx, int n) { rational_function_1d r(par(dx, 1), n, n); std::vector<std::vector<int> > v; for(int i=0;i<n;++i) v.push_back(r.index2degree(i)); return v; }
static long mono(const std::vector<int>& x, const std::vector<int>& e) { long v = 1; for(size_t k=0;k<x.size();++k) for(int j=0;j<e[k];++j) v *= x[k]; return v; }
// does a rational function of this size pass strictly inside all intervals of the channel, its denominator of one sign?
static bool exists(const Data& D, int ch, int np, int nq) { auto e = degs(D.dx, std::max(np, nq)); std::vector<Row> R; for(size_t i=0;i<D.x.size();++i) { Row a, b; for(int j=0;j<np;++j) { long m = mono(D.x[i], e[j]); a.push_back(Q(m)); b.push_back(Q(-m)); } for(int j=0;j<nq;++j) { long m = mono(D.x[i], e[j]); a.push_back(Q(-m*D.y[i][ch].second, 2)); b.push_back(Q(m*D.y[i][ch].first, 2)); } R.push_back(a); R.push_back(b); } return strict(R, np+nq); }
static bool all(const Data& D, int np, int nq) { for(int k=0;k<D.dy;++k) if(!exists(D, k, np, nq)) return false; return true; }
static vec at(const Data& D, size_t i) { vec x(D.dx); for(int k=0;k<D.dx;++k) x[k] = D.x[i][k]; return x; }
// inside every interval; with sign: the denominator has one sign on the samples
static void inside(mc::Ctx& c, const Data& D, const ptr<function>& f, const std::string& w, bool sign) { ptr<rational_function> r = dynamic_pointer_cast<rational_function>(f); std::vector<double> q0(D.dy, 0.0);
  for(size_t i=0;i<D.x.size();++i) { vec x = at(D, i), y = f->value(x); if(!c.check(y.size() == D.dy, "dimension", w)) return; for(int k=0;k<D.dy;++k) { double lo = D.y[i][k].first/2.0, hi = D.y[i][k].second/2.0, t = 1e-8*(1 + std::abs(lo) + std::abs(hi)); c.check(y[k] >= lo - t && y[k] <= hi + t, "outside", w + ": " + mc::dstr(y[k]) + " at sample " + std::to_string(i) + " channel " + std::to_string(k)); if(sign) { double q = r->get(k)->q(x)[0]; c.check(q != 0 && q*q0[k] >= 0, "denominator", w + ": sample " + std::to_string(i)); if(q0[k] == 0) q0[k] = q; } } } }
static ptr<fitter> fit_(const char* n) { static std::map<std::string, ptr<fitter> > m; auto& f = m[n]; if(!f) f = plugins_manager::get_fitter(n); return f; }
static ptr<function> fun(const std::string& n, int dx, int dy) { return ptr<function>(plugins_manager::get_function(arguments::create_arguments(n.empty() ? "" : "--func " + n), par(dx, dy))); }
static const std::vector<std::string> MODES{ "", "--scheduling-mode WorstFirst", "--scheduling-mode WorstSetFirst", "--scheduling-mode SlidingWindows --scheduling-grow-factor 2", "--scheduling-chunk-size 1", "--scheduling-mode WorstSetFirst --scheduling-chunk-size 50", "--scheduling-chunk-size 50", "--delta 0.25", "--add-ls-energy", "--scheduling-chunk-size 2 --scheduling-grow-factor 1.5" };
static void quad(mc::Ctx& c, const Data& D, int np, int nq, const std::string& fn, bool rot = false) { ptr<data> d = make(D); bool ok = all(D, np, nq); std::string w0 = str(D) + "np " + std::to_string(np) + " nq " + std::to_string(nq) + " " + fn; c.state(w0); c.tag(w0.substr(0, 200)); c.outcome(ok ? "fit" : "none"); size_t n = 0, a = mc::hstr(w0);
  for(auto& m : MODES) { if(rot && !(n == 0 || n == 1 + a%(MODES.size()-1))) { ++n; continue; } ++n; arguments args = arguments::create_arguments("--np " + std::to_string(np) + " --nq " + std::to_string(nq) + " " + m); auto F = fit_("rational_fitter_quadprog"); F->set_parameters(args); ptr<function> f = fun(fn, D.dx, D.dy); bool got = F->fit_data(d, f, args); std::string w = w0 + " " + m; c.check(got || !ok, "feasible refused", w); if(got) inside(c, D, f, w, true); } }
static const std::vector<std::pair<int,int> > IV{ {0,2},{2,4},{-2,2},{6,8},{2,2},{-4,-1} };
static void scen_line(mc::Ctx& c) { Data D; D.dx = D.dy = 1; int M = 1 + c.pick(c.thorough ? 5 : 4, "M"); static const int X[3][5] = { {0,1,2,3,4}, {4,-1,1,-2,2}, {3,1,0,2,-1} }; int xs = c.pick(M > 1 ? 3 : 1, "x"); for(int i=0;i<M;++i) { D.x.push_back({ X[xs][i] }); D.y.push_back({ IV[c.pick(M == 5 ? 5 : M == 4 ? 5 : 6, "interval")] }); } int s = c.pick(9, "size"); quad(c, D, 1 + s%3, 1 + s/3, "", true); }
static void scen_modes(mc::Ctx& c) { Data D; D.dx = D.dy = 1; int M = 2 + c.pick(3, "M"); for(int i=0;i<M;++i) { D.x.push_back({ i }); D.y.push_back({ IV[c.pick(4, "interval")] }); } int s = c.pick(9, "size"); quad(c, D, 1 + s%3, 1 + s/3, ""); }
static void scen_basis(mc::Ctx& c) { Data D; D.dx = D.dy = 1; int M = 2 + c.pick(2, "M"); for(int i=0;i<M;++i) { D.x.push_back({ i == 0 ? -1 : i }); D.y.push_back({ IV[c.pick(5, "interval")] }); } int s = c.pick(9, "size"); static const std::vector<std::string> B{ "rational_function_legendre", "rational_function_chebychev" }; quad(c, D, 1 + s%3, 1 + s/3, c.of(B, "basis"), true); }
static void scen_planes(mc::Ctx& c) { Data D; D.dx = 2; D.dy = 1 + c.pick(2, "dy"); int M = 2 + c.pick(D.dy == 1 ? 3 : 2, "M"); static const int X[4][2] = { {0,0},{1,0},{0,1},{1,1} }; for(int i=0;i<M;++i) { D.x.push_back({ X[i][0], X[i][1] }); std::vector<std::pair<int,int> > y; for(int k=0;k<D.dy;++k) y.push_back(IV[c.pick(D.dy == 2 && M == 3 ? 3 : 4, "interval")]); D.y.push_back(y); } int s = c.pick(9, "size"); quad(c, D, 1 + s%3, 1 + s/3, "", true); }
// three channels, each with intervals of its own, in both interval fitters
static void scen_channels(mc::Ctx& c) { Data D; D.dx = 1; D.dy = 3 + (c.thorough ? c.pick(2, "dy") : 0); int M = 2; for(int i=0;i<M;++i) { D.x.push_back({ i }); std::vector<std::pair<int,int> > y; for(int k=0;k<D.dy;++k) y.push_back(IV[c.pick(D.dy == 3 ? 4 : 3, "interval")]); D.y.push_back(y); } int s = c.pick(4, "size"), np = 1 + s%2, nq = 1 + s/2; quad(c, D, np, nq, "", true);
  int N = np + nq; bool any = false; for(int j=1;j<N;++j) any = any || all(D, N-j, j); std::string cmd = "--min-np " + std::to_string(N) + " --np " + std::to_string(N) + " --nb-cores 1", w = str(D) + cmd; arguments args = arguments::create_arguments(cmd); auto F = fit_("rational_fitter_parallel"); F->set_parameters(args); ptr<data> d = make(D); ptr<function> f = fun("", 1, D.dy); bool got = F->fit_data(d, f, args); c.check(got || !any, "feasible refused", w); if(got) inside(c, D, f, w, true); }
// the search over sizes stops at the first one that admits a fit
static void scen_search(mc::Ctx& c) { Data D; D.dx = D.dy = 1; int M = 2 + c.pick(2, "M"); for(int i=0;i<M;++i) { D.x.push_back({ i }); D.y.push_back({ IV[c.pick(5, "interval")] }); } int a = 1 + c.pick(3, "min-np"), b = a + c.pick(3, "np"), e = 1 + c.pick(2, "min-nq"), f = e + c.pick(3, "nq"); int p = a, q = e, n = 0; bool ok = false; for(;;) { ++n; if(all(D, p, q)) { ok = true; break; } if(p == b && q == f) break; if(p < b) ++p; if(q < f) ++q; }
  std::string cmd = "--min-np " + std::to_string(a) + " --np " + std::to_string(b) + " --min-nq " + std::to_string(e) + " --nq " + std::to_string(f), w = str(D) + cmd; c.state(w); c.tag(w.substr(0, 200)); c.outcome(ok ? n : 0); arguments args = arguments::create_arguments(cmd); auto F = fit_("rational_fitter_quadprog"); F->set_parameters(args); ptr<data> d = make(D); ptr<function> g = fun("", 1, 1); bool got = F->fit_data(d, g, args); c.check(got || !ok, "search refused", w); if(got) { inside(c, D, g, w, true); auto r = dynamic_pointer_cast<rational_function>(g)->get(0); if(ok) c.check(r->getP().size() == p && r->getQ().size() == q, "search size", w + ": " + std::to_string(r->getP().size()) + "," + std::to_string(r->getQ().size()) + " not " + std::to_string(p) + "," + std::to_string(q)); } }
// many samples: the constraints are reordered; one interval that disagrees must be noticed wherever it is
static void scen_many(mc::Ctx& c) { static const std::vector<int> MS{ 31, 32, 33, 34, 63, 64, 65, 70 }; int M = c.of(MS, "M"), odd = c.pick(M + 1, "odd"), lin = c.pick(3, "shape"); Data D; D.dx = D.dy = 1; for(int i=0;i<M;++i) { D.x.push_back({ lin == 2 ? M/2 - i : i }); int lo = lin ? 2*D.x.back()[0] : 2; if(i == odd) lo += 40 + i%3; D.y.push_back({ { lo - 1, lo + 1 } }); } int np = lin ? 2 : 1; bool ok = odd == M; std::string w0 = "M " + std::to_string(M) + " odd " + std::to_string(odd) + " shape " + std::to_string(lin); c.state(w0); c.tag(w0); c.outcome(ok); ptr<data> d = make(D); const char* fits[] = { "rational_fitter_quadprog", "rational_fitter_parallel" };
  for(int k=0;k<6;++k) { static const std::vector<std::string> O{ "", "--scheduling-mode WorstSetFirst", "--scheduling-mode WorstFirst", "", "--nb-starting-points 5", "--nb-starting-points 1" }; std::string cmd = k < 3 ? "--np " + std::to_string(np) + " --nq 1 " : "--min-np " + std::to_string(np+1) + " --np " + std::to_string(np+1) + " --nb-cores 1 "; if(k >= 3 && lin) continue; arguments args = arguments::create_arguments(cmd + O[k]); auto F = fit_(fits[k >= 3]); F->set_parameters(args); ptr<function> g = fun("", 1, 1); bool got = F->fit_data(d, g, args); std::string w = w0 + " " + fits[k >= 3] + " " + O[k]; if(k >= 3 || lin == 0) c.check(got == ok, got ? "unfittable accepted" : "feasible refused", w); else c.check(got || !ok, "feasible refused", w); if(got) inside(c, D, g, w, k < 4); } }
// longer data: channels of different shape and size, sampled along a line; whatever is accepted lies inside every interval, and what is known to fit is not refused
static void scen_curves(mc::Ctx& c) { static const std::vector<int> MS{ 9, 16, 24 }; int M = c.of(MS, "M"), dy = 1 + c.pick(3, "dy"), am = c.pick(3, "amplitudes"), wi = c.pick(2, "width"), odd = c.pick(3, "odd"); static const double AMP[3][3] = { {1,5,-3}, {6,0.5,2}, {-2,-4,1} }, W[2] = { 0.05, 0.4 }; static const int NP[5] = { 1, 2, 3, 1, 2 }, NQ[5] = { 1, 1, 1, 2, 2 }; int sh[3], np = 1, nq = 1; for(int k=0;k<dy;++k) { sh[k] = dy == 3 ? 2*c.pick(c.thorough ? 3 : 2, "shape") : c.pick(5, "shape"); np = std::max(np, NP[sh[k]]); nq = std::max(nq, NQ[sh[k]]); }
  int w = 1 + 3*dy; double* p = new double[M*w]; std::vector<double> X(M), lo(M*dy), hi(M*dy); std::string z = "M " + std::to_string(M) + " shapes " + mc::vstr(std::vector<int>(sh, sh+dy)) + " amplitudes " + std::to_string(am) + " width " + mc::dstr(W[wi]) + " odd " + std::to_string(odd); for(int i=0;i<M;++i) { double x = X[i] = p[i*w] = 3.0*i/(M-1); for(int k=0;k<dy;++k) { double y = sh[k] == 0 ? 1 : sh[k] == 1 ? x - 0.5 : sh[k] == 2 ? 1 + (x-1)*(x-1) : sh[k] == 3 ? 1/(0.5+x) : (x+1)/(x+0.25); y *= AMP[am][k]; if(odd && k == dy-1 && i == (odd == 1 ? M/2 : M-1)) y += odd == 1 ? -3 : 3; p[i*w+1+k] = y; lo[i*dy+k] = p[i*w+1+dy+k] = y - W[wi]; hi[i*dy+k] = p[i*w+1+2*dy+k] = y + W[wi]; } }
  ptr<data> d(new vertical_segment(par(1, dy), M, std::shared_ptr<double>(p, [](double* q) { delete[] q; }))); c.state(z); c.tag(z); static const std::vector<std::string> O{ "", " --nb-starting-points 1", " --nb-starting-points 2", " --nb-starting-points 5" }, S{ "", " --scheduling-mode WorstSetFirst", " --scheduling-chunk-size 3" }; int got_ = 0;
  auto see = [&](const std::string& fit, const std::string& cmd, bool known) { arguments args = arguments::create_arguments(cmd); auto F = fit_(fit.c_str()); F->set_parameters(args); ptr<function> g = fun("", 1, dy); bool got = F->fit_data(d, g, args); std::string v = z + " " + fit + " " + cmd; c.check(got || !known, "known fit refused", v); if(!got) return; ++got_; for(int i=0;i<M;++i) { vec x(1); x[0] = X[i]; vec y = g->value(x); for(int k=0;k<dy;++k) { double t = 1e-6*(1 + std::abs(hi[i*dy+k])); c.check(y[k] >= lo[i*dy+k] - t && y[k] <= hi[i*dy+k] + t, "outside", v + ": " + mc::dstr(y[k]) + " at sample " + std::to_string(i) + " channel " + std::to_string(k) + " not in [" + mc::dstr(lo[i*dy+k]) + "," + mc::dstr(hi[i*dy+k]) + "]"); } } };
  int N = np + nq; for(int n=2;n<=N;++n) for(auto& o : O) see("rational_fitter_parallel", "--min-np " + std::to_string(n) + " --np " + std::to_string(n) + " --nb-cores 1" + o, !odd && n == N); for(auto& o : S) see("rational_fitter_quadprog", "--np " + std::to_string(np) + " --nq " + std::to_string(nq) + o, !odd); c.outcome(got_); }
// sizes up to the default one: the numerator and the denominator need all their terms, and the search starts below
static double cheb(int n, double x) { double a = 1, b = x; if(n == 0) return 1; for(int k=2;k<=n;++k) { double t = 2*x*b - a; a = b; b = t; } return b; }
static void scen_sizes(mc::Ctx& c) { int np = 1 + c.pick(10, "np"), nq = 1 + c.pick(10, "nq"), rg = c.pick(4, "range"), M = 24 + 16*c.pick(2, "M"), base = c.pick(3, "basis"); std::string z = "np " + std::to_string(np) + " nq " + std::to_string(nq) + " M " + std::to_string(M); double* p = new double[M*4]; std::vector<double> X(M), lo(M), hi(M); for(int i=0;i<M;++i) { double x = X[i] = p[i*4] = -1 + 2.0*i/(M-1), y = (np > 1 ? cheb(np-1, x) + 0.25 : 1)/(nq > 1 ? 1.5 + cheb(nq-1, x) : 1); p[i*4+1] = y; lo[i] = p[i*4+2] = y - 0.02; hi[i] = p[i*4+3] = y + 0.02; }
  ptr<data> d(new vertical_segment(par(1, 1), M, std::shared_ptr<double>(p, [](double* q) { delete[] q; }))); static const char* B[] = { "", "rational_function_legendre", "rational_function_chebychev" }; int mp = rg == 1 || rg == 3 ? 10 : np, mq = rg == 1 ? 10 : nq; std::string cmd = rg == 2 ? "--np " + std::to_string(np) + " --nq " + std::to_string(nq) : "--min-np 1 --min-nq 1 --np " + std::to_string(mp) + " --nq " + std::to_string(mq); int kp = 1, kq = 1; if(rg == 2) { kp = np; kq = nq; } else while(kp < np || kq < nq) { if(kp < mp) ++kp; if(kq < mq) ++kq; }
  std::string w = z + " " + B[base] + " " + cmd; c.state(w); c.tag(w); arguments args = arguments::create_arguments(cmd); auto F = fit_("rational_fitter_quadprog"); F->set_parameters(args); ptr<function> g = fun(B[base], 1, 1); bool got = F->fit_data(d, g, args); c.outcome(got); if(!c.check(got, "known fit refused", w)) return; auto r = dynamic_pointer_cast<rational_function>(g)->get(0); c.check((int)r->getP().size() <= kp && (int)r->getQ().size() <= kq, "not the first fit", w + ": " + std::to_string(r->getP().size()) + "," + std::to_string(r->getQ().size()));
  for(int i=0;i<M;++i) { vec x(1); x[0] = X[i]; double y = g->value(x)[0]; c.check(y >= lo[i] - 1e-6 && y <= hi[i] + 1e-6, "outside", w + ": " + mc::dstr(y) + " at sample " + std::to_string(i)); } }
static void scen_parallel(mc::Ctx& c) { Data D; D.dx = 1; D.dy = 1 + c.pick(2, "dy"); int M = 1 + c.pick(D.dy == 2 ? 2 : c.thorough ? 5 : 4, "M"); for(int i=0;i<M;++i) { D.x.push_back({ i == 3 ? -1 : i }); std::vector<std::pair<int,int> > y; for(int k=0;k<D.dy;++k) y.push_back(IV[c.pick(D.dy == 2 ? 4 : 5, "interval")]); D.y.push_back(y); } int lo = 2 + c.pick(2, "min-np"), hi = lo + c.pick(3, "np"); static const std::vector<std::string> O{ "", " --nb-starting-points 1", " --nb-starting-points 2", " --nb-starting-points 3", " --np-step 2", " --use_delta" }; ptr<data> d = make(D);
  std::vector<std::vector<int> > fit(hi+1); for(int N=lo;N<=hi;++N) for(int j=1;j<N;++j) if(all(D, N-j, j)) fit[N].push_back(N-j); 
  for(auto& o : O) { int step = o == " --np-step 2" ? 2 : 1, first = 0; for(int N=lo;N<=hi && !first;N+=step) if(!fit[N].empty()) first = N; std::string cmd = "--min-np " + std::to_string(lo) + " --np " + std::to_string(hi) + " --nb-cores 1" + o, w = str(D) + cmd; if(o.empty()) { c.state(w); c.tag(w.substr(0, 200)); c.outcome(first); } arguments args = arguments::create_arguments(cmd); auto F = fit_("rational_fitter_parallel"); F->set_parameters(args); ptr<function> g = fun("", 1, D.dy); bool got = F->fit_data(d, g, args); c.check(got || !first || o == " --use_delta", "feasible refused", w); if(!got) continue; inside(c, D, g, w, o.find("starting") == std::string::npos); auto r = dynamic_pointer_cast<rational_function>(g)->get(0); int n = (int)(r->getP().size() + r->getQ().size()); c.check(!first || n <= first, "not the smallest", w + ": " + std::to_string(n)); c.check(n >= lo && n <= hi && (n - lo)%step == 0, "size", w + ": " + std::to_string(n));
    if(o.empty() && n == first) { ptr<data> dd = d; double l2 = g->L2_distance(dd); for(int j=1;j<n;++j) { arguments a2 = arguments::create_arguments("--np " + std::to_string(n-j) + " --nq " + std::to_string(j) + " --scheduling-mode WorstFirst"); auto G = fit_("rational_fitter_quadprog"); G->set_parameters(a2); ptr<function> h = fun("", 1, D.dy); if(!G->fit_data(d, h, a2)) continue; double e = h->L2_distance(dd); c.check(l2 <= e*(1 + 1e-6) + 1e-9, "not the closest", w + ": " + mc::dstr(l2) + " > " + mc::dstr(e) + " with " + std::to_string(n-j)); } } } }
// data without intervals are given intervals of a relative width
static void scen_convert(mc::Ctx& c) { int M = 1 + c.pick(3, "M"), dy = 1 + c.pick(2, "dy"); static const std::vector<int> V{ 1, 5, -2 }; Data D; D.dx = 1; D.dy = dy; ptr<data> d; int w = 1 + dy; double* p = new double[M*w]; int dt = c.pick(3, "dt"); double t = dt == 0 ? 0.1 : dt == 1 ? 0.5 : 0.01; for(int i=0;i<M;++i) { p[i*w] = i; for(int k=0;k<dy;++k) p[i*w+1+k] = c.of(V, "y"); } d = ptr<data>(new vertical_segment(par(1, dy), M, std::shared_ptr<double>(p, [](double* q) { delete[] q; }), vertical_segment::NO_CONFIDENCE_INTERVAL)); std::string cmd = "--min-np 2 --np 8 --nb-cores 1"; if(dt) cmd += " --dt " + mc::dstr(t); std::string z = "M " + std::to_string(M) + " dy " + std::to_string(dy) + " " + mc::vstr(std::vector<double>(p, p + M*w)) + cmd; c.state(z); c.tag(z.substr(0, 200)); c.outcome(M); arguments args = arguments::create_arguments(cmd); auto F = fit_("rational_fitter_parallel"); F->set_parameters(args); ptr<function> g = fun("", 1, dy); if(!c.check(F->fit_data(d, g, args), "feasible refused", z)) return; double q0[2] = { 0, 0 }; for(int i=0;i<M;++i) { vec x(1); x[0] = i; vec y = g->value(x); for(int k=0;k<dy;++k) { double q = dynamic_pointer_cast<rational_function>(g)->get(k)->q(x)[0]; if(i == 0) q0[k] = q; c.check(q*q0[k] > 0, "denominator", z); double e = p[i*w+1+k]; c.check(std::abs(y[k] - e) <= t*std::abs(e)*(1 + 1e-6), "outside", z + ": " + mc::dstr(y[k]) + " at " + std::to_string(i)); } } }
// least squares: exactly representable data come back, and the numerator is optimal for the denominator
static ptr<data> points(const std::vector<std::vector<int> >& X, const std::vector<std::vector<double> >& Y) { int dx = (int)X[0].size(), dy = (int)Y[0].size(), w = dx + 3*dy; double* p = new double[X.size()*w]; for(size_t i=0;i<X.size();++i) { for(int k=0;k<dx;++k) p[i*w+k] = X[i][k]; for(int k=0;k<dy;++k) { p[i*w+dx+k] = Y[i][k]; p[i*w+dx+dy+k] = Y[i][k] - 0.1; p[i*w+dx+2*dy+k] = Y[i][k] + 0.1; } } return ptr<data>(new vertical_segment(par(dx, dy), X.size(), std::shared_ptr<double>(p, [](double* q) { delete[] q; }))); }
static void scen_exact(mc::Ctx& c) { int np = 1 + c.pick(3, "np"), nq = 1 + c.pick(3, "nq"), dx = 1 + c.pick(2, "dx"), N = np + nq; static const std::vector<int> A{ 0, 1, -1, 3 }; std::vector<int> p, q; for(int i=0;i<np;++i) p.push_back(c.of(A, "p")); for(int i=0;i<nq;++i) q.push_back(c.of(A, "q")); auto e = degs(dx, 3); static const int G[9][2] = { {0,0},{1,0},{0,1},{2,1},{1,2},{-1,1},{2,-1},{1,-2},{-2,-2} };
  std::vector<std::vector<int> > X; for(int i=0;i<N+2;++i) { if(dx == 1) X.push_back({ i - 2 }); else X.push_back({ G[i][0], G[i][1] }); } std::vector<Row> R; std::vector<std::vector<double> > Y; bool pole = false; long sgn = 0; double big = 0; for(auto& x : X) { long P = 0, D = 0; for(int i=0;i<np;++i) P += p[i]*mono(x, e[i]); for(int i=0;i<nq;++i) D += q[i]*mono(x, e[i]); if(D == 0 || D*sgn < 0) pole = true; sgn = D; if(pole) break; Row r; for(int i=0;i<np;++i) r.push_back(Q(mono(x, e[i]))); for(int i=0;i<nq;++i) r.push_back(Q(-P, D)*Q(mono(x, e[i]))); R.push_back(r); Y.push_back({ (double)P/(double)D }); big = std::max(big, std::abs(Y.back()[0])); }
  if(pole || big == 0) { c.trivial = true; return; } std::vector<int> piv; if(reduce(R, piv) != N - 1) { c.trivial = true; return; } std::string w0 = "p" + mc::vstr(p) + " q" + mc::vstr(q) + " dx " + std::to_string(dx); c.state(w0); c.tag(w0); ptr<data> d = points(X, Y); std::string cmd = "--np " + std::to_string(np) + " --nq " + std::to_string(nq);
  bool rec = true, zero = false, neg = false; for(auto& y : Y) neg = neg || y[0] < 0; for(int i=1;i<np;++i) rec = rec && p[i] == 0; for(auto& y : Y) zero = zero || y[0] == 0; c.outcome((nq == 1) + 2*(rec && !zero));
  for(int k=0;k<3;++k) { if(k && !(nq == 1 || (rec && !zero))) break; if(k && zero && nq > 1) break; arguments args = arguments::create_arguments(cmd + (k == 2 ? " --max-iter 3" : "")); const char* n = k ? "rational_fitter_leastsquare" : "rational_fitter_eigen"; auto F = fit_(n); F->set_parameters(args); ptr<function> f = fun("", dx, 1); std::string w = w0 + " " + n + (k == 2 ? " three iterations" : ""); bool got = F->fit_data(d, f, args); if(k == 0 || !neg) c.check(got, "refused", w); if(!got) continue; for(size_t i=0;i<X.size();++i) { vec x(dx); for(int j=0;j<dx;++j) x[j] = X[i][j]; double y = f->value(x)[0]; c.check(mc::close(y, Y[i][0], 1e-5, 1e-5*big), std::string("not reproduced") + (k ? " ls" : " eigen") + (neg ? " neg" : zero ? " zero" : "") + (nq == 1 ? " poly" : ""), w + ": " + mc::dstr(y) + " not " + mc::dstr(Y[i][0]) + " at " + mc::vstr(X[i])); } } }
// any data: with the denominator found, no other numerator is closer (the residual is orthogonal to the basis over the denominator)
static void scen_optimal(mc::Ctx& c) { int np = 1 + c.pick(3, "np"), nq = 1 + c.pick(3, "nq"), dy = 1 + c.pick(2, "dy"), it = 1 + c.pick(2, "iterations"), M = std::max(np, nq) + c.pick(2, "more"); static const std::vector<int> V{ 1, 2, 5 }; std::vector<std::vector<int> > X; std::vector<std::vector<double> > Y; for(int i=0;i<M;++i) { X.push_back({ i }); int v = c.of(V, "y"); Y.push_back(dy == 2 ? std::vector<double>{ (double)v, (double)(6 - v + i) } : std::vector<double>{ (double)v }); } ptr<data> d = points(X, Y); arguments args = arguments::create_arguments("--np " + std::to_string(np) + " --nq " + std::to_string(nq) + " --max-iter " + std::to_string(it)); auto F = fit_("rational_fitter_leastsquare"); F->set_parameters(args); ptr<function> f = fun("", 1, dy); std::string w = "np " + std::to_string(np) + " nq " + std::to_string(nq) + " iterations " + std::to_string(it) + " y"; for(auto& y : Y) w += mc::vstr(y); c.state(w); c.tag(w.substr(0, 200)); c.outcome(M); if(!c.check(F->fit_data(d, f, args), "refused", w)) return; auto r = dynamic_pointer_cast<rational_function>(f);
  for(int k=0;k<dy;++k) { auto s = r->get(k); c.check(s->getP().size() == np && s->getQ().size() == nq, "size", w); for(int j=0;j<np;++j) { double g = 0, n1 = 0, n2 = 0; bool skip = false; for(int i=0;i<M;++i) { vec x(1); x[0] = i; double q = s->q(x)[0], b = s->p(x, j)/q, e = s->p(x)[0]/q - Y[i][k]; if(std::abs(q) < 1e-3 || std::abs(q) > 1e6) skip = true; g += b*e; n1 += b*b; n2 += Y[i][k]*Y[i][k]; c.check(mc::close(f->value(x)[k], s->p(x)[0]/q, 1e-9, 1e-9), "value", w); } if(!skip) c.check(std::abs(g) <= 1e-6*std::sqrt(n1*n2), "not optimal", w + ": channel " + std::to_string(k) + " gradient " + mc::dstr(g)); } } }
// what cannot be fitted is refused
static void scen_refuse(mc::Ctx& c) { static const char* F_[] = { "rational_fitter_quadprog", "rational_fitter_leastsquare", "rational_fitter_eigen", "rational_fitter_parallel" }; int k = c.pick(4, "fitter"), what = c.pick(2, "what"); Data D; D.dx = D.dy = 1; D.x = { {0}, {1} }; D.y = { { {0,2} }, { {0,2} } }; ptr<data> d = make(D); if(what == 0 && k == 3) { c.trivial = true; return; } if(what == 0) { double* p = new double[4]{ 0, 1, 1, 1 }; d = ptr<data>(new vertical_segment(par(1, 1), 2, std::shared_ptr<double>(p, [](double* q) { delete[] q; }), vertical_segment::NO_CONFIDENCE_INTERVAL)); } ptr<function> f = what == 1 ? ptr<function>(new rational_function_1d(par(1, 1), 1, 1)) : fun("", 1, 1); arguments args = arguments::create_arguments("--np 1 --nq 1 --nb-cores 1"); auto F = fit_(F_[k]); F->set_parameters(args); bool got = F->fit_data(d, f, args); std::string w = std::string(F_[k]) + (what ? " not a rational_function" : " data without intervals"); c.state(w); c.tag(w); c.outcome(got); c.check(!got, "accepted", w); }
MC_MAIN({"line", scen_line, 4, 30}, {"modes", scen_modes, 4, 30}, {"basis", scen_basis, 4, 30}, {"planes", scen_planes, 4, 30}, {"channels", scen_channels, 4, 30}, {"search", scen_search, 4, 30}, {"many", scen_many, 2, 60}, {"curves", scen_curves, 4, 60}, {"sizes", scen_sizes, 3, 60}, {"parallel", scen_parallel, 4, 60}, {"convert", scen_convert, 4, 60}, {"exact", scen_exact, 4, 30}, {"optimal", scen_optimal, 4, 30}, {"refuse", scen_refuse, 2, 30})
