// Shared by P04..P07: a plain reference table of samples, and access to the loader.
#pragma once
#include "mc.h"
#include "core/args.h"
#include "core/data.h"
#include "core/data_storage.h"
#include "core/vertical_segment.h"
#include "core/plugins_manager.h"
using namespace alta;
typedef vertical_segment VS;
struct Table {                                   // reference: rows of x, y, lower, upper
  int nx, ny; params::input in; params::output out;
  std::vector<std::vector<double> > x, y, lo, hi;
  Table() : nx(1), ny(1), in(params::UNKNOWN_INPUT), out(params::UNKNOWN_OUTPUT) {}
};
static inline bool same(double a, double b) { return a == b || (a != a && b != b); }
static inline bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
// every observation a user can make of a loaded vertical segment, against the table
static inline void observe(mc::Ctx& c, const ptr<data>& d, const Table& t, const std::string& what, bool intervals = true, double tol = 0) {
  if(!c.check((bool)d, "null", what + ": no data")) return;
  if(!c.check(d->size() == (int)t.x.size(), "size", what + ": " + std::to_string(d->size()) + " samples, not " + std::to_string(t.x.size()))) return;
  const parameters& p = d->parametrization();
  c.check(p.dimX() == t.nx && p.dimY() == t.ny, "dim", what);
  c.check(p.input_parametrization() == t.in, "param_in", what);
  c.check(p.output_parametrization() == t.out, "param_out", what);
  const VS* v = dynamic_cast<const VS*>(d.get());
  for(int i=0;i<(int)t.x.size();++i) {
    vec r = d->get(i); std::string w = what + " sample " + std::to_string(i);
    if(!c.check(r.size() == t.nx + t.ny, "row size", w)) return;
    auto near = [&](double a, double b) { return same(a, b) || mc::close(a, b, tol, 0); };
    for(int k=0;k<t.nx;++k) c.check(near(r[k], t.x[i][k]), "x", w + " x" + std::to_string(k) + " = " + mc::dstr(r[k]) + " not " + mc::dstr(t.x[i][k]));
    for(int k=0;k<t.ny;++k) c.check(near(r[t.nx+k], t.y[i][k]), "y", w + " y" + std::to_string(k) + " = " + mc::dstr(r[t.nx+k]) + " not " + mc::dstr(t.y[i][k]));
    if(v && intervals) {
      vec x, l, u, l2, u2; v->get(i, x, l, u); v->get(i, l2, u2);
      if(!c.check(x.size() == t.nx && l.size() == t.ny && u.size() == t.ny && l2.size() == t.ny && u2.size() == t.ny, "interval size", w)) return;
      for(int k=0;k<t.nx;++k) c.check(near(x[k], t.x[i][k]), "interval x", w);
      for(int k=0;k<t.ny;++k) {
        auto eq = [&](double a, double b) { return same(a, b) || mc::close(a, b, 4e-16, 1e-300); };
        c.check(eq(l[k], t.lo[i][k]), "lower", w + " lower" + std::to_string(k) + " = " + mc::dstr(l[k]) + " not " + mc::dstr(t.lo[i][k]));
        c.check(eq(u[k], t.hi[i][k]), "upper", w + " upper" + std::to_string(k) + " = " + mc::dstr(u[k]) + " not " + mc::dstr(t.hi[i][k]));
        c.check(same(l[k], l2[k]) && same(u[k], u2[k]), "interval accessors agree", w);
      }
    }
  }
  if(t.x.size()) {
    c.check(d->min().size() == t.nx && d->max().size() == t.nx, "bounds size", what);
    for(int k=0;k<t.nx && d->min().size() == t.nx;++k) {
      double mn = t.x[0][k], mx = t.x[0][k];
      for(auto& r : t.x) { mn = std::min(mn, r[k]); mx = std::max(mx, r[k]); }
      auto near = [&](double a, double b) { return same(a, b) || mc::close(a, b, tol, 0); };
      c.check(near(d->min()[k], mn), "min", what + " min" + std::to_string(k) + " = " + mc::dstr(d->min()[k]) + " not " + mc::dstr(mn));
      c.check(near(d->max()[k], mx), "max", what + " max" + std::to_string(k) + " = " + mc::dstr(d->max()[k]) + " not " + mc::dstr(mx));
    }
  }
}
static inline ptr<data> load_text(const std::string& s, const arguments& a = arguments()) {
  std::istringstream in(s); mc::dirty(); return plugins_manager::load_data("vertical_segment", in, a); }
// load that must be refused: null or an exception
static inline bool refused(const std::string& s, std::string* why = 0) {
  try { std::istringstream in(s); mc::dirty(); ptr<data> d = plugins_manager::load_data("vertical_segment", in, arguments()); return !d; }
  catch(std::exception& e) { if(why) *why = e.what(); return true; }
}
// sizes no hand-written file has: around the powers of two a buffer or a counter may be limited to
static const std::vector<int> MANY{ 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4096, 4097, 10000, 32768, 65537 };
static const std::vector<std::pair<int,int> > WIDE{ {1,1}, {2,3}, {6,1}, {1,9}, {6,16}, {12,4}, {66,2}, {2,70} };   // the last two with fewer rows only
static inline bool heavy(int n, std::pair<int,int> d) { return d.first + d.second > 40 && n > 300; }
static inline double cell(int i, int k, int fill) { return fill == 0 ? i + 0.125*k : fill == 1 ? (i*2654435761u % 1000003) / 1000.0 - 500 + k : (i % 3 ? 0.25 : -0.5) * (k + 1); }
struct Par { params::input p; const char* n; };
static const std::vector<Par> INS{ {params::UNKNOWN_INPUT,"UNKNOWN_INPUT"},{params::COS_TH,"COS_TH"},{params::COS_TK,"COS_TK"},{params::COS_TLV,"COS_TLV"},{params::COS_TLR,"COS_TLR"},
  {params::RUSIN_TH_TD,"RUSIN_TH_TD"},{params::COS_TH_TD,"COS_TH_TD"},{params::ISOTROPIC_TV_PROJ_DPHI,"ISOTROPIC_TV_PROJ_DPHI"},{params::RUSIN_TH_TD_PD,"RUSIN_TH_TD_PD"},
  {params::ISOTROPIC_TV_TL_DPHI,"ISOTROPIC_TV_TL_DPHI"},{params::SPHERICAL_TL_PL_TV_PV,"SPHERICAL_TL_PL_TV_PV"},{params::RUSIN_TH_PH_TD_PD,"RUSIN_TH_PH_TD_PD"},{params::CARTESIAN,"CARTESIAN"} };
struct Pao { params::output p; const char* n; };
static const std::vector<Pao> OUTS{ {params::UNKNOWN_OUTPUT,"UNKNOWN_OUTPUT"},{params::INV_STERADIAN,"INV_STERADIAN"},{params::INV_STERADIAN_COSINE_FACTOR,"INV_STERADIAN_COSINE_FACTOR"},{params::ENERGY,"ENERGY"},{params::RGB_COLOR,"RGB_COLOR"},{params::XYZ_COLOR,"XYZ_COLOR"} };
