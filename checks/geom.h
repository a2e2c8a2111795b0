// Reference definitions of directions and of every supported parametrization,
// written from the documentation of params.h, independently of the library.
#pragma once
#include "mc.h"
#include "core/params.h"
namespace geo {
using alta::params;
struct V3 { double x, y, z; };
inline V3 operator+(V3 a, V3 b) { return V3{a.x+b.x, a.y+b.y, a.z+b.z}; }
inline V3 operator-(V3 a, V3 b) { return V3{a.x-b.x, a.y-b.y, a.z-b.z}; }
inline V3 operator*(double s, V3 a) { return V3{s*a.x, s*a.y, s*a.z}; }
inline double dot(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline double len(V3 a) { return std::sqrt(dot(a,a)); }
inline double ang(V3 a, V3 b) {             // well conditioned angle
  V3 c{a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; return std::atan2(len(c), dot(a,b)); }
inline V3 sph(double t, double p) { return V3{std::sin(t)*std::cos(p), std::sin(t)*std::sin(p), std::cos(t)}; }
inline V3 rotz(V3 a, double t) { return V3{std::cos(t)*a.x-std::sin(t)*a.y, std::sin(t)*a.x+std::cos(t)*a.y, a.z}; }
inline V3 roty(V3 a, double t) { return V3{std::cos(t)*a.x+std::sin(t)*a.z, a.y, -std::sin(t)*a.x+std::cos(t)*a.z}; }
inline double azi(V3 a) { return std::atan2(a.y, a.x); }
inline double elev(V3 a) { return std::atan2(std::hypot(a.x, a.y), a.z); }
inline double safesqrt(double x) { return std::sqrt(std::max(0.0, x)); }
inline double norm2pi(double a) { return std::remainder(a, 2*M_PI); }

struct Pair { V3 v, l; };                     // view, light

static const params::input ALL[] = {
  params::COS_TH, params::COS_TK, params::COS_TLV, params::COS_TLR,
  params::RUSIN_TH_TD, params::COS_TH_TD, params::ISOTROPIC_TV_PROJ_DPHI, params::STARK_2D, params::NEUMANN_2D,
  params::RUSIN_TH_PH_TD, params::RUSIN_TH_TD_PD, params::ISOTROPIC_TV_TL_DPHI, params::RUSIN_VH, params::SCHLICK_VK,
  params::ISOTROPIC_TL_TV_PROJ_DPHI, params::SCHLICK_TL_TK_PROJ_DPHI, params::RETRO_TL_TVL_PROJ_DPHI,
  params::STARK_3D, params::NEUMANN_3D,
  params::RUSIN_TH_PH_TD_PD, params::SPHERICAL_TL_PL_TV_PV, params::STEREOGRAPHIC, params::CARTESIAN };
static const char* NAMES[] = { "COS_TH","COS_TK","COS_TLV","COS_TLR","RUSIN_TH_TD","COS_TH_TD","ISOTROPIC_TV_PROJ_DPHI","STARK_2D","NEUMANN_2D",
  "RUSIN_TH_PH_TD","RUSIN_TH_TD_PD","ISOTROPIC_TV_TL_DPHI","RUSIN_VH","SCHLICK_VK","ISOTROPIC_TL_TV_PROJ_DPHI","SCHLICK_TL_TK_PROJ_DPHI",
  "RETRO_TL_TVL_PROJ_DPHI","STARK_3D","NEUMANN_3D","RUSIN_TH_PH_TD_PD","SPHERICAL_TL_PL_TV_PV","STEREOGRAPHIC","CARTESIAN" };
static const int DIMS[] = { 1,1,1,1, 2,2,2,2,2, 3,3,3,3,3,3,3,3,3,3, 4,4,4, 6 };
static const int NPAR = 23;

// a coordinate of a parametrization: its reference value, whether it is an angle (mod 2pi),
// and whether it is determined for this pair (an azimuth of the normal is not)
struct Coord { double v; bool angle; bool defined; };
static const double DEG = 2e-5;   // closer to a pole than this: azimuth undetermined

inline V3 halfv(Pair p) { V3 h = p.v + p.l; double n = len(h); return n > 1e-12 ? (1.0/n)*h : V3{0,0,1}; }
// back vector of Schlick's parametrization: bisector of the light (mirrored about the normal) and the view
inline V3 backv(Pair p, bool& ok) { V3 k{p.v.x-p.l.x, p.v.y-p.l.y, p.v.z+p.l.z}; double n = len(k); ok = n > 1e-9; return ok ? (1.0/n)*k : V3{0,0,1}; }

inline std::vector<Coord> from(int k, Pair p) {
  std::vector<Coord> r;
  auto num = [&](double v, bool d = true) { r.push_back(Coord{v, false, d}); };
  auto an  = [&](double v, bool d = true) { r.push_back(Coord{v, true, d}); };
  V3 h = halfv(p); bool bok; V3 b = backv(p, bok);
  bool hok = len(p.v + p.l) > 1e-9;
  double th = elev(h), ph = azi(h), td = ang(h, p.v);
  V3 d = roty(rotz(p.v, -ph), -th);
  double tv = elev(p.v), tl = elev(p.l), pv = azi(p.v), pl = azi(p.l);
  bool hpole = th < DEG, vpole = tv < DEG, lpole = tl < DEG;
  V3 Hp = 0.5*(p.v+p.l), B = 0.5*(p.l-p.v);
  double hp = std::hypot(Hp.x, Hp.y), bp = std::hypot(B.x, B.y);
  switch(ALL[k]) {
    case params::COS_TH: num(h.z, hok); break;
    case params::COS_TK: num(b.z, bok); break;
    case params::COS_TLV: num(dot(p.v,p.l)); break;
    case params::COS_TLR: num(dot(p.v, V3{p.l.x,-p.l.y,-p.l.z})); break;      // as the library has always computed it, see DESIGN
    case params::RUSIN_TH_TD: num(th, hok); num(td, hok); break;
    case params::COS_TH_TD: num(h.z, hok); num(dot(h, p.v), hok); break;
    case params::ISOTROPIC_TV_PROJ_DPHI: { bool ok = !lpole || vpole; num(tv*std::cos(pv-pl), ok); num(tv*std::sin(pv-pl), ok); } break;
    case params::STARK_2D: num(hp); num(len(B)); break;
    case params::NEUMANN_2D: num(hp); num(bp); break;
    case params::RUSIN_TH_PH_TD: num(th, hok); an(ph, hok && !hpole); num(td, hok); break;
    case params::RUSIN_TH_TD_PD: num(th, hok); num(td, hok); an(azi(d), hok && !hpole && td > DEG); break;
    case params::ISOTROPIC_TV_TL_DPHI: num(tv); num(tl); an(pl-pv, !vpole && !lpole); break;
    case params::RUSIN_VH: num(h.x, hok); num(h.y, hok); num(h.z, hok); break;
    case params::SCHLICK_VK: num(-b.x, bok); num(-b.y, bok); num(b.z, bok); break;
    case params::ISOTROPIC_TL_TV_PROJ_DPHI: { bool ok = !lpole || vpole; num(tl); num(tv*std::cos(pv-pl), ok); num(tv*std::sin(pv-pl), ok); } break;
    case params::SCHLICK_TL_TK_PROJ_DPHI: { double tk = elev(b), pk = azi(b); bool ok = bok && (tk < DEG || !lpole);
      num(tl); num(tk*std::cos(pk-pl), ok); num(tk*std::sin(pk-pl), ok); } break;
    case params::RETRO_TL_TVL_PROJ_DPHI: {
      double t = ang(p.v, p.l); bool ok = (t < DEG || (!lpole && M_PI - t > DEG));
      V3 L = sph(tl, 0), V = rotz(p.v, -pl), e1{-std::cos(tl), 0, std::sin(tl)}; double s = std::sin(t);
      num(tl); num(t < DEG ? 0.0 : t*dot(V, e1)/s, ok); num(t < DEG ? 0.0 : t*V.y/s, ok); } break;
    case params::STARK_3D: num(hp); num(len(B)); an(azi(B)-azi(Hp), hp > DEG && bp > DEG); break;
    case params::NEUMANN_3D: num(hp); num(bp); an(azi(B)-azi(Hp), hp > DEG && bp > DEG); break;
    case params::RUSIN_TH_PH_TD_PD: num(th, hok); an(ph, hok && !hpole); num(td, hok); an(azi(d), hok && !hpole && td > DEG); break;
    case params::SPHERICAL_TL_PL_TV_PV: num(tl); an(pl, !lpole); num(tv); an(pv, !vpole); break;
    case params::STEREOGRAPHIC: num(p.v.x/(1+p.v.z)); num(p.v.y/(1+p.v.z)); num(p.l.x/(1+p.l.z)); num(p.l.y/(1+p.l.z)); break;
    case params::CARTESIAN: num(p.v.x); num(p.v.y); num(p.v.z); num(p.l.x); num(p.l.y); num(p.l.z); break;
    default: break;
  }
  return r;
}

inline Pair rusin(double th, double ph, double td, double pd) {
  V3 h = sph(th, ph), v = rotz(roty(sph(td, pd), th), ph);
  return Pair{v, 2*dot(v,h)*h - v};
}
// the pair that coordinates denote; the free rotation is fixed by the documented convention
inline Pair to(int k, const double* x) {
  switch(ALL[k]) {
    case params::COS_TH: return rusin(std::acos(std::min(1.0,x[0])), 0, 0, 0);
    case params::COS_TK: { double s = safesqrt(1-x[0]*x[0]); return Pair{V3{-s,0,x[0]}, V3{s,0,x[0]}}; }
    case params::COS_TLV: return Pair{V3{safesqrt(1-x[0]*x[0]),0,x[0]}, V3{0,0,1}};
    case params::COS_TLR: return Pair{V3{-safesqrt(1-x[0]*x[0]),0,x[0]}, V3{0,0,1}};
    case params::RUSIN_TH_TD: return rusin(x[0], 0, x[1], M_PI/2);
    case params::COS_TH_TD: return rusin(std::acos(std::min(1.0,x[0])), 0, std::acos(std::min(1.0,x[1])), 0);
    case params::ISOTROPIC_TV_PROJ_DPHI: return Pair{sph(std::hypot(x[0],x[1]), std::atan2(x[1],x[0])), V3{0,0,1}};
    case params::STARK_2D: { double z = safesqrt(1-x[0]*x[0]-x[1]*x[1]); return Pair{V3{x[0],-x[1],z}, V3{x[0],x[1],z}}; }
    case params::NEUMANN_2D: { double z = safesqrt(1-x[0]*x[0]-x[1]*x[1]); return Pair{V3{x[0],x[1],z}, V3{x[0],-x[1],z}}; }
    case params::RUSIN_TH_PH_TD: return rusin(x[0], x[1], x[2], 0);
    case params::RUSIN_TH_TD_PD: return rusin(x[0], 0, x[1], x[2]);
    case params::ISOTROPIC_TV_TL_DPHI: return Pair{sph(x[0], 0), sph(x[1], x[2])};
    case params::RUSIN_VH: return Pair{V3{x[0],x[1],x[2]}, V3{x[0],x[1],x[2]}};
    case params::SCHLICK_VK: return Pair{V3{-x[0],-x[1],x[2]}, V3{x[0],x[1],x[2]}};
    case params::ISOTROPIC_TL_TV_PROJ_DPHI: return Pair{sph(std::hypot(x[1],x[2]), std::atan2(x[2],x[1])), sph(x[0],0)};
    case params::SCHLICK_TL_TK_PROJ_DPHI: { V3 k = sph(std::hypot(x[1],x[2]), std::atan2(x[2],x[1])), l = sph(x[0],0), r{-l.x,-l.y,l.z};
      return Pair{2*dot(r,k)*k - r, l}; }
    case params::RETRO_TL_TVL_PROJ_DPHI: { double t = std::hypot(x[1],x[2]), c = t>0?x[1]/t:1, s = t>0?x[2]/t:0; V3 l = sph(x[0],0), e1{-std::cos(x[0]),0,std::sin(x[0])};
      V3 v = std::cos(t)*l + std::sin(t)*c*e1 + V3{0, std::sin(t)*s, 0}; return Pair{v, l}; }
    case params::STARK_3D: { // half vector in the xz plane, back vector orthogonal to it
      double h = x[0], b = x[1], hz = safesqrt(1-h*h-b*b); double c = std::cos(x[2]), s = std::sin(x[2]);
      double n = std::hypot(hz, c*h); V3 B; if(n < 1e-12 || hz < 1e-12) B = b*V3{c,s,0}; else B = b*V3{hz/n*c, hz/n*s, -c*h/n};
      V3 H{h,0,hz}; return Pair{H-B, H+B}; }
    case params::NEUMANN_3D: { double c = std::cos(x[2])*x[1], s = std::sin(x[2])*x[1];
      V3 v{x[0]-c, -s, 0}, l{x[0]+c, s, 0}; v.z = safesqrt(1-v.x*v.x-v.y*v.y); l.z = safesqrt(1-l.x*l.x-l.y*l.y); return Pair{v,l}; }
    case params::RUSIN_TH_PH_TD_PD: return rusin(x[0], x[1], x[2], x[3]);
    case params::SPHERICAL_TL_PL_TV_PV: return Pair{sph(x[2],x[3]), sph(x[0],x[1])};
    case params::STEREOGRAPHIC: { auto un = [](double a, double b) { double n = a*a+b*b, z = (1-n)/(1+n); return V3{a*(1+z), b*(1+z), z}; };
      return Pair{un(x[0],x[1]), un(x[2],x[3])}; }
    default: return Pair{V3{x[0],x[1],x[2]}, V3{x[3],x[4],x[5]}};
  }
}
inline std::string ps(Pair p) { std::ostringstream o; o.precision(10); o << "V=(" << p.v.x << "," << p.v.y << "," << p.v.z << ") L=(" << p.l.x << "," << p.l.y << "," << p.l.z << ")"; return o.str(); }
inline std::string xs(const double* x, int n) { std::ostringstream o; o.precision(12); o << "["; for(int i=0;i<n;++i) o << (i?",":"") << x[i]; o << "]"; return o.str(); }
inline bool finite(const double* x, int n) { for(int i=0;i<n;++i) if(!std::isfinite(x[i])) return false; return true; }
// index of the first coordinate that disagrees, or -1
inline int differs(const std::vector<Coord>& r, const double* x, double tol) {
  for(size_t i=0;i<r.size();++i) if(r[i].defined) {
    double e = r[i].angle ? norm2pi(r[i].v - x[i]) : r[i].v - x[i];
    if(!(std::fabs(e) <= tol)) return (int)i;
  }
  return -1;
}
inline bool same(Pair a, Pair b, double tol) { return len(a.v-b.v) <= tol && len(a.l-b.l) <= tol; }
inline Pair unspin(Pair p) { double t = elev(p.l) > DEG ? azi(p.l) : azi(p.v); return Pair{rotz(p.v,-t), rotz(p.l,-t)}; }
}
