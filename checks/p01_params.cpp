// P01: conversions between parametrizations denote the same pair of directions.
#include "geom.h"
using namespace geo;
static std::vector<double> thetas(bool t) {
  std::vector<double> v{0.0, 1e-3, 0.3, M_PI/4, 1.1, M_PI/2 - 1e-3, M_PI/2, 0.7, M_PI/3, 1.5};
  if(t) { v.push_back(0.1); v.push_back(1.25); v.push_back(M_PI/6); } return v; }
static std::vector<double> phis(bool t) {
  std::vector<double> v{0.0, M_PI/2, M_PI, -M_PI/2, 0.4, 3.0, -2.2, -3.1, 1.2};
  if(t) { v.push_back(2*M_PI-0.4); v.push_back(2.0); v.push_back(-0.9); } return v; }
static V3 dir(mc::Ctx& c, const char* n) {
  double t = c.of(thetas(c.thorough), n); if(t == 0.0) return V3{0,0,1};
  double p = c.of(phis(c.thorough), n);
  V3 d = sph(t, p); if(t == M_PI/2) d.z = 0.0; return d;
}
static bool upper(Pair p) { return p.v.z >= -1e-9 && p.l.z >= -1e-9; }
static const double TOL = 2e-6;

// from CARTESIAN to everything, back, and to every other parametrization
static void check_pair(mc::Ctx& c, int k, const Pair& p) {
  double cart[6] = {p.v.x,p.v.y,p.v.z,p.l.x,p.l.y,p.l.z};
  double x[8]; for(double& q : x) q = 12345.0;
  std::string N = NAMES[k];
  c.tag("from:" + N);
  params::convert(cart, params::CARTESIAN, ALL[k], x);
  c.state(mc::hstr(N + xs(x, DIMS[k])));
  if(!c.check(finite(x, DIMS[k]), "finite:from:" + N, ps(p) + " -> " + xs(x, DIMS[k]))) return;
  c.check(x[DIMS[k]] == 12345.0, "width:from:" + N, "writes beyond its dimension");
  std::vector<Coord> r = from(k, p);
  int bad = differs(r, x, TOL);
  { std::ostringstream o; o << "from:" << N << ":" << bad; if(bad >= 0) c.fail(o.str(), ps(p) + " -> " + xs(x, DIMS[k]) + " expected coordinate " + mc::dstr(r[bad].v)); }
  if(ALL[k] == params::RUSIN_TH_PH_TD_PD || ALL[k] == params::RUSIN_TH_TD_PD) // documented convention for coincident directions
    if(len(p.v-p.l) == 0) c.check(std::fabs(x[DIMS[k]-1]) < 1e-12 || std::fabs(x[DIMS[k]-2]) > 1e-9, "convention:phi_d:" + N, ps(p) + " -> " + xs(x, DIMS[k]));
  // and back
  c.tag("to:" + N);
  double y[6] = {9,9,9,9,9,9};
  params::convert(x, ALL[k], params::CARTESIAN, y);
  if(!c.check(finite(y, 6), "finite:to:" + N, xs(x, DIMS[k]) + " -> " + xs(y, 6))) return;
  Pair q{V3{y[0],y[1],y[2]}, V3{y[3],y[4],y[5]}};
  Pair ref = to(k, x);
  c.check(same(q, ref, TOL), "to:" + N, xs(x, DIMS[k]) + " -> " + ps(q) + " expected " + ps(ref));
  if(!upper(q)) { c.outcome(0); return; }
  bool full = DIMS[k] >= 4, iso3 = DIMS[k] == 3 && ALL[k] != params::RUSIN_VH && ALL[k] != params::SCHLICK_VK && ALL[k] != params::RUSIN_TH_PH_TD;
  bool det = true; for(Coord& cc : r) if(!cc.defined && !cc.angle) det = false;
  if(full && len(p.v+p.l) > 1e-9) c.check(same(q, p, TOL), "roundtrip:" + N, ps(p) + " -> " + xs(x, DIMS[k]) + " -> " + ps(q));
  if(iso3 && det) {
    Pair a = unspin(p), b = unspin(q);
    if(ALL[k] == params::STARK_3D || ALL[k] == params::NEUMANN_3D) { // only determined when the projected vectors are
      if(r[2].defined) c.check(same(a, b, 1e-5), "roundtrip:" + N, ps(p) + " -> " + xs(x, DIMS[k]) + " -> " + ps(q));
    } else if(ALL[k] == params::RUSIN_TH_TD_PD && !r[2].defined && elev(halfv(p)) < DEG) {
      c.check(std::fabs(ang(p.v,p.l) - ang(q.v,q.l)) < TOL, "roundtrip:" + N, ps(p) + " -> " + ps(q));
    } else c.check(same(a, b, 1e-5), "roundtrip:" + N, ps(p) + " -> " + xs(x, DIMS[k]) + " -> " + ps(q));
  }
  // every other parametrization, from these coordinates
  for(int o = 0; o < NPAR; ++o) {
    double z[8]; for(double& w : z) w = 12345.0;
    c.tag("convert:" + N + ":" + NAMES[o]);
    params::convert(x, ALL[k], ALL[o], z);
    std::string id = N + ":" + NAMES[o];
    c.outcome(xs(z, DIMS[o]));
    if(!c.check(finite(z, DIMS[o]), "finite:convert:" + id, xs(x, DIMS[k]) + " -> " + xs(z, DIMS[o]))) continue;
    c.check(z[DIMS[o]] == 12345.0, "width:convert:" + id, "writes beyond its dimension");
    if(o == k) { for(int i=0;i<DIMS[k];++i) c.check(z[i] == x[i], "identity:" + N, "converting to the same parametrization changes coordinates"); continue; }
    std::vector<Coord> e = from(o, q);
    int b = differs(e, z, 1e-5);
    if(b >= 0) c.fail("convert:" + id, xs(x, DIMS[k]) + " -> " + xs(z, DIMS[o]) + " expected coordinate " + mc::dstr(e[b].v) + " at " + mc::vstr(std::vector<int>(1,b)));
    double* heap = params::convert(x, ALL[k], ALL[o]);
    if(heap == NULL) c.fail(std::string("convert-alloc:") + NAMES[o], "allocating conversion returns nothing");
    else {
      for(int i=0;i<DIMS[o];++i) {
        double d = e[i].angle ? norm2pi(heap[i]-z[i]) : heap[i]-z[i];
        if(e[i].defined) c.check(std::fabs(d) <= 1e-5, "convert-alloc:" + id, "allocating conversion differs: " + xs(heap, DIMS[o]) + " vs " + xs(z, DIMS[o]));
      }
      delete[] heap;
    }
  }
  c.check(params::is_above_hemisphere(y, params::CARTESIAN) == (y[2] >= 0 && y[5] >= 0), "hemisphere", ps(q));
}

static void scen_pairs(mc::Ctx& c) {
  int k = c.pick(NPAR, "parametrization");
  Pair p{dir(c,"view"), dir(c,"light")};
  check_pair(c, k, p);
}
// one angle moves through its whole range, in small steps and down to the smallest distances from
// normal incidence, grazing, coincidence, mirror and opposite azimuth
static void scen_sweep(mc::Ctx& c) {
  int k = c.pick(NPAR, "parametrization"), base = c.pick(c.thorough ? 6 : 4, "base"), axis = c.pick(9, "axis");
  static const double TV[] = { 0.35, 1.1, 0.8, 1.4, 0.05, 0.6 }, TL[] = { 0.9, 0.5, 1.3, 1.45, 1.2, 0.6 }, PV[] = { 0.4, -2.0, 3.1, 1.5, 0.0, -0.1 }, PL[] = { 2.9, 0.3, -1.7, 1.0, 2.2, 1.5 };
  std::vector<double> E; for(int i=1;i<4;++i) for(double m : { 1.0, 2.0, 5.0 }) E.push_back(m*std::pow(10.0, -i)); int n = c.thorough ? 360 : 48;
  std::vector<Pair> ps; double tv = TV[base], tl = TL[base], pv = PV[base], pl = PL[base], H = M_PI/2;
  auto put = [&](double a, double b, double d, double e) { if(a >= 0 && d >= 0 && a <= H && d <= H) ps.push_back(Pair{sph(a,b), sph(d,e)}); };
  for(int i=0;i<=n && axis < 5;++i) { double t = i/double(n); if(axis == 0) put(t*H*0.9999, pv, tl, pl); if(axis == 1) put(tv, pv, t*H*0.9999, pl); if(axis == 2) put(tv, pv, tl, pv + (2*t-1)*M_PI); if(axis == 3) put(t*H*0.9999, pv, t*H*0.9999, pl); if(axis == 4) put(tv, (2*t-1)*M_PI, tl, pl); }
  for(double e : E) for(int sg=-1;sg<=1;sg+=2) { if(axis == 0) { put(e, pv, tl, pl); put(H-e, pv, tl, pl); } if(axis == 1) { put(tv, pv, e, pl); put(tv, pv, H-e, pl); } if(axis == 2) put(tv, pv, tl, pv + sg*e);
    if(axis == 3) { put(e, pv, e, pl); put(H-e, pv, H-e, pl); put(e, pv, H-e, pl); } if(axis == 4) { put(tv, sg*e, tl, pl); put(tv, M_PI - sg*e, tl, pl); put(tv, H + sg*e, tl, pl); }
    if(axis == 5) { put(tv, pv, tv + sg*e, pv); put(tv, pv, tv, pv + sg*e); put(tv, pv, tv + sg*e, pv + e); }                       // nearly coincident
    if(axis == 6) { put(tv, pv, tv + sg*e, pv + M_PI); put(tv, pv, tv, pv + M_PI + sg*e); put(tv, pv, tv + sg*e, pv + M_PI - e); }  // nearly mirrored
    if(axis == 7) { put(tv, pv, tl, pv + M_PI + sg*e); put(tv, pv, tl, pv + H + sg*e); }
    if(axis == 8) { put(e, pv, 2*e, pl); put(e, pv, e, pv + M_PI); put(H-e, pv, H-2*e, pv + M_PI - 0.1); } }
  for(auto& p : ps) check_pair(c, k, p);
}
// coordinates -> directions -> the same coordinates, starting from coordinates
static void scen_coords(mc::Ctx& c) {
  int k = c.pick(NPAR-1, "parametrization");
  std::string N = NAMES[k]; double x[6];
  auto angle01 = [&]() { return c.of(std::vector<double>{0.0, 0.2, 0.7, 1.2, 1.5}, "elevation"); };
  auto azimuth = [&]() { return c.of(std::vector<double>{0.0, 0.6, M_PI/2, 2.5, M_PI, -0.6, -M_PI/2, -3.0}, "azimuth"); };
  auto cosine = [&]() { return c.of(std::vector<double>{0.0, 0.05, 0.3, 0.5, 0.9, 0.999, 1.0}, "cosine"); };
  auto proj = [&](double* o) { double t = angle01(); if(t == 0) { o[0] = o[1] = 0; return; } double p = azimuth(); o[0] = t*std::cos(p); o[1] = t*std::sin(p); };
  switch(ALL[k]) {
    case params::COS_TH: case params::COS_TK: case params::COS_TLV: case params::COS_TLR: x[0] = cosine(); break;
    case params::RUSIN_TH_TD: x[0] = angle01(); x[1] = angle01(); break;
    case params::COS_TH_TD: x[0] = cosine(); x[1] = cosine(); break;
    case params::ISOTROPIC_TV_PROJ_DPHI: proj(x); break;
    case params::STARK_2D: case params::NEUMANN_2D: { double a = cosine(), b = cosine(); double n = c.flag("inside") ? 0.6 : 0.99; double m = std::hypot(a,b); if(m > n) { a *= n/m; b *= n/m; } x[0]=a; x[1]=b; } break;
    case params::RUSIN_TH_PH_TD: x[0] = angle01(); x[1] = azimuth(); x[2] = angle01(); break;
    case params::RUSIN_TH_TD_PD: x[0] = angle01(); x[1] = angle01(); x[2] = azimuth(); break;
    case params::ISOTROPIC_TV_TL_DPHI: x[0] = angle01(); x[1] = angle01(); x[2] = azimuth(); break;
    case params::RUSIN_VH: case params::SCHLICK_VK: { V3 d = sph(angle01(), azimuth()); x[0]=d.x; x[1]=d.y; x[2]=d.z; } break;
    case params::ISOTROPIC_TL_TV_PROJ_DPHI: case params::SCHLICK_TL_TK_PROJ_DPHI: case params::RETRO_TL_TVL_PROJ_DPHI: x[0] = angle01(); proj(x+1); break;
    case params::STARK_3D: case params::NEUMANN_3D: { x[0] = c.of(std::vector<double>{0.0,0.1,0.4,0.6}, "h"); x[1] = c.of(std::vector<double>{0.0,0.1,0.3}, "b"); x[2] = azimuth(); } break;
    case params::RUSIN_TH_PH_TD_PD: x[0] = angle01(); x[1] = azimuth(); x[2] = angle01(); x[3] = azimuth(); break;
    case params::SPHERICAL_TL_PL_TV_PV: x[0] = angle01(); x[1] = azimuth(); x[2] = angle01(); x[3] = azimuth(); break;
    case params::STEREOGRAPHIC: for(int i=0;i<4;++i) x[i] = c.of(std::vector<double>{0.0,0.2,-0.5,0.65}, "s"); break;
    default: c.prune();
  }
  Pair ref = to(k, x);
  double y[6] = {9,9,9,9,9,9}, z[8];
  c.tag("to:" + N);
  params::to_cartesian(x, ALL[k], y);
  c.outcome(xs(y,6));
  c.state(mc::hstr(N + xs(x, DIMS[k])));
  Pair q{V3{y[0],y[1],y[2]}, V3{y[3],y[4],y[5]}};
  if(!c.check(finite(y,6), "finite:to:" + N, xs(x, DIMS[k]) + " -> " + xs(y,6))) return;
  c.check(same(q, ref, 1e-7), "to:" + N, xs(x, DIMS[k]) + " -> " + ps(q) + " expected " + ps(ref));
  { bool up = ref.v.z >= 0 && ref.l.z >= 0, clear = std::fabs(ref.v.z) > 1e-9 && std::fabs(ref.l.z) > 1e-9;
    if(clear) c.check(params::is_above_hemisphere(x, ALL[k]) == up && params::is_below_hemisphere(x, ALL[k]) == !up, "hemisphere:" + N, xs(x, DIMS[k]) + " " + ps(ref)); }
  if(!upper(ref)) return;
  c.tag("from:" + N);
  for(double& w : z) w = 12345.0;
  params::from_cartesian(y, ALL[k], z);
  std::vector<Coord> e = from(k, ref);
  int b = differs(e, z, TOL);
  std::ostringstream sg; sg << "coords:" << N << ":" << b;
  if(b >= 0) c.fail(sg.str(), xs(x, DIMS[k]) + " -> " + ps(q) + " -> " + xs(z, DIMS[k]));
  // coordinates that are determined come back as they were
  bool lower1 = DIMS[k] == 1;
  for(int i=0;i<DIMS[k];++i) if(e[i].defined && ALL[k] != params::COS_TLR) {
    double d = e[i].angle ? norm2pi(x[i]-z[i]) : x[i]-z[i];
    std::ostringstream s2; s2 << "identity:" << N << ":" << i;
    c.check(std::fabs(d) <= 1e-5, s2.str(), xs(x, DIMS[k]) + " -> " + xs(z, DIMS[k])); }
}

// rotation helpers
static void scen_rot(mc::Ctx& c) {
  double t = c.of(std::vector<double>{0, 0.3, 1.0, M_PI/2, M_PI, -0.7, -2.0}, "theta"), p = c.of(std::vector<double>{0, 0.3, 1.0, M_PI/2, -0.7}, "phi");
  V3 d = dir(c, "vector");
  c.tag("rotate");
  Eigen::Vector3d a(d.x,d.y,d.z), b = a, e = a;
  params::rotate_normal(a, t); params::rotate_binormal(b, t); params::rotate(e, t, p);
  V3 ra = rotz(d,t), rb = roty(d,t), re = roty(rotz(d,t),p);
  c.check(len(V3{a[0],a[1],a[2]}-ra) < 1e-12, "rotate_normal", "wrong rotation");
  c.check(len(V3{b[0],b[1],b[2]}-rb) < 1e-12, "rotate_binormal", "wrong rotation");
  c.check(len(V3{e[0],e[1],e[2]}-re) < 1e-12, "rotate", "wrong rotation");
  double o[6]; params::half_to_cartesian(elev(d), azi(d), std::fabs(t)/4, p, o);
  Pair r = rusin(elev(d), azi(d), std::fabs(t)/4, p);
  c.check(same(Pair{V3{o[0],o[1],o[2]},V3{o[3],o[4],o[5]}}, r, 1e-9), "half_to_cartesian", ps(r));
  c.outcome(mc::dstr(a[0]) + mc::dstr(b[0]));
  c.state(mc::hstr(mc::dstr(t) + mc::dstr(p) + mc::dstr(d.x) + mc::dstr(d.y)));
}
MC_MAIN({"pairs", scen_pairs, 3, 20}, {"sweep", scen_sweep, 3, 60}, {"coords", scen_coords, 2, 20}, {"rotations", scen_rot, 2, 20})
