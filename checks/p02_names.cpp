// P02: names, dimensions and predicates of parametrizations are consistent.
#include "geom.h"
#include "core/data_storage.h"
#include "core/vertical_segment.h"
using namespace geo; using namespace alta;
static const int GUARD = 16;
static void scen_input(mc::Ctx& c) {
  int k = c.pick(NPAR, "parametrization"); std::string N = NAMES[k];
  c.tag("input:" + N); c.state("I" + N);
  c.check(params::get_name(ALL[k]) == N, "name:" + N, "named " + params::get_name(ALL[k]));
  c.check(params::parse_input(N) == ALL[k], "parse:" + N, "does not parse back");
  c.check(params::parse_input(params::get_name(ALL[k])) == ALL[k], "reparse:" + N, "name does not parse back");
  c.check(params::dimension(ALL[k]) == DIMS[k], "dimension:" + N, mc::vstr(std::vector<int>(1, params::dimension(ALL[k]))));
  parameters p(ALL[k], params::RGB_COLOR);
  c.check(p.dimX() == DIMS[k] && p.dimY() == 3 && p.input_parametrization() == ALL[k], "parameters:" + N, "wrong dimensions");
  // the number of coordinates written by conversions is the dimension
  int from = c.pick(NPAR, "from");
  double x[8], z[8]; V3 v = sph(0.5, 0.3), l = sph(0.8, -1.1);
  double cart[6] = {v.x,v.y,v.z,l.x,l.y,l.z};
  for(int pass=0; pass<2; ++pass) {
    double g = pass ? 777.0 : -555.0; for(double& w : x) w = g; for(double& w : z) w = g;
    params::convert(cart, params::CARTESIAN, ALL[from], x);
    params::convert(x, ALL[from], ALL[k], z);
    int n = 0; while(n < 8 && z[n] != g) ++n;
    c.check(n == DIMS[k], "written:" + N, mc::vstr(std::vector<int>(1,n)));
    for(int i=n;i<8;++i) c.check(z[i] == g, "overrun:" + N, "writes outside its dimension");
    c.outcome(xs(z, DIMS[k]));
  }
  // coordinates beyond the dimension are not read
  double a[8], b[8]; for(int i=0;i<8;++i) { a[i] = i < DIMS[k] ? z[i] : 0.25; b[i] = i < DIMS[k] ? z[i] : std::nan(""); }
  double oa[8], ob[8]; params::to_cartesian(a, ALL[k], oa); params::to_cartesian(b, ALL[k], ob);
  c.check(memcmp(oa, ob, 6*sizeof(double)) == 0, "reads-beyond:" + N, "reads coordinates beyond its dimension");
}
static const params::output OUTS[] = { params::INV_STERADIAN, params::INV_STERADIAN_COSINE_FACTOR, params::ENERGY, params::RGB_COLOR, params::XYZ_COLOR };
static const char* ON[] = { "INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY", "RGB_COLOR", "XYZ_COLOR" };
static const int OD[] = { 1,1,1,3,3 };
static void scen_output(mc::Ctx& c) {
  int k = c.pick(5, "output"); std::string N = ON[k];
  c.tag("output:" + N); c.state("O" + N);
  c.check(params::get_name(OUTS[k]) == N, "name:" + N, "named " + params::get_name(OUTS[k]));
  c.check(params::parse_output(N) == OUTS[k], "parse:" + N, "does not parse back");
  c.check(params::dimension(OUTS[k]) == OD[k], "dimension:" + N, "");
  c.check(params::is_cosine_weighted(OUTS[k]) == (k == 1), "cosine:" + N, "");
  int o = c.pick(5, "to"); c.tag("convert:" + N + ":" + ON[o]);
  std::vector<double> vals{0.0, 1.0, -2.5, 0.1, 3e5};
  double in[4], out[6]; for(int i=0;i<OD[k];++i) in[i] = c.of(vals, "channel");
  for(int g=0; g<2; ++g) {
    for(double& w : out) w = g ? 99.0 : -7.0;
    params::convert(in, OUTS[k], OD[k], OUTS[o], OD[o], out);
    std::string id = std::string("convert:") + (OD[k]==OD[o] ? "same" : OD[k]==1 ? "spread" : "average");
    for(int i=0;i<OD[o];++i) {
      double e = OD[k] == OD[o] ? in[i] : OD[k] == 1 ? in[0] : (in[0]+in[1]+in[2])/3;
      c.check(mc::close(out[i], e, 1e-13, 1e-13), id, xs(in, OD[k]) + " -> " + xs(out, OD[o]));
    }
    for(int i=OD[o];i<6;++i) c.check(out[i] == (g ? 99.0 : -7.0), id + ":overrun", "writes outside");
    c.outcome(xs(out, OD[o]));
  }
}
// any number of channels, whatever the parametrizations are called
static void scen_channels(mc::Ctx& c) {
  static const params::output AO[] = { params::INV_STERADIAN, params::INV_STERADIAN_COSINE_FACTOR, params::ENERGY, params::RGB_COLOR, params::XYZ_COLOR, params::UNKNOWN_OUTPUT };
  int ni = 1 + c.pick(6, "channels in"), no = 1 + c.pick(6, "channels out"), ki = c.pick(6, "in"), ko = c.pick(6, "out"), f = c.pick(3, "values"); c.tag("channels");
  if(ni != no && ni != 1 && no != 1) { c.trivial = true; return; }
  double in[8], out[10]; for(int i=0;i<8;++i) in[i] = f == 0 ? i + 1 : f == 1 ? 0.1*i*i - 3 : (i % 2 ? -1e5 : 3e-3)*(i + 1);
  for(int g=0; g<2; ++g) {
    for(double& w : out) w = g ? 99.0 : -7.0;
    params::convert(in, AO[ki], ni, AO[ko], no, out);
    double m = 0; for(int i=0;i<ni;++i) m += in[i]; m /= ni; std::string w = std::to_string(ni) + " to " + std::to_string(no) + " channels: " + xs(out, no);
    for(int i=0;i<no;++i) c.check(mc::close(out[i], ni == no ? in[i] : ni == 1 ? in[0] : m, 1e-13, 1e-9*std::fabs(m) + 1e-13), "channels", w);
    for(int i=no;i<10;++i) c.check(out[i] == (g ? 99.0 : -7.0), "channels:overrun", w);
    c.outcome(xs(out, no)); c.state(w);
  }
  c.check(params::is_cosine_weighted(AO[ki]) == (AO[ki] == params::INV_STERADIAN_COSINE_FACTOR), "cosine", params::get_name(AO[ki]));
}
// names that are not names
static void scen_unknown(mc::Ctx& c) {
  std::vector<std::string> all; for(int i=0;i<NPAR;++i) all.push_back(NAMES[i]); for(int i=0;i<5;++i) all.push_back(ON[i]);
  std::string n = c.of(all, "name"); int m = c.pick(7, "mutation");
  std::string t = n;
  switch(m) { case 0: t = n.substr(0, n.size()-1); break; case 1: t = n + "_"; break; case 2: t = " " + n; break; case 3: t = n.substr(1); break;
    case 4: for(char& ch : t) ch = tolower(ch); break; case 5: t = n + n; break; case 6: t = ""; break; }
  c.tag("unknown"); c.state("U" + t);
  params::input ei = params::UNKNOWN_INPUT; params::output eo = params::UNKNOWN_OUTPUT;
  for(int i=0;i<NPAR;++i) if(t == NAMES[i]) ei = ALL[i];
  for(int i=0;i<5;++i) if(t == ON[i]) eo = OUTS[i];
  c.check(params::parse_input(t) == ei, "parse-input:mutated", t);
  c.check(params::parse_output(t) == eo, "parse-output:mutated", t);
  c.check(params::parse_input("UNKNOWN_INPUT") == params::UNKNOWN_INPUT, "parse-input:unknown", "");
  c.check(params::get_name(params::UNKNOWN_INPUT) == "UNKNOWN_INPUT" && params::get_name(params::UNKNOWN_OUTPUT) == "UNKNOWN_OUTPUT", "name:unknown", "");
  c.check(params::dimension(params::UNKNOWN_INPUT) <= 0, "dimension:unknown", "");
  c.outcome(t);
}
// parameters objects
static void scen_parameters(mc::Ctx& c) {
  int nx = c.pick(7,"nx"), ny = c.pick(4,"ny"); int ki = c.pick(NPAR + 1,"in"), ko = c.pick(6,"out");
  params::input PI = ki < NPAR ? ALL[ki] : params::UNKNOWN_INPUT; params::output PO = ko < 5 ? OUTS[ko] : params::UNKNOWN_OUTPUT;
  int ki2 = c.pick(NPAR + 1,"in2"), ko2 = ki2 % 6; params::input PI2 = ki2 < NPAR ? ALL[ki2] : params::UNKNOWN_INPUT; params::output PO2 = ko2 < 5 ? OUTS[ko2] : params::UNKNOWN_OUTPUT;
  c.tag("parameters");
  parameters p(nx, ny, PI, PO);
  c.check(p.dimX()==nx && p.dimY()==ny && p.input_parametrization()==PI && p.output_parametrization()==PO, "parameters:fields", "");
  parameters q = p.set_input(nx+1, PI2), r = p.set_output(ny+2, PO2);
  c.check(q.dimX()==nx+1 && q.dimY()==ny && q.input_parametrization()==PI2 && q.output_parametrization()==PO, "parameters:set_input", "");
  c.check(r.dimX()==nx && r.dimY()==ny+2 && r.input_parametrization()==PI && r.output_parametrization()==PO2, "parameters:set_output", "");
  c.check(p.dimX()==nx && p.dimY()==ny && p.input_parametrization()==PI && p.output_parametrization()==PO, "parameters:unchanged", "");
  std::ostringstream o; o << nx << ny << ki << ko; c.state(o.str()); c.outcome(o.str());
}
MC_MAIN({"inputs", scen_input, 1, 20}, {"outputs", scen_output, 2, 20}, {"channels", scen_channels, 2, 20}, {"unknown", scen_unknown, 1, 20}, {"parameters", scen_parameters, 2, 20})
