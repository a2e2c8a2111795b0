// P15: sums and products of models, built through the command line grammar and through the classes.
#include "tree.h"
static void scen_cli(mc::Ctx& c) {
  int n = 1 + c.pick(c.thorough ? 3 : 2, "parts"), given = c.of(GIVEN, "given"), ny = c.flag("channels") ? 3 : 1; bool list = n > 1 || c.flag("list"); Node root; std::string s, w;
  if(list) { root.kind = 1; root.fixed = false; for(int k=0;k<n;++k) { std::string t; root.kids.push_back(cli_part(c, t, true, n > 1)); s += (k ? ", " : "") + t; } s = "--func [" + s + "]"; }
  else { root = cli_part(c, s, false, false); size_t sp = s.find(' '); s = "--func " + s; if(sp != std::string::npos && c.flag("func last")) s = s.substr(7 + sp + 1) + " --func " + s.substr(7, sp); }
  place(root, given); c.tag("cli"); w = s + " in " + geo::NAMES[given]; ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), parameters(geo::DIMS[given], ny, geo::ALL[given], params::INV_STERADIAN)));
  nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(!c.check(nf != 0, "no function", w)) return; judge(c, root, nf, ny, w);
}
// nested sums and products through the classes
static NF built(mc::Ctx& c, Node& n, int ny, int depth, std::string& w) {
  int kind = depth > 0 ? c.pick(3, "kind") : 0;
  if(kind == 0) { int m = c.of(std::vector<int>{0, 1, 7, 14, 17, 20}, "model"); n = leaf(m); w += models()[m].name; return make(models()[m], ny, part_in(m, CART)); }
  n.kind = kind; n.fixed = n.fixed1 = n.fixed2 = false; int k = kind == 2 ? 2 : 1 + c.pick(2, "parts"); std::vector<NF> fs; std::vector<arguments> as; w += kind == 1 ? "sum(" : "product("; n.kids.resize(k);
  for(int i=0;i<k;++i) { NF f = built(c, n.kids[i], ny, depth-1, w); bool fx = c.flag("fixed"); n.kids[i].fixed = fx; if(i == 0) n.fixed1 = fx; else n.fixed2 = fx; w += fx ? " fixed, " : ", "; fs.push_back(f); as.push_back(arguments::create_arguments(fx ? "--fixed" : "--free")); if(!f) return NF(); }
  w += ")"; if(kind == 1) return NF(new compound_function(fs, as)); return NF(new product_function(fs[0], fs[1], n.fixed1, n.fixed2));
}
static void scen_nested(mc::Ctx& c) { Node n; std::string w; int ny = c.flag("channels") ? 3 : 1; c.tag("nested"); NF f = built(c, n, ny, c.thorough ? 2 : 2, w); if(!c.check((bool)f, "missing", w)) return; place(n, CART); if(n.kind == 0) { c.trivial = true; return; } judge(c, n, f.get(), ny, w); }
// longer lists, every pattern of fixed parts, and sums within sums within products
static Node some(int k, std::string& s, bool fx) { static const std::vector<int> L{ 0, 1, 7, 4, 15, 3, 17, 14 }; Node l = leaf(L[k % 6]); s = models()[l.model].plugin; if(k % 3 == 1) { Node f = leaf(k % 2 ? 17 : 20), p; p.kind = 2; p.fixed = false; p.kids = { l, f }; p.fixed1 = k % 2 != 0; p.fixed2 = !p.fixed1 && k % 5 == 0; s += std::string(" --fresnel ") + models()[f.model].plugin + (p.fixed1 ? " --fixed-lobe" : "") + (p.fixed2 ? " --fixed-fresnel" : ""); l = p; } if(fx) { l.fixed = true; s += " --fixed"; } return l; }
static void scen_many(mc::Ctx& c) {
  int n = 3 + c.pick(c.thorough ? 6 : 4, "parts"), first = c.pick(4, "first"), step = 1 + c.pick(2, "step"), pat = c.pick(1 << n, "fixed"), given = c.of(GIVEN, "given"), ny = c.pick(3, "channels")*2 + 1; Node root; root.kind = 1; root.fixed = false; std::string s; for(int k=0;k<n;++k) { std::string t; root.kids.push_back(some(first + k*step, t, pat >> k & 1)); s += (k ? ", " : "") + t; } s = "--func [" + s + "]"; place(root, given); c.tag("many"); std::string w = s + " in " + geo::NAMES[given];
  ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), parameters(geo::DIMS[given], ny, geo::ALL[given], params::INV_STERADIAN))); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f.get()); if(!c.check(nf != 0, "no function", w)) return; judge(c, root, nf, ny, w);
}
static NF deep(Node& n, int shape, int fixed, int ny, int depth, int& at, std::string& w) {
  int kind = depth == 0 ? 0 : (shape >> (at % 3)) & 1 ? 2 : 1; if(kind == 0) { static const int M[] = { 0, 17, 7, 20, 1, 14 }; int m = M[at++ % 6]; n = leaf(m); w += models()[m].name; return make(models()[m], ny, part_in(m, CART)); }
  n.kind = kind; n.fixed = n.fixed1 = n.fixed2 = false; std::vector<NF> fs; std::vector<arguments> as; w += kind == 1 ? "sum(" : "product("; n.kids.resize(2); for(int i=0;i<2;++i) { NF f = deep(n.kids[i], shape, fixed, ny, depth - 1 - (i && shape & 4 ? 1 : 0) < 0 ? 0 : depth - 1 - (i && shape & 4 ? 1 : 0), at, w); bool fx = fixed >> (at % 4) & 1; n.kids[i].fixed = fx; (i ? n.fixed2 : n.fixed1) = fx; w += fx ? " fixed, " : ", "; fs.push_back(f); as.push_back(arguments::create_arguments(fx ? "--fixed" : "--free")); if(!f) return NF(); }
  w += ")"; if(kind == 1) return NF(new compound_function(fs, as)); return NF(new product_function(fs[0], fs[1], n.fixed1, n.fixed2));
}
static void scen_deep(mc::Ctx& c) { Node n; std::string w; int ny = c.flag("channels") ? 3 : 1, depth = 2 + c.pick(3, "depth"), at = c.pick(6, "first"); int shape = c.pick(8, "shape"), fixed = c.pick(16, "fixed"); c.tag("deep"); NF f = deep(n, shape, fixed, ny, depth, at, w); if(!c.check((bool)f, "missing", w)) return; place(n, CART); judge(c, n, f.get(), ny, w); }
MC_MAIN({"many", scen_many, 5, 20}, {"deep", scen_deep, 4, 20}, {"cli", scen_cli, 5, 20}, {"nested", scen_nested, 5, 20})
