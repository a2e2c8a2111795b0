// The conversion tool itself, run on data objects handed to it in place of the files it would load and save.
#define main data2data_main
#include "softs/data2data/main.cpp"
#undef main
typedef std::string S; static ptr<data> given[2];
#define LOAD "_ZN4alta15plugins_manager9load_dataERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_RKNS_9argumentsE"
#define GET "_ZN4alta15plugins_manager8get_dataERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEmRKNS_10parametersERKNS_9argumentsE"
ptr<data> real_load(const S&, const S&, const arguments&) __asm__("__real_" LOAD); ptr<data> load(const S& f, const S& t, const arguments& a) __asm__("__wrap_" LOAD); ptr<data> load(const S& f, const S& t, const arguments& a) { return given[0] ? given[0] : real_load(f, t, a); }
ptr<data> real_get(const S&, size_t, const parameters&, const arguments&) __asm__("__real_" GET); ptr<data> get(const S& n, size_t s, const parameters& p, const arguments& a) __asm__("__wrap_" GET); ptr<data> get(const S& n, size_t s, const parameters& p, const arguments& a) { return given[1] ? given[1] : real_get(n, s, p, a); }
void interpolate(ptr<data> in, ptr<data> out) { given[0] = in; given[1] = out; std::streambuf* o[2] = { std::cout.rdbuf(0), std::cerr.rdbuf(0) }; char a[5][12] = { "data2data", "--input", "given", "--output", "/dev/null" }; char* v[6]; for(int k=0;k<5;++k) v[k] = a[k]; v[5] = 0; int r = data2data_main(5, v); std::cout.rdbuf(o[0]); std::cerr.rdbuf(o[1]); given[0] = given[1] = ptr<data>(); if(r) throw std::runtime_error("data2data failed"); }
