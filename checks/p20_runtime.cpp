// The scheduler and the race detector of ompsched.h: stands in for libgomp and libtsan.
#include "ompsched.h"
#include <omp.h>
#include <malloc.h>
namespace sched {
Global G;
static __thread int me = 0; static __thread int inside = 0; static __thread int nest = 0; static __thread std::vector<Loop>* nl = 0;
// ---- shadow memory: one cell per eight bytes
struct Ent { unsigned clk; unsigned char tid, mask, wr, used; const void* pc; };
struct Cell { uintptr_t key; unsigned gen; Ent e[8]; };
static Cell* tab; static const size_t TN = 1u << 20; static size_t used_;
static Cell* find(uintptr_t k, bool make) { if(!tab) tab = (Cell*)mmap(0, TN*sizeof(Cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); size_t h = (k*0x9e3779b97f4a7c15ull) >> 20; for(size_t i=0;i<64;++i) { Cell* c = &tab[(h + i) & (TN-1)]; if(c->gen != G.gen) { if(!make) return 0; memset(c, 0, sizeof(*c)); c->gen = G.gen; c->key = k; return c; } if(c->key == k) return c; } return 0; }
static std::string name(const void* pc) { Dl_info i; if(pc && dladdr(pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); std::string s = d && !st ? d : i.dli_sname; ::free(d); size_t p = s.find('('); return s.substr(0, p); } return "?"; }
static bool exempt(uintptr_t a) { return (a >= (uintptr_t)&std::cout && a < (uintptr_t)(&std::cout + 1)) || (a >= (uintptr_t)&std::cerr && a < (uintptr_t)(&std::cerr + 1)); }
static void access1(uintptr_t k, unsigned char mask, bool wr, const void* pc) {
  Cell* c = find(k, true); if(!c) return; Ent* free_ = 0; Ent* same = 0; VC& v = G.th[me].vc;
  for(Ent& e : c->e) { if(!e.used) { if(!free_) free_ = &e; continue; } if(e.tid == me) { if(e.wr == wr && e.mask == mask) same = &e; continue; } if((e.mask & mask) && (e.wr || wr) && e.clk > v.c[e.tid]) { std::string a = name(e.pc), b = name(pc); if(b < a) std::swap(a, b); if(G.ctx) G.ctx->fail("race " + a + " / " + b, std::string(e.wr ? "write" : "read") + " in " + name(e.pc) + " and " + (wr ? "write" : "read") + " in " + name(pc) + " are not ordered"); e.used = 0; } }
  Ent* t = same ? same : free_ ? free_ : &c->e[0]; t->clk = v.c[me]; t->tid = me; t->mask = mask; t->wr = wr; t->used = 1; t->pc = pc; }
static inline void access(uintptr_t a, size_t n, bool wr, const void* pc) { if(!G.active || !G.track || inside || exempt(a)) return; ++inside; while(n) { uintptr_t k = a >> 3; unsigned o = a & 7, m = std::min<size_t>(8 - o, n); access1(k, (unsigned char)(((1u << m) - 1) << o), wr, pc); a += m; n -= m; } --inside; }
static void forget(void* p, size_t n) { if(!G.active || !tab || !p || n > (1u << 22)) return; ++inside; for(uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n - 1) >> 3; ++k) { Cell* c = find(k, false); if(c) memset(c->e, 0, sizeof(c->e)); } --inside; }
static void join(VC& a, const VC& b) { for(int i=0;i<MAXT;++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
// ---- scheduling
static void die(const char* sig) { inside = 1; G.ctx->fail(sig, "threads wait for each other"); raise(SIGABRT); }
static void transfer(int to) { if(to == me) return; G.cur = to; int my = me; sem_post(&G.th[to].sem); if(G.th[my].st != DONE || my == 0) while(sem_wait(&G.th[my].sem)) ; }
// picks the thread that goes on; the caller may itself be unable to
static void point() {
  if(!G.active) return; ++inside; std::vector<int> can; bool mine = G.th[me].st == READY; if(mine) can.push_back(me); for(int i=0;i<G.n;++i) if(i != me && G.th[i].st == READY) can.push_back(i);
  if(can.empty()) { int bar = 0, alive = 0; for(int i=0;i<G.n;++i) { bar += G.th[i].st == BARRIER; alive += G.th[i].st != DONE; } if(alive == 0) { --inside; if(me != 0) transfer(0); return; } if(bar == alive && alive == G.n) { VC v = G.th[0].vc; for(int i=1;i<G.n;++i) join(v, G.th[i].vc); for(int i=0;i<G.n;++i) { G.th[i].vc = v; G.th[i].vc.c[i]++; G.th[i].st = READY; } --inside; return point(); } die("deadlock"); }
  int k = 0; ++G.points; if(can.size() > 1 && G.ctx && !(mine && G.preempt >= G.bound)) { k = G.ctx->pick((int)can.size(), "thread"); if(mine && k) ++G.preempt; } if(G.ctx) G.ctx->state(mc::mix(mc::mix(G.points, can[k]), G.preempt)); int to = can[k]; --inside; transfer(to); }
static Lock& lock(const void* p) { return (*G.locks)[p]; }
static void acquire(const void* p) { if(!G.active) return; point(); ++inside; for(;;) { Lock& l = lock(p); if(l.owner < 0) { l.owner = me; join(G.th[me].vc, l.vc); break; } if(l.owner == me) die("self deadlock"); G.th[me].st = BLOCKED; G.th[me].on = p; --inside; point(); ++inside; } --inside; }
static void release(const void* p) { if(!G.active) return; ++inside; Lock& l = lock(p); l.owner = -1; l.vc = G.th[me].vc; G.th[me].vc.c[me]++; for(int i=0;i<G.n;++i) if(G.th[i].st == BLOCKED && G.th[i].on == p) G.th[i].st = READY; --inside; }
static void barrier() { if(!G.active || nest) return; G.th[me].st = BARRIER; point(); }
static void* body(void* a) { me = (int)(intptr_t)a; while(sem_wait(&G.th[me].sem)) ; G.fn(G.data); G.th[me].st = DONE; point(); return 0; }
static void region(void (*fn)(void*), void* data, unsigned n, std::vector<Loop>* pre = 0) {
  int t = n ? (int)n : G.want; if(t < 1) t = 1; if(t > MAXT) t = MAXT; if(G.active) { std::vector<Loop> mine; std::vector<Loop>* old = nl; int l = G.th[me].loop; long sp = G.th[me].spos; if(pre) mine = *pre; nl = &mine; G.th[me].loop = pre ? 0 : -1; G.th[me].spos = -1; ++nest; fn(data); --nest; nl = old; G.th[me].loop = l; G.th[me].spos = sp; return; }   // nested regions are serial
  ++inside; std::vector<Loop> loops; if(pre) loops = *pre; std::map<const void*, Lock> locks; std::map<uintptr_t, VC> sync; G.loops = &loops; G.locks = &locks; G.sync = &sync; G.n = t; G.fn = fn; G.data = data; ++G.gen; for(int i=0;i<t;++i) { G.th[i].st = READY; G.th[i].loop = pre ? 0 : -1; G.th[i].spos = -1; memset(&G.th[i].vc, 0, sizeof(VC)); G.th[i].vc.c[i] = 1; sem_init(&G.th[i].sem, 0, 0); }
  pthread_t p[MAXT]; for(int i=1;i<t;++i) pthread_create(&p[i], 0, body, (void*)(intptr_t)i); me = 0; G.active = t > 1; --inside; if(t > 1) point(); fn(data); if(t > 1) { G.th[0].st = DONE; bool rest = false; for(int i=1;i<t;++i) rest = rest || G.th[i].st != DONE; if(rest) point(); } G.active = false; for(int i=1;i<t;++i) pthread_join(p[i], 0); for(int i=0;i<t;++i) sem_destroy(&G.th[i].sem); G.n = 1; G.loops = 0; G.locks = 0; G.sync = 0; }
static std::vector<Loop> serial_loops; 
static Loop& loop(bool fresh, long s, long e, long inc, long ch) { ++inside; std::vector<Loop>& v = nest ? *nl : G.loops ? *G.loops : serial_loops; int& i = G.th[me].loop; if(fresh) { ++i; if((int)v.size() <= i) { Loop l = { true, s, e, inc, ch < 1 ? 1 : ch, 0 }; v.push_back(l); } } --inside; return v[i]; }
static bool next(Loop& l, long* a, long* b) { if(!nest) point(); if(l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; *a = l.next; long e = l.next + l.chunk*l.incr; if(l.incr > 0 ? e > l.end : e < l.end) e = l.end; *b = e; l.next = e; return true; }
static bool start(long s, long e, long inc, long ch, long* a, long* b) { return next(loop(true, s, e, inc, ch), a, b); }
static bool snext(Loop& l, long* a, long* b) { long total = l.incr > 0 ? (l.end - l.next + l.incr - 1)/l.incr : (l.next - l.end - l.incr - 1)/(-l.incr), T = nest || G.n < 1 ? 1 : G.n; long& pos = G.th[me].spos; long per = (total + T - 1)/T; if(total <= 0 || pos >= 0) return false; pos = (nest ? 0 : me)*per; if(pos >= total) return false; *a = l.next + pos*l.incr; *b = l.next + std::min(total, pos + per)*l.incr; return true; }
}
using namespace sched;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn, data, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { static char c; acquire(&c); } void GOMP_critical_end() { static char c; if(G.active) { for(auto& l : *G.locks) if(l.second.owner == me) { release(l.first); return; } } }
void GOMP_critical_name_start(void** p) { acquire(p); } void GOMP_critical_name_end(void** p) { release(p); }
static char atomic_; void GOMP_atomic_start() { acquire(&atomic_); } void GOMP_atomic_end() { release(&atomic_); }
#define LOOP(N) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } bool GOMP_loop_##N##_next(long* a, long* b) { return next(loop(false, 0, 0, 0, 0), a, b); } void GOMP_parallel_loop_##N(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { std::vector<Loop> v(1); Loop l = { true, s, e, i, c < 1 ? 1 : c, 0 }; v[0] = l; region(fn, d, n, &v); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(N) bool GOMP_loop_##N##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); } bool GOMP_loop_##N##_next(long* a, long* b) { return next(loop(false, 0, 0, 0, 0), a, b); } void GOMP_parallel_loop_##N(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { std::vector<Loop> v(1); Loop l = { true, s, e, i, 1, 0 }; v[0] = l; region(fn, d, n, &v); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { G.th[me].spos = -1; Loop& l = loop(true, s, e, i, c); return snext(l, a, b); } bool GOMP_loop_static_next(long* a, long* b) { return snext(loop(false, 0, 0, 0, 0), a, b); }
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() { if(!G.loops) { serial_loops.clear(); G.th[me].loop = -1; } } bool GOMP_single_start() { return me == 0; }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
int omp_get_num_threads() { return G.active && !nest ? G.n : 1; } int omp_get_thread_num() { return nest ? 0 : me; } int omp_get_num_procs() { return G.want < 1 ? 1 : G.want; } int omp_get_max_threads() { return G.want < 1 ? 1 : G.want; } void omp_set_num_threads(int n) { G.want = n; } int omp_in_parallel() { return G.active; } double omp_get_wtime() { return 0; } void omp_set_dynamic(int) {} void omp_set_nested(int) {}
void omp_init_lock(omp_lock_t*) {} void omp_destroy_lock(omp_lock_t*) {} void omp_set_lock(omp_lock_t* l) { acquire(l); } void omp_unset_lock(omp_lock_t* l) { release(l); }
// ---- what -fsanitize=thread calls
#define PC __builtin_return_address(0)
#define RW(N) void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, PC); } void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); } void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); } void __tsan_unaligned_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access((uintptr_t)p, 8, true, PC); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
static void both(volatile const void* p) { if(!G.active || inside) return; ++inside; VC& v = (*G.sync)[(uintptr_t)p]; join(G.th[me].vc, v); v = G.th[me].vc; G.th[me].vc.c[me]++; --inside; }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* p, int) { both(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } void __tsan_atomic##B##_store(volatile T* p, T v, int) { both(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { both(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { both(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { both(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { both(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { both(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { both(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { both(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { both(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { both(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// the library's copies
void* memcpy(void* d, const void* s, size_t n) { if(G.active && !inside) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { if((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n); if(G.active && !inside) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); return d; }
void* memset(void* d, int v, size_t n) { if(G.active && !inside) access((uintptr_t)d, n, true, PC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); } void* __tsan_memset(void* d, int v, size_t n) { return memset(d, v, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
// initialisation of function-local statics orders the threads
int __cxa_guard_acquire(uint64_t* g) { both(g); return *(char*)g == 0; } void __cxa_guard_release(uint64_t* g) { both(g); *(char*)g = 1; } void __cxa_guard_abort(uint64_t*) {}
// fresh memory has no history
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if(G.active && !inside) forget(p, malloc_usable_size(p)); return p; } void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if(G.active && !inside) forget(p, malloc_usable_size(p)); return p; } void* realloc(void* q, size_t n) { size_t o = q ? malloc_usable_size(q) : 0; void* p = __libc_realloc(q, n); if(G.active && !inside) { size_t u = malloc_usable_size(p); if(p != q) forget(p, u); else if(u > o) forget((char*)p + o, u - o); } return p; } void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if(G.active && !inside) forget(p, malloc_usable_size(p)); return p; } void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); } int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; } void free(void* p) { __libc_free(p); }
}
