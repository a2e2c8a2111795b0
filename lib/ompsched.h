// ompsched.h -- OpenMP regions under a controlled scheduler, with happens-before race detection.
//
// The harness exports the entry points of libgomp, so a parallel region of the library runs on threads of which exactly
// one runs at a time.  Before every synchronising operation (taking a loop chunk, entering a critical section, a barrier)
// the engine decides which thread goes on; switches away from a thread that could continue are bounded, all others are
// enumerated.  The library under test is compiled with -fsanitize=thread, whose callbacks land here instead of in
// libtsan: vector clocks decide whether two accesses to the same bytes are ordered by the synchronisation of the
// explored schedule.  Programs without such races behave alike wherever else a switch is placed.
#pragma once
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <cxxabi.h>
namespace sched {
static const int MAXT = 4;
struct VC { unsigned c[MAXT]; };
enum St { READY, BLOCKED, BARRIER, DONE };
struct Loop { bool started; long next, end, incr, chunk; int left; };
struct Th { St st; const void* on; VC vc; sem_t sem; int loop; long spos; };
struct Lock { int owner; VC vc; Lock() : owner(-1) { memset(&vc, 0, sizeof(vc)); } };
struct Global {
  mc::Ctx* ctx; int want, n, cur, left, preempt, bound, points; bool active; Th th[MAXT]; std::map<const void*, Lock>* locks; std::map<uintptr_t, VC>* sync; std::vector<Loop>* loops; void (*fn)(void*); void* data; unsigned gen; VC bar; std::vector<int>* trace; bool track; bool nodetect;
};
extern Global G;
inline void begin(mc::Ctx& c, int bound, bool detect) { G.ctx = &c; G.bound = bound; G.preempt = 0; G.track = detect; }
inline void end() { G.ctx = 0; }
}
