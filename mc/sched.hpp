// Controlled scheduler: runs the real code (compiled with memory-access callbacks) on real threads, one at
// a time, and enumerates every schedule of its scheduling points by depth-first search with re-execution.
//
// Scheduling points are: lock operations, yields, and accesses to memory that two threads touch, at least
// one of them writing, without a common lock.  The set of such memory is found while exploring; whenever it
// grows the exploration starts over with the larger set.  All other accesses commute with every step of the
// other threads, so leaving them out loses no behaviour.
#pragma once
#include "mc.hpp"
#include <functional>

namespace sched {
enum { MAXT = 4, ARENA = 1 << 20, NPSEUDO = 64 };

struct Program {
	virtual void setup() {}              // not scheduled: the objects before the threads start
	virtual void thread(int t) = 0;      // body of thread t
	virtual void finish() {}             // after all threads ended: oracle, cleanup
	virtual ~Program() {}
};
struct Opts {
	int threads = 2;
	int bound = -1;                      // preemption bound, -1: none
	bool stateful = false;               // prune states already expanded (needs all shared memory in arena/statics)
	bool arena = true;                   // allocations of the code under test come from the deterministic arena
};
// explores all schedules; false if stopped by the time limit
bool explore(Program &p, const Opts &o);

extern bool stop_after_writes;           // more places to stop: also behind conflicting writes
void step();                             // such a place
bool managed();                          // called on a scheduled thread
int self();                              // its number
void in_lib(bool on);                    // allocations go to the arena while on (per thread)
struct Lib { bool prev; Lib(); ~Lib(); };
void access(const void *a, size_t n, bool write);
void pseudo(int id, bool write);         // access to a named external resource
void yield();                            // voluntary switch
void point();                            // unconditional scheduling point
void event(uint64_t v);                  // something the oracle depends on happened (part of the state)
void lfree(void *p);                     // releases what the code under test allocated
uint64_t clock();                        // number of events so far
const char *schedule();                  // the current schedule, printable
void restore_statics();                  // library static memory as at program start
size_t statics_changed();                // octets of library static memory that differ from program start
extern uint64_t n_exec, n_points, n_pruned;

[[noreturn]] void vfail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // fail() with the schedule appended
#define SC_CHECK(cond, ...) do { if (!(cond)) sched::vfail(__VA_ARGS__); } while (0)
}
