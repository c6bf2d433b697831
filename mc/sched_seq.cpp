// stand-in for the scheduler where histories are sequential (address sanitizer build)
#include "sched.hpp"
namespace sched {
uint64_t n_exec, n_points, n_pruned;
bool explore(Program &, const Opts &) { return true; }
bool stop_after_writes;
void restore_statics() {}
void step() {}
bool managed() { return false; }
int self() { return -1; }
void in_lib(bool) {}
Lib::Lib() : prev(false) {}
Lib::~Lib() {}
void access(const void *, size_t, bool) {}
void pseudo(int, bool) {}
void yield() {}
void point() {}
void event(uint64_t) {}
void lfree(void *p) { free(p); }
uint64_t clock() { return 0; }
const char *schedule() { return ""; }
void vfail(const char *fmt, ...) { char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); mc::fail("%s", b); }
}
