#include "sched.hpp"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <arpa/inet.h>
#include <netdb.h>

namespace sched {
uint64_t n_exec, n_points, n_pruned;

// ------------------------------------------------------------------ tracked memory
enum { PART = ARENA, NPART = MAXT + 1 };      // one part per thread, so that addresses do not depend on the schedule
static uint8_t arena[(size_t)PART * NPART] __attribute__((aligned(4096)));
static size_t arena_used[NPART], arena_hi[NPART];
static uint8_t *st_lo, *st_hi;               // writable memory of the library
static std::vector<uint8_t> st_init;
struct Shadow { uint8_t rd, wr, ls, pt; };
static Shadow sh_arena[sizeof arena], sh_pseudo[NPSEUDO], *sh_static;
static bool lib_ready, fresh_threads;      // fresh: the library has thread-local storage, so threads are not used twice

static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
	if (!i->dlpi_name || !strstr(i->dlpi_name, "libut.so")) return 0;
	uintptr_t lo = 0, hi = 0, rhi = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		auto &p = i->dlpi_phdr[k];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
			uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
			if (!lo || a < lo) lo = a;
			if (b > hi) hi = b;
		}
		if (p.p_type == PT_TLS) fresh_threads = true;
		if (p.p_type == PT_GNU_RELRO) rhi = (i->dlpi_addr + p.p_vaddr + p.p_memsz + 4095) & ~(uintptr_t)4095;
	}
	if (lo && rhi > lo) lo = rhi;
	if (lo < hi) { st_lo = (uint8_t *)lo; st_hi = (uint8_t *)hi; }
	return 1;
}
static void init() {
	if (lib_ready) return;
	lib_ready = true;
	dl_iterate_phdr(phdr_cb, nullptr);
	if (st_lo) { st_init.assign(st_lo, st_hi); sh_static = (Shadow *)calloc(st_hi - st_lo, sizeof(Shadow)); }
	cpu_set_t all, one; CPU_ZERO(&all);
	if (sched_getaffinity(0, sizeof all, &all) == 0) {
		int n = CPU_COUNT(&all), want = n ? (mc::worker_id < 0 ? 0 : mc::worker_id) % n : 0;
		for (int c = 0, k = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k++ == want) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
	}
}
void restore_statics() { init(); if (st_lo) memcpy(st_lo, st_init.data(), st_init.size()); }
size_t statics_changed() { size_t n = 0; for (size_t i = 0; i < st_init.size(); i++) n += st_lo[i] != st_init[i]; return n; }
static inline Shadow *shadow(uintptr_t a) {
	if (a >= (uintptr_t)arena && a < (uintptr_t)arena + sizeof arena) return &sh_arena[a - (uintptr_t)arena];
	if (st_lo && a >= (uintptr_t)st_lo && a < (uintptr_t)st_hi) return &sh_static[a - (uintptr_t)st_lo];
	return nullptr;
}
template <class F> static void each_shadow(F f) {
	for (size_t k = 0; k < NPART; k++) for (size_t i = 0; i < arena_hi[k]; i++) f(sh_arena[k * PART + i]);
	for (size_t i = 0; i < NPSEUDO; i++) f(sh_pseudo[i]);
	for (size_t i = 0; i < st_init.size(); i++) f(sh_static[i]);
}

// ------------------------------------------------------------------ threads
enum St { T_NEW, T_RUN, T_LOCK, T_COND, T_DONE };
struct Th { pthread_t id; std::atomic<int> go; St st; void *obj; int kind; uint64_t hist; uint8_t held; uint64_t spin; bool wrote; };
static Th th[MAXT];
static int nth, cur; static std::atomic<int> main_go;
static bool active, pruned, stateful, use_arena; static int bound;
static Program *prog;
static thread_local int my_id = -1; static thread_local bool lib_on;
static uint64_t ev_hash, ev_count;
bool managed() { return my_id >= 0 && active; }
int self() { return my_id; }
void in_lib(bool on) { lib_on = on; }
Lib::Lib() : prev(lib_on) { lib_on = true; }
Lib::~Lib() { lib_on = prev; }
void event(uint64_t v) { ev_hash = mc::mix(ev_hash, v); ev_count++; }
uint64_t clock() { return ev_count; }

struct Dec { uint8_t enabled, chosen, tried, branch; int8_t run; int pre; };
static std::vector<Dec> decs; static size_t nd, plen; static int preempts;
static std::unordered_set<uint64_t> visited;

static char schedbuf[1500];
const char *schedule() {
	size_t l = 0; schedbuf[0] = 0;
	for (size_t i = 0; i < nd && l + 40 < sizeof schedbuf;) {
		size_t j = i; while (j < nd && decs[j].chosen == decs[i].chosen) j++;
		l += snprintf(schedbuf + l, sizeof schedbuf - l, "%sT%d x%zu", i ? ", " : "", decs[i].chosen, j - i);
		i = j;
	}
	return schedbuf;
}
void vfail(const char *fmt, ...) {
	char b[2400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	mc::fail("%s\nschedule (thread x decisions): %s", b, schedule());
}

static void futex_wait(std::atomic<int> &w) {
	while (w.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int *)&w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	w.store(0, std::memory_order_relaxed);
}
static void futex_wake(std::atomic<int> &w) { w.store(1, std::memory_order_release); syscall(SYS_futex, (int *)&w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// locks, keyed by address
struct Lk { void *p; int writer; uint8_t readers; };
static Lk locks[64]; static int nlocks;
static Lk &lk(void *p) {
	for (int i = 0; i < nlocks; i++) if (locks[i].p == p) return locks[i];
	if (nlocks == 64) { fprintf(stderr, "mc: too many locks\n"); _exit(97); }
	locks[nlocks] = { p, -1, 0 }; return locks[nlocks++];
}
static bool can_lock(void *p, bool write) { Lk &l = lk(p); return l.writer < 0 && (!write || !l.readers); }
static uint8_t lockbit(void *p) { int i = (int)(&lk(p) - locks); return i < 8 ? 1 << i : 0; }

static uint8_t enabled() {
	uint8_t m = 0;
	for (int i = 0; i < nth; i++) {
		if (th[i].st == T_RUN || (th[i].st == T_LOCK && can_lock(th[i].obj, th[i].kind))) m |= 1 << i;
	}
	return m;
}
static uint64_t state_hash(int run) {
	uint64_t h = 1; for (int k = 0; k < NPART; k++) h = mc::hbytes(h, arena + (size_t)k * PART, arena_used[k]);
	if (st_lo) h = mc::hbytes(h, st_lo, st_hi - st_lo);
	for (int i = 0; i < nth; i++) { h = mc::mix(h, th[i].hist); h = mc::mix(h, th[i].st * 1000 + (th[i].st == T_LOCK ? (uint64_t)(&lk(th[i].obj) - locks) : 0)); }
	for (int i = 0; i < nlocks; i++) h = mc::mix(h, (locks[i].writer + 1) * 256 + locks[i].readers);
	h = mc::mix(h, ev_hash);
	if (bound >= 0) h = mc::mix(h, preempts * 16 + run + 1);
	return h;
}
// picks the next thread; run = thread that could simply go on (-1: none)
static int decide(int run, bool vol) {
	uint8_t en = enabled();
	if (!en) {
		bool all = true; for (int i = 0; i < nth; i++) if (th[i].st != T_DONE) all = false;
		if (all) return -1;
		vfail("deadlock: no thread can run");
	}
	n_points++;
	if ((en & (en - 1)) == 0) return __builtin_ctz(en);
	size_t i = nd++;
	if (i >= decs.size()) decs.resize(i * 2 + 64);
	Dec &d = decs[i];
	if (i < plen) {
		if (!(d.enabled == en && d.run == (vol ? -1 : run))) {
			fprintf(stderr, "mc: schedule not reproducible at decision %zu (enabled %x/%x run %d/%d)\n", i, d.enabled, en, d.run, run); _exit(97);
		}
	} else {
		bool cont = run >= 0 && (en >> run & 1);
		d.enabled = en; d.run = vol ? -1 : run; d.pre = preempts; d.branch = !pruned;
		if (!pruned) {
			uint64_t h = state_hash(run);
			if (stateful) { if (!visited.insert(h).second) { pruned = true; n_pruned++; d.branch = 0; } else mc::state(h); }
		}
		if (cont && !vol) d.chosen = run;
		else { d.chosen = 0; while (!(en >> d.chosen & 1) || (vol && d.chosen == run && (en & ~(1 << run)))) d.chosen++; }
		d.tried = 1 << d.chosen;
	}
	if (!vol && run >= 0 && (en >> run & 1) && d.chosen != run) preempts++;
	return d.chosen;
}
static void switch_to(int n) {          // called by the running thread
	int me = my_id;
	if (n == me) return;
	th[me].spin = 0; cur = n;
	futex_wake(th[n].go);
	futex_wait(th[me].go);
}
static void spoint(bool vol) {
	Th &t = th[my_id];
	t.hist = mc::mix(t.hist, 0x5b);                                // being stopped here is a state of its own
	if (++t.spin > 3000 && !vol) { vol = true; t.spin = 0; }       // a thread that spins must let others go on
	switch_to(decide(my_id, vol));
}
void point() { if (managed()) spoint(false); }
void yield() { if (managed()) { th[my_id].hist = mc::mix(th[my_id].hist, 0x1e1d); spoint(true); } }

static bool touch(Shadow &s, bool w) {
	(w ? s.wr : s.rd) |= 1 << my_id;
	s.ls = s.ls & 0x80 ? (s.ls & (0x80 | th[my_id].held)) : (0x80 | th[my_id].held);   // 0x80: accessed before
	return s.pt;
}
// with stop_after_writes a thread can also be stopped behind a conflicting write, at its next access or libc call, because
// libc may then read the memory unnoticed
bool stop_after_writes;
void step() { if (managed() && th[my_id].wrote) { th[my_id].wrote = false; spoint(false); th[my_id].hist = mc::mix(th[my_id].hist, 0x78); } }
void access(const void *a, size_t n, bool w) {
	if (!managed()) return;
	step();
	uintptr_t p = (uintptr_t)a; bool need = false, tracked = false;
	Shadow *s0 = shadow(p);
	if (!s0 && !shadow(p + (n ? n - 1 : 0))) return;
	for (size_t i = 0; i < n; i++) if (Shadow *s = shadow(p + i)) { tracked = true; need |= touch(*s, w); }
	if (need) {
		spoint(false);
		uint64_t &h = th[my_id].hist;
		h = mc::mix(h, w ? 0x77 : 0x11);
		if (!w) h = mc::hbytes(h, a, n);
		else if (stop_after_writes) th[my_id].wrote = true;
	}
	(void)tracked;
}
void pseudo(int id, bool w) {
	if (!managed()) return;
	if (touch(sh_pseudo[id], w)) { spoint(false); th[my_id].hist = mc::mix(th[my_id].hist, 0x5000 + id); }
}

// ------------------------------------------------------------------ lock operations
static void acquire(void *p, bool write) {
	if (!managed()) return;
	Th &t = th[my_id];
	t.st = T_LOCK; t.obj = p; t.kind = write;
	lk(p);
	int n = decide(can_lock(p, write) ? my_id : -1, false);
	switch_to(n);
	t.st = T_RUN;
	if (!can_lock(p, write)) { fprintf(stderr, "mc: scheduler granted a held lock\n"); _exit(97); }
	Lk &l = lk(p);
	if (write) { l.writer = my_id; t.held |= lockbit(p); } else { l.readers |= 1 << my_id; }
	t.hist = mc::mix(t.hist, 0x10c + write);
}
static void release(void *p) {
	if (!managed()) return;
	Lk &l = lk(p); Th &t = th[my_id];
	if (l.writer != my_id && !(l.readers >> my_id & 1)) vfail("a thread unlocked a lock it does not hold");
	if (l.writer == my_id) l.writer = -1;
	l.readers &= ~(1 << my_id);
	t.held &= ~lockbit(p);
	t.hist = mc::mix(t.hist, 0xf1ee);
	spoint(false);
}
static bool try_acquire(void *p, bool write) {
	if (!managed()) return true;
	spoint(false);
	bool ok = can_lock(p, write);
	if (ok) { Lk &l = lk(p); if (write) { l.writer = my_id; th[my_id].held |= lockbit(p); } else l.readers |= 1 << my_id; }
	th[my_id].hist = mc::mix(th[my_id].hist, 0x7c + ok);
	return ok;
}

// ------------------------------------------------------------------ running one schedule
static void *thread_main(void *arg) {
	my_id = (int)(intptr_t)arg;
	do {
		futex_wait(th[my_id].go);
		prog->thread(my_id);
		th[my_id].st = T_DONE; lib_on = false;
		for (int i = 0; i < nlocks; i++) if (locks[i].writer == my_id || (locks[i].readers >> my_id & 1)) vfail("a call returned without releasing its lock");
		int n = decide(-1, false);
		if (n < 0) { active = false; futex_wake(main_go); }
		else { cur = n; futex_wake(th[n].go); }
	} while (!fresh_threads);
	return nullptr;
}
static void execute() {
	memset(arena_used, 0, sizeof arena_used); nlocks = 0; restore_statics(); ev_hash = 7; ev_count = 0; nd = 0; preempts = 0; pruned = false; n_exec++;
	prog->setup();
	for (int i = 0; i < nth; i++) { th[i].st = T_RUN; th[i].hist = 11 + i; th[i].held = 0; th[i].spin = 0; th[i].wrote = false; th[i].obj = nullptr; }
	active = true;
	static int have;
	if (fresh_threads) have = 0;
	for (; have < nth; have++) {
		int i = have;
		if (pthread_create(&th[i].id, nullptr, thread_main, (void *)(intptr_t)i)) { fprintf(stderr, "mc: pthread_create failed\n"); _exit(97); }
	}
	int n = decide(-1, false);
	cur = n; futex_wake(th[n].go);
	futex_wait(main_go);
	if (fresh_threads) for (int i = 0; i < nth; i++) pthread_join(th[i].id, nullptr);
	prog->finish();
	for (int k = 0; k < NPART; k++) if (arena_used[k] > arena_hi[k]) arena_hi[k] = arena_used[k];
}
bool explore(Program &p, const Opts &o) {
	init();
	prog = &p; nth = o.threads; bound = o.bound; stateful = o.stateful; use_arena = o.arena;
	each_shadow([](Shadow &s) { s = {}; }); memset(arena_hi, 0, sizeof arena_hi);
	for (;;) {
		visited.clear(); plen = 0; bool restart = false;
		for (;;) {
			uint64_t p0 = n_points;
			execute();
			mc::add_cases(1); mc::tr(n_points - p0);
			if (plen > nd) { fprintf(stderr, "mc: schedule not reproducible (ended early)\n"); _exit(97); }
			// writes to library memory by code without callbacks (libc): any thread may have done them
			for (size_t i = 0; i < st_init.size(); i++) if (st_lo[i] != st_init[i] && !sh_static[i].wr) { sh_static[i].wr = 0xf; sh_static[i].rd |= 0; sh_static[i].ls = 0x80; }
			each_shadow([&](Shadow &s) {
				uint8_t any = s.rd | s.wr;
				if (!s.pt && s.wr && (any & (any - 1)) && (s.ls & 0x7f) == 0) { s.pt = 1; restart = true; }
			});
			if (restart) break;
			if (mc::out_of_time()) { mc::not_exhaustive("time limit reached"); return false; }
			size_t i = nd; bool found = false;
			while (i-- > 0) {
				Dec &d = decs[i];
				if (!d.branch) continue;
				for (int t = 0; t < nth && !found; t++) {
					if (!(d.enabled >> t & 1) || (d.tried >> t & 1)) continue;
					int cost = d.run >= 0 && (d.enabled >> d.run & 1) && t != d.run;
					if (bound >= 0 && d.pre + cost > bound) continue;
					d.tried |= 1 << t; d.chosen = t; plen = i + 1; found = true;
				}
				if (found) break;
			}
			if (!found) break;
		}
		if (!restart) return true;
	}
}
} // namespace sched
using namespace sched;

// ====================================================================== allocation
extern "C" {
static bool from_arena(void *p) { return (uint8_t *)p >= arena && (uint8_t *)p < arena + sizeof arena; }
static void *arena_alloc(size_t n) {
	size_t need = ((n + 15) & ~(size_t)15) + 64;
	int k = managed() ? my_id + 1 : 0;
	if (arena_used[k] + need > PART) return malloc(n);
	uint8_t *p = arena + (size_t)k * PART + arena_used[k] + 48; memcpy(p - 16, &n, 8); arena_used[k] += need;
	memset(p, 0xbe, n);
	return p;
}
static bool arena_on() { return lib_on && use_arena; }
void *__wrap_malloc(size_t n) { return arena_on() ? arena_alloc(n) : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!arena_on()) return calloc(a, b); void *p = arena_alloc(a * b); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
	if (p ? !from_arena(p) : !arena_on()) return realloc(p, n);
	void *q = arena_alloc(n);
	if (p) { size_t o; memcpy(&o, (uint8_t *)p - 16, 8); memcpy(q, p, o < n ? o : n); }
	return q;
}
void __wrap_free(void *p) { if (!from_arena(p)) free(p); }
}
void sched::lfree(void *p) { __wrap_free(p); }
extern "C" {
char *__wrap_strdup(const char *s) { access(s, strlen(s) + 1, false); size_t n = strlen(s) + 1; char *r = (char *)__wrap_malloc(n); memcpy(r, s, n); return r; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); access(s, n, false); char *r = (char *)__wrap_malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }

// ====================================================================== threads API of the code under test
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { acquire(m, true); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return try_acquire(m, true) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { release(m); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset((void *)m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { acquire(m, false); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { acquire(m, true); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { release(m); return 0; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { memset((void *)m, 0, sizeof *m); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { acquire((void *)m, true); return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return try_acquire((void *)m, true) ? 0 : EBUSY; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { release((void *)m); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *, int) { return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
	acquire((void *)o, true);
	if (*(volatile int *)o == 0) { f(); *(volatile int *)o = 2; }
	release((void *)o);
	return 0;
}
int __wrap_sched_yield(void) { sched::yield(); return 0; }
int __wrap_pthread_yield(void) { sched::yield(); return 0; }
int __wrap_usleep(unsigned) { sched::yield(); return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { sched::yield(); return 0; }
unsigned __wrap_sleep(unsigned) { sched::yield(); return 0; }

// ====================================================================== access callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
	void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
	void __tsan_read_write##n(void *p) { access(p, n, false); access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
// copies are made octet by octet so that a switch may come in between
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
	if (!managed() || !(shadow((uintptr_t)d) || shadow((uintptr_t)s))) return memcpy(d, s, n);
	for (size_t i = 0; i < n; i++) { access((const char *)s + i, 1, false); char c = ((const char *)s)[i]; access((char *)d + i, 1, true); ((char *)d)[i] = c; }
	return d;
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
	if (!managed() || !(shadow((uintptr_t)d) || shadow((uintptr_t)s))) return memmove(d, s, n);
	if (d <= s) return __tsan_memcpy(d, s, n);
	for (size_t i = n; i-- > 0;) { access((const char *)s + i, 1, false); char c = ((const char *)s)[i]; access((char *)d + i, 1, true); ((char *)d)[i] = c; }
	return d;
}
void *__tsan_memset(void *d, int c, unsigned long n) {
	if (!managed() || !shadow((uintptr_t)d)) return memset(d, c, n);
	for (size_t i = 0; i < n; i++) { access((char *)d + i, 1, true); ((char *)d)[i] = c; }
	return d;
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { access((const void *)a, sizeof(T), false); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int n) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, m, n); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access((const void *)a, sizeof(T), true); rmw(a, sizeof(T)); T o = *a; if (o == e) *a = v; return o; }
static void rmw(const volatile void *a, size_t n) { if (managed()) th[my_id].hist = mc::hbytes(th[my_id].hist, (const void *)a, n); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)

// ====================================================================== libc calls that touch memory of the library
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); if (managed()) { access(s, n + 1, false); n = strlen(s); } return n; }
char *__wrap_strcpy(char *d, const char *s) { access(s, strlen(s) + 1, false); access(d, strlen(s) + 1, true); return strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { access(s, strnlen(s, n), false); access(d, n, true); return strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { access(s, strlen(s) + 1, false); access(d, strlen(d) + strlen(s) + 1, true); return strcat(d, s); }
int __wrap_strcmp(const char *a, const char *b) { if (managed()) { access(a, strlen(a) + 1, false); access(b, strlen(b) + 1, false); } return strcmp(a, b); }
int __wrap_strcasecmp(const char *a, const char *b) { if (managed()) { access(a, strlen(a) + 1, false); access(b, strlen(b) + 1, false); } return strcasecmp(a, b); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return memcmp(a, b, n); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	step();
	if (managed() && shadow((uintptr_t)d)) { va_list c; va_copy(c, ap); int k = vsnprintf(nullptr, 0, f, c); va_end(c); size_t w = (size_t)k + 1 < n ? (size_t)k + 1 : n; access(d, w, true); int r = vsnprintf(d, n, f, ap); return r; }
	return vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, (size_t)INT_MAX, f, ap); va_end(ap); return r; }
const char *__wrap_inet_ntop(int af, const void *s, char *d, socklen_t n) { char b[64]; const char *r = inet_ntop(af, s, b, sizeof b); if (r) access(d, strlen(b) + 1, true); return inet_ntop(af, s, d, n); }

// libc calls that only read
#define READS(ret, name, params, args, ...) ret __wrap_##name params { step(); __VA_ARGS__; return name args; }
READS(int, fputs, (const char *s, FILE *f), (s, f), access(s, strlen(s) + 1, false))
READS(int, puts, (const char *s), (s), access(s, strlen(s) + 1, false))
READS(size_t, fwrite, (const void *p, size_t n, size_t k, FILE *f), (p, n, k, f), access(p, n * k, false))
READS(char *, strchr, (const char *s, int c), ((char *)s, c), access(s, strlen(s) + 1, false))
READS(char *, strrchr, (const char *s, int c), ((char *)s, c), access(s, strlen(s) + 1, false))
READS(char *, strstr, (const char *s, const char *t), ((char *)s, t), access(s, strlen(s) + 1, false); access(t, strlen(t) + 1, false))
READS(void *, memchr, (const void *s, int c, size_t n), ((void *)s, c, n), access(s, n, false))
READS(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), access(a, strnlen(a, n), false); access(b, strnlen(b, n), false))
READS(int, strncasecmp, (const char *a, const char *b, size_t n), (a, b, n), access(a, strnlen(a, n), false); access(b, strnlen(b, n), false))
READS(size_t, strnlen, (const char *s, size_t n), (s, n), access(s, strnlen(s, n), false))
READS(size_t, strspn, (const char *s, const char *t), (s, t), access(s, strlen(s) + 1, false))
READS(size_t, strcspn, (const char *s, const char *t), (s, t), access(s, strlen(s) + 1, false))
READS(long, strtol, (const char *s, char **e, int b), (s, e, b), access(s, strlen(s) + 1, false))
READS(unsigned long, strtoul, (const char *s, char **e, int b), (s, e, b), access(s, strlen(s) + 1, false))
READS(long long, strtoll, (const char *s, char **e, int b), (s, e, b), access(s, strlen(s) + 1, false))
READS(unsigned long long, strtoull, (const char *s, char **e, int b), (s, e, b), access(s, strlen(s) + 1, false))
READS(int, atoi, (const char *s), (s), access(s, strlen(s) + 1, false))
READS(int, inet_pton, (int af, const char *s, void *d), (af, s, d), access(s, strlen(s) + 1, false))
int __wrap_vfprintf(FILE *o, const char *f, va_list ap) { step(); return vfprintf(o, f, ap); }
int __wrap_fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vfprintf(o, f, ap); va_end(ap); return r; }
int __wrap_vsscanf(const char *s, const char *f, va_list ap) { step(); access(s, strlen(s) + 1, false); return vsscanf(s, f, ap); }
int __wrap_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsscanf(s, f, ap); va_end(ap); return r; }
char *__wrap_strtok_r(char *s, const char *d, char **p) { step(); if (s) access(s, strlen(s) + 1, true); return strtok_r(s, d, p); }

// libc calls that keep state of their own: a shared resource
#define SHARED(id, ret, name, params, args) \
	ret __wrap_##name params { pseudo(id, true); ret r = name args; pseudo(id, true); return r; }
SHARED(1, char *, strtok, (char *a, const char *b), (a, b))
SHARED(2, char *, inet_ntoa, (struct in_addr a), (a))
SHARED(3, struct servent *, getservbyname, (const char *a, const char *b), (a, b))
SHARED(3, struct servent *, getservbyport, (int a, const char *b), (a, b))
SHARED(4, struct protoent *, getprotobyname, (const char *a), (a))
SHARED(4, struct protoent *, getprotobynumber, (int a), (a))
SHARED(5, struct tm *, gmtime, (const time_t *a), (a))
SHARED(5, struct tm *, localtime, (const time_t *a), (a))
SHARED(5, char *, ctime, (const time_t *a), (a))
SHARED(5, char *, asctime, (const struct tm *a), (a))
SHARED(6, int, rand, (void), ())
SHARED(6, long, random, (void), ())
SHARED(6, double, drand48, (void), ())
SHARED(6, long, lrand48, (void), ())
SHARED(6, long, mrand48, (void), ())
SHARED(7, char *, strerror, (int a), (a))
SHARED(7, char *, strsignal, (int a), (a))
SHARED(8, int, setenv, (const char *a, const char *b, int c), (a, b, c))
SHARED(8, int, unsetenv, (const char *a), (a))
SHARED(9, char *, setlocale, (int a, const char *b), (a, b))
}
