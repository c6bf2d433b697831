// C23 queue, C34 thread numbers, C28 spool directory shared by threads: all interleavings of the real code
// under the controlled scheduler; C23 also all sequential histories.
#include "sched.hpp"
#include <string>
#include <map>
#include <set>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <pthread.h>
extern "C" {
#include "my_queue.h"
#include "threadnum.h"
#include "spooldir.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
}
using namespace mc;
using sched::Lib;
typedef std::string Str;

enum { K_QSEQ, K_QCON, K_QINIT, K_TNUM, K_SPOOLT, K_TMANY, K_QBIG };
const char *mc::kind_names[] = { "queue-sequence", "queue-interleavings", "queue-create", "threadnum-interleavings", "spool-interleavings", "threads one after another(number, alive at a time)", "queue of many slots or large elements(slots, element size, slots passed before)" };

static const struct my_queue_ops &impl(int i) {
	static const struct my_queue_ops gen = { my_queue_init, my_queue_destroy, my_queue_impl_type, my_queue_insert, my_queue_remove };
	return i == 0 ? my_queue_mb_ops : i == 1 ? my_queue_mutex_ops : gen;
}
static const char *implname(int i) { return i == 0 ? "mb" : i == 1 ? "mutex" : "default"; }

static void fill(uint8_t *b, size_t n, unsigned k) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(k * 37 + i * 11 + (i ? k >> 3 : 0) + 1); }

// ---------------------------------------------------------------------- sequential histories
// case: impl, slots, element size, pattern of reporting pointers; then one octet per operation (1 insert, 0 remove)
static void check_qseq(const Case &c) {
	auto &q = impl(c.b[0][0]); unsigned slots = getnum(c.b[1]), es = getnum(c.b[2]), cap = slots - 1; int rep = c.b[0][1];
	Lib in; (void)in;
	struct my_queue *h = q.init(slots, es); tr();
	MC_CHECK(h, "%s: creating %u slots of %u octets failed", q.impl_type(), slots, es);
	std::vector<unsigned> model; unsigned k = 0; uint64_t hh = 1;
	std::vector<uint8_t> item(es), want(es);
	for (size_t i = 0; i < c.b[3].size(); i++) {
		bool report = rep == 0 || (rep == 1 && i % 2);
		if (c.b[3][i]) {
			Exact e(es, 0); fill(e.p, es, ++k); fill(want.data(), es, k);
			unsigned sp = 12345; bool r = q.insert(h, e.p, report ? &sp : nullptr); tr();
			MC_CHECK(r == (model.size() < cap), "%s: step %zu: insert %s with %zu of %u elements", q.impl_type(), i, r ? "succeeds" : "fails", model.size(), cap);
			MC_CHECK(!memcmp(e.p, want.data(), es), "%s: insert changed the element given", q.impl_type());
			if (r) model.push_back(k);
			if (report) MC_CHECK(sp == cap - model.size(), "%s: step %zu: insert reports %u free, expected %zu", q.impl_type(), i, sp, cap - model.size());
		} else {
			Exact e(es, 0xee);
			unsigned ct = 12345; bool r = q.remove(h, e.p, report ? &ct : nullptr); tr();
			MC_CHECK(r == !model.empty(), "%s: step %zu: remove %s with %zu elements", q.impl_type(), i, r ? "succeeds" : "fails", model.size());
			if (r) {
				fill(want.data(), es, model[0]);
				MC_CHECK(!memcmp(e.p, want.data(), es), "%s: step %zu: removed element is %s, expected %s", q.impl_type(), i, Hex(e.p, es).s, Hex(want.data(), es).s);
				model.erase(model.begin());
			}
			if (report) MC_CHECK(ct == model.size(), "%s: step %zu: remove reports %u left, expected %zu", q.impl_type(), i, ct, model.size());
		}
		hh = mix(hh, model.size() * 64 + (k & 7)); 
	}
	state(mix(hh, slots * 100 + es));
	valid();
	q.destroy(&h); tr();
	MC_CHECK(h == nullptr, "destroy left the pointer set");
	q.destroy(&h);
}
static void check_qinit(const Case &c) {
	auto &q = impl(c.b[0][0]); uint64_t from = getnum(c.b[1]), to = getnum(c.b[2]), es = getnum(c.b[3]);
	for (uint64_t n = from; n < to; n++) {
		bool good = n >= 2 && (n & (n - 1)) == 0;
		if (good && n * es > (64u << 20)) continue;
		Lib in;
		struct my_queue *h = q.init((unsigned)n, (unsigned)es); tr();
		MC_CHECK((h != nullptr) == good, "%s: creating a queue of %llu slots %s", q.impl_type(), (unsigned long long)n, h ? "succeeds" : "fails");
		if (h) {
			std::vector<uint8_t> e(es + 1, 7), o(es + 1, 9); unsigned x = 99;
			MC_CHECK(!q.remove(h, o.data(), &x) && x == 0, "a new queue is not empty");
			MC_CHECK(q.insert(h, e.data(), &x) && x == n - 2, "new queue of %llu slots reports %u free after one insert", (unsigned long long)n, x);
			MC_CHECK(q.remove(h, o.data(), &x) && x == 0 && !memcmp(e.data(), o.data(), es), "element not returned");
			q.destroy(&h); state(mix(n, es));
		}
		if ((n & 0xffff) == 0) add_cases(0x10000);
	}
	valid();
}

// many slots or large elements: filled, refused, emptied, after the ring was turned by pre slots; elements of a
// gigabyte and more carry their number in their first and last octets only, zero in between, and come from and go to
// a mapping whose middle is one and the same small piece of memory
static const size_t PIECE = 2 << 20;
static uint8_t *thin(size_t n) {
	int fd = memfd_create("mc", 0);
	if (fd < 0 || ftruncate(fd, 3 * PIECE)) { if (fd >= 0) close(fd); return nullptr; }
	uint8_t *p = (uint8_t *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) p = nullptr;
	for (size_t o = 0; p && o < n; o += PIECE)
		if (mmap(p + o, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o == 0 ? 0 : o + PIECE == n ? PIECE : 2 * PIECE) == MAP_FAILED) { munmap(p, n); p = nullptr; }
	close(fd);
	return p;
}
static uint64_t available() {
	FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long long kb = 0;
	while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
	if (f) fclose(f);
	return kb << 10;
}
static void check_qbig(const Case &c) {
	if (getnum(c.b[0]) * getnum(c.b[1]) > (1ull << 30) && available() < 10ull << 30) { not_exhaustive("less than 10 GB of memory available: no queue of several gigabytes"); return; }
	for (int im = 0; im < 2; im++) {
		auto &q = impl(im); size_t slots = getnum(c.b[0]), es = getnum(c.b[1]), pre = getnum(c.b[2]), cap = slots - 1;
		bool giant = es > (1u << 28);
		Lib in; (void)in;
		uint8_t *item = giant ? thin(es) : (uint8_t *)malloc(es);
		if (!item) { not_exhaustive("no memory for elements of several gigabytes"); return; }
		auto put = [&](uint32_t k) { if (giant) { memcpy(item, &k, 4); memcpy(item + es - 4, &k, 4); } else fill(item, es, k); };
		std::vector<uint8_t> want(giant ? 0 : es);
		auto is = [&](uint32_t k) { if (giant) return !memcmp(item, &k, 4) && !memcmp(item + es - 4, &k, 4); fill(want.data(), es, k); return !memcmp(item, want.data(), es); };
		struct my_queue *h = q.init(slots, es); tr();
		if (!h && giant) { munmap(item, es); return; }
		MC_CHECK(h, "%s: creating %zu slots of %zu octets failed", q.impl_type(), slots, es);
		uint32_t k = 1; unsigned x;
		for (size_t i = 0; i < pre; i++, k++) { put(k); x = 77; MC_CHECK(q.insert(h, item, &x) && x == cap - 1, "%s: insert number %zu into an empty queue of %zu slots of %zu octets: %u free", q.impl_type(), i, slots, es, x); put(0); x = 77; MC_CHECK(q.remove(h, item, &x) && x == 0 && is(k), "%s: element number %zu is not the one inserted (%u left)", q.impl_type(), i, x); tr(2); }
		for (size_t i = 0; i < cap; i++) { put(k + i); x = 77; bool r = q.insert(h, item, &x); tr(); MC_CHECK(r && x == cap - 1 - i, "%s: %zu slots of %zu octets, insert of element %zu of %zu %s, %u free", q.impl_type(), slots, es, i, cap, r ? "succeeds" : "fails", x); }
		x = 77; MC_CHECK(!q.insert(h, item, &x) && x == 0, "%s: %zu slots of %zu octets: an element too many is taken, or %u reported free", q.impl_type(), slots, es, x);
		for (size_t i = 0; i < cap; i++) { put(0); x = 77; bool r = q.remove(h, item, &x); tr(); MC_CHECK(r && x == cap - 1 - i && is(k + i), "%s: %zu slots of %zu octets: remove of element %zu of %zu %s, %u left, octets %s", q.impl_type(), slots, es, i, cap, r ? "succeeds" : "fails", x, Hex(item, 4).s); }
		x = 77; MC_CHECK(!q.remove(h, item, &x) && x == 0, "%s: the emptied queue of %zu slots of %zu octets is not empty", q.impl_type(), slots, es);
		q.destroy(&h);
		if (giant) munmap(item, es); else free(item);
		state(mix(mix(slots, es), pre)); valid();
	}
}

// ---------------------------------------------------------------------- interleavings of producer and consumer
struct QOp { bool ins, ok, rep; unsigned k, num; uint64_t t0, t1; std::vector<uint8_t> got; };
struct QProg : sched::Program {
	const struct my_queue_ops *q; unsigned slots, es, pre, fillup; int np, nc, rep;
	struct my_queue *h = nullptr; std::vector<QOp> ops[2]; std::vector<unsigned> initial;
	uint64_t t; uint64_t outcomes = 0;
	void setup() override {
		ops[0].clear(); ops[1].clear(); initial.clear(); t = 0;
		Lib in; h = q->init(slots, es); if (!h) mc::fail("cannot create a queue of %u slots", slots);
		uint8_t b[64]; unsigned k = 200;
		for (unsigned i = 0; i < pre; i++) { fill(b, es, 255); q->insert(h, b, nullptr); q->remove(h, b, nullptr); }
		for (unsigned i = 0; i < fillup; i++) { fill(b, es, k); if (!q->insert(h, b, nullptr)) mc::fail("prefill failed"); initial.push_back(k++); }
	}
	void thread(int id) override {
		int n = id == 0 ? np : nc;
		for (int i = 0; i < n; i++) {
			QOp o; o.ins = id == 0; o.rep = rep == 0 || (rep == 1 && (i & 1)); o.k = i + 1; o.num = 0xdead;
			uint8_t b[68]; memset(b, 0xee, sizeof b); if (o.ins) fill(b, es, o.k);
			o.t0 = ++t; sched::event(id * 2 + 1);
			{ Lib in; o.ok = o.ins ? q->insert(h, b, o.rep ? &o.num : nullptr) : q->remove(h, b, o.rep ? &o.num : nullptr); }
			o.t1 = ++t; sched::event(id * 2 + 2 + o.ok * 8 + (uint64_t)o.num * 64);
			o.got.assign(b, b + es);
			for (size_t z = es; z < sizeof b; z++) if (b[z] != 0xee) sched::vfail("remove wrote beyond the element");
			ops[id].push_back(o);
		}
	}
	Str history() {
		Str s; char b[120];
		for (auto *v : { &ops[0], &ops[1] }) for (auto &o : *v) { snprintf(b, sizeof b, "%s#%u[%llu,%llu]%s%s ", o.ins ? "ins" : "rem", o.k, (unsigned long long)o.t0, (unsigned long long)o.t1, o.ok ? " ok " : " fail ", o.ins ? "" : Hex(o.got).s); s += b; }
		return s;
	}
	void finish() override {
		unsigned cap = slots - 1; auto &I = ops[0], &R = ops[1];
		// the elements in the order of insertion
		std::vector<unsigned> seq = initial; for (auto &o : I) if (o.ok) seq.push_back(o.k);
		size_t r = 0; uint8_t want[64];
		for (auto &o : R) if (o.ok) {
			SC_CHECK(r < seq.size(), "%s: more elements removed than inserted: %s", q->impl_type(), history().c_str());
			fill(want, es, seq[r]); SC_CHECK(!memcmp(want, o.got.data(), es), "%s: removed %s, expected element #%u = %s: %s", q->impl_type(), Hex(o.got).s, seq[r], Hex(want, es).s, history().c_str());
			r++;
		}
		// is there an order of the calls, each taking effect within its own duration, that a bounded queue allows?
		std::vector<int> ci(I.size() + 1, (int)initial.size()), cr(R.size() + 1, 0);
		for (size_t i = 0; i < I.size(); i++) ci[i + 1] = ci[i] + I[i].ok;
		for (size_t j = 0; j < R.size(); j++) cr[j + 1] = cr[j] + R[j].ok;
		std::vector<std::vector<char>> ok(I.size() + 1, std::vector<char>(R.size() + 1, 0)); ok[0][0] = 1;
		for (size_t i = 0; i <= I.size(); i++) for (size_t j = 0; j <= R.size(); j++) {
			if (!ok[i][j]) continue;
			int n = ci[i] - cr[j];
			if (i < I.size() && !(j < R.size() && R[j].t1 < I[i].t0) && (I[i].ok ? n < (int)cap : n == (int)cap)) ok[i + 1][j] = 1;
			if (j < R.size() && !(i < I.size() && I[i].t1 < R[j].t0) && (R[j].ok ? n > 0 : n == 0)) ok[i][j + 1] = 1;
		}
		SC_CHECK(ok[I.size()][R.size()], "%s, %u slots: results no bounded queue can give (initially %zu elements): %s", q->impl_type(), slots, initial.size(), history().c_str());
		// reported numbers
		for (int side = 0; side < 2; side++) {
			auto &A = ops[side], &B2 = ops[!side];
			for (size_t i = 0; i < A.size(); i++) if (A[i].rep) {
				bool overlap = false; size_t done = 0;
				for (auto &o : B2) { if (o.t1 < A[i].t0) done++; else if (o.t0 < A[i].t1) overlap = true; }
				int n = side == 0 ? ci[i + 1] - cr[done] : ci[done] - cr[i + 1];
				unsigned exact = side == 0 ? cap - n : n;
				SC_CHECK(A[i].num <= cap, "%s: call reports %u with a capacity of %u: %s", q->impl_type(), A[i].num, cap, history().c_str());
				if (!overlap) SC_CHECK(A[i].num == exact, "%s: %s #%zu reports %u, expected %u while the other side is idle: %s", q->impl_type(), side ? "remove" : "insert", i + 1, A[i].num, exact, history().c_str());
				for (size_t z = i + 1; z < A.size() && z - i <= A[i].num; z++) SC_CHECK(A[z].ok, "%s: %s #%zu reported %u but call #%zu then failed: %s", q->impl_type(), side ? "remove" : "insert", i + 1, A[i].num, z + 1, history().c_str());
			}
		}
		// what is left, and then the capacity
		Lib in; uint8_t b[64]; unsigned num;
		while (r < seq.size()) {
			memset(b, 0, sizeof b); SC_CHECK(q->remove(h, b, &num), "%s: element #%u is lost: %s", q->impl_type(), seq[r], history().c_str());
			fill(want, es, seq[r]); SC_CHECK(!memcmp(want, b, es), "%s: element left is %s, expected #%u: %s", q->impl_type(), Hex(b, es).s, seq[r], history().c_str());
			r++; SC_CHECK(num == seq.size() - r, "%s: count %u, expected %zu", q->impl_type(), num, seq.size() - r);
		}
		SC_CHECK(!q->remove(h, b, &num) && num == 0, "%s: an element appears twice: %s", q->impl_type(), history().c_str());
		for (unsigned i = 0; i < cap; i++) { fill(b, es, 50 + i); SC_CHECK(q->insert(h, b, &num) && num == cap - i - 1, "%s: afterwards only %u of %u elements fit", q->impl_type(), i, cap); }
		SC_CHECK(!q->insert(h, b, nullptr), "%s: afterwards more than %u elements fit", q->impl_type(), cap);
		q->destroy(&h);
		uint64_t s = 5; for (auto *v : { &ops[0], &ops[1] }) for (auto &o : *v) s = mix(s, o.ok * 100 + (o.ins ? 0 : o.got[0]));
		state(s); valid();
	}
};
// case: impl, slots, element size, start offset, prefilled, inserts, removes, reporting, preemption bound (255 none)
static void check_qcon(const Case &c) {
	const Bytes &b = c.b[0];
	QProg p; p.q = &impl(b[0]); p.slots = b[1]; p.es = b[2]; p.pre = b[3]; p.fillup = b[4]; p.np = b[5]; p.nc = b[6]; p.rep = b[7];
	sched::Opts o; o.threads = 2; o.bound = b[8] == 255 ? -1 : b[8]; o.stateful = true;
	uint64_t e0 = sched::n_exec;
	sched::explore(p, o);
	info("schedules", sched::n_exec - e0);
	note("%s queue, %u slots of %u octets at offset %u holding %u: %d inserts against %d removes, %llu schedules", implname(b[0]), p.slots, p.es, p.pre, p.fillup, p.np, p.nc, (unsigned long long)(sched::n_exec - e0));
}

// ---------------------------------------------------------------------- thread numbers
struct TProg : sched::Program {
	int n; int first[4], second[4], again[4];
	void setup() override { for (int i = 0; i < 4; i++) first[i] = second[i] = again[i] = -1; }
	void thread(int t) override {
		Lib in; 
		my_threadnum_register();
		first[t] = my_threadnum(); sched::event(t * 100 + first[t]);
		sched::point();
		second[t] = my_threadnum(); sched::event(1000 + t * 100 + second[t]);
		sched::point();
		again[t] = my_threadnum();
	}
	void finish() override {
		unsigned seen = 0; uint64_t s = 3;
		for (int i = 0; i < n; i++) {
			SC_CHECK(first[i] == second[i] && first[i] == again[i], "the number of thread %d changed: %d, %d, %d", i, first[i], second[i], again[i]);
			SC_CHECK(first[i] >= 0 && first[i] < n, "thread %d of %d got number %d", i, n, first[i]);
			SC_CHECK(!(seen >> first[i] & 1), "number %d was handed out twice", first[i]);
			seen |= 1u << first[i]; s = mix(s, first[i]);
		}
		state(s); valid();
	}
};
#ifndef THREADNUM      // only this check links threadnum.c: its thread-local memory makes every schedule need new threads
extern "C" { void my_threadnum_register(void) {} int my_threadnum(void) { return 0; } }
#endif
static void check_tnum(const Case &c) {
	TProg p; p.n = c.b[0][0]; sched::Opts o; o.threads = p.n; o.stateful = true; o.bound = c.b[0][1] == 255 ? -1 : c.b[0][1];
	uint64_t e0 = sched::n_exec; sched::stop_after_writes = true; sched::explore(p, o); info("schedules", sched::n_exec - e0);
	note("%d threads, %llu schedules", p.n, (unsigned long long)(sched::n_exec - e0));
}

// many threads, each registering after the one before; up to `alive' of them stay and look again when the last one has registered
struct Many { int reg, num, again; int ready; pthread_mutex_t *m; pthread_cond_t *c; bool *go, stay; };
static void *many_thread(void *a) {
	Many *t = (Many *)a; my_threadnum_register(); t->num = my_threadnum(); t->again = t->num;
	if (t->stay) { pthread_mutex_lock(t->m); t->ready = 1; pthread_cond_broadcast(t->c); while (!*t->go) pthread_cond_wait(t->c, t->m); pthread_mutex_unlock(t->m); t->again = my_threadnum(); }
	return nullptr;
}
static void check_tmany(size_t n, size_t alive) {
	sched::restore_statics();
	pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; bool go = false;
	std::vector<Many> ts(n); std::vector<pthread_t> id(n); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 65536);
	for (size_t i = 0; i < n; i++) {
		ts[i] = { 0, -1, -1, 0, &m, &c, &go, i % (n / alive + 1) == 0 };
		if (pthread_create(&id[i], &at, many_thread, &ts[i])) { fprintf(stderr, "mc: no thread\n"); _exit(97); }
		if (ts[i].stay) { pthread_mutex_lock(&m); while (!ts[i].ready) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); } else pthread_join(id[i], nullptr);
		MC_CHECK(ts[i].num == (int)i, "thread %zu got number %d", i, ts[i].num); tr();
	}
	pthread_mutex_lock(&m); go = true; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m);
	for (size_t i = 0; i < n; i++) { if (ts[i].stay) pthread_join(id[i], nullptr); MC_CHECK(ts[i].again == (int)i, "the number of thread %zu changed to %d", i, ts[i].again); }
	pthread_attr_destroy(&at); state(mix(4, n)); valid();
}

// ---------------------------------------------------------------------- spool directory
static Str spool;
static void put(const Str &p, const Str &d) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, d.data(), d.size()) < 0) { fprintf(stderr, "mc: cannot write %s\n", p.c_str()); _exit(97); } close(fd); }
static Str get(const Str &p) { char b[300]; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "(missing)"; ssize_t n = read(fd, b, sizeof b); close(fd); return Str(b, n > 0 ? n : 0); }
static void empty(const Str &p) {
	DIR *d = opendir(p.c_str()); if (!d) return; std::vector<Str> v;
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
	closedir(d); for (auto &n : v) unlink((p + "/" + n).c_str());
}
struct SProg : sched::Program {
	int files, polls, late, third; struct spooldir *s; std::map<Str, Str> data; std::vector<std::pair<Str, Str>> got[3]; bool rfail;
	void setup() override {
		empty(spool + "/incoming"); empty(spool + "/active"); data.clear(); for (auto &g : got) g.clear();
		Lib in; s = spooldir_init(spool.c_str());
		for (int i = 0; i < files; i++) add(i);
	}
	void add(int i) { Str n = "f" + std::to_string(i); data[n] = "content of " + n; put(spool + "/stage", data[n]); rename((spool + "/stage").c_str(), (spool + "/incoming/" + n).c_str()); }
	void thread(int t) override {
		if (t == 2 || (late && !third && t == 1)) { for (int i = 0; i < late; i++) { sched::pseudo(21, true); add(files + i); } return; }
		for (int i = 0; i < polls; i++) {
			char *r; { Lib in; r = spooldir_next(s); }
			sched::event(t * 10 + (r != nullptr));
			if (r) { Str p = r; got[t].push_back({ p, get(p) }); Lib in; sched::lfree(r); }
		}
	}
	void finish() override {
		std::set<Str> seen; size_t n = 0; uint64_t h = 9;
		auto one = [&](const Str &p, const Str &d, const char *who) {
			Str pre = spool + "/active/"; SC_CHECK(p.compare(0, pre.size(), pre) == 0, "%s got '%s', not a path in the active directory", who, p.c_str());
			Str nm = p.substr(pre.size());
			SC_CHECK(data.count(nm), "%s got '%s', which was never placed", who, nm.c_str());
			SC_CHECK(seen.insert(nm).second, "'%s' was returned twice", nm.c_str());
			SC_CHECK(d == data[nm], "%s: content of '%s' is '%s'", who, nm.c_str(), d.c_str());
			SC_CHECK(get(p) == data[nm], "%s: '%s' is not in the active directory any more", who, nm.c_str());
			n++; h = hstr(mix(h, who[7]), nm.c_str());
		};
		for (int t = 0; t < 3; t++) { char w[20]; snprintf(w, sizeof w, "thread %d", t); for (auto &g : got[t]) one(g.first, g.second, w); }
		for (int i = 0; i < 2 * (files + late) + 4 && n < data.size(); i++) { char *r; { Lib in; r = spooldir_next(s); } if (r) { one(r, get(r), "draining"); sched::lfree(r); } }
		SC_CHECK(n == data.size(), "only %zu of %zu files were handed out", n, data.size());
		DIR *d = opendir((spool + "/incoming").c_str()); while (struct dirent *e = readdir(d)) SC_CHECK(e->d_name[0] == '.', "'%s' is still in incoming", e->d_name); closedir(d);
		{ Lib in; spooldir_destroy(&s); }
		state(h); valid();
	}
};
static void check_spoolt(const Case &c) {
	if (spool.empty()) { spool = Str(wdir()) + "/sp"; mkdir(spool.c_str(), 0755); char *r = realpath(spool.c_str(), nullptr); spool = r; free(r); }
	SProg p; p.files = c.b[0][0]; p.polls = c.b[0][1]; p.late = c.b[0][2]; p.third = c.b[0][3];
	sched::Opts o; o.threads = p.third ? 3 : 2; o.bound = c.b[0][4] == 255 ? -1 : c.b[0][4];
	uint64_t e0 = sched::n_exec; sched::stop_after_writes = true; sched::explore(p, o); info("schedules", sched::n_exec - e0);
	note("%d files, %d polls per thread, %d late arrivals, %d threads: %llu schedules", p.files, p.polls, p.late, o.threads, (unsigned long long)(sched::n_exec - e0));
}
extern "C" {
struct dirent *__wrap_readdir(DIR *d) { sched::pseudo(20, true); sched::pseudo(21, false); return readdir(d); }
void __wrap_rewinddir(DIR *d) { sched::pseudo(20, true); rewinddir(d); }
int __wrap_rename(const char *a, const char *b) { sched::pseudo(21, true); return rename(a, b); }
int __wrap_unlink(const char *a) { sched::pseudo(21, true); return unlink(a); }
int __wrap_stat(const char *p, struct stat *s) { sched::pseudo(21, false); return stat(p, s); }
int __wrap_fstatat(int fd, const char *p, struct stat *s, int f) { sched::pseudo(21, false); return fstatat(fd, p, s, f); }
}

// ---------------------------------------------------------------------- enumeration
static void enum_qseq() {
	int L = thorough ? 16 : 12;
	for (int im = 0; im < 3; im++) for (unsigned slots : { 2, 4, 8 }) for (unsigned es : { 1, 4, 17 }) for (int rep = 0; rep < 3; rep++) {
		if (rep && es != 4) continue;
		for (uint32_t m = 0; m < (1u << L); m++) { Bytes s; for (int i = 0; i < L; i++) s.push_back(m >> i & 1); run(K_QSEQ, { B({ im, rep }), num(slots), num(es), s }); }
	}
	// longer regular histories over other sizes: fill f, empty e, repeated, wrapping around at every offset
	for (int im = 0; im < 2; im++) for (unsigned slots : { 2, 4, 16, 64, 256 }) for (unsigned es : { 1, 2, 3, 7, 8, 9, 64, 255, 4096 }) for (unsigned f = 1; f <= slots + 1; f += slots > 16 ? slots / 8 : 1) for (unsigned e = 1; e <= f; e += slots > 16 ? slots / 8 : 1) {
		Bytes s; for (int rnd = 0; s.size() < (thorough ? 2000 : 400) && rnd < 200; rnd++) { app(s, rep(1, f)); app(s, rep(0, e)); }
		run(K_QSEQ, { B({ im, 0 }), num(slots), num(es), s });
	}
	// the largest first: it occupies one worker and more than four gigabytes for some seconds
	for (size_t pre : { 0, 3 }) { if (pre && !thorough) break; run(K_QBIG, { num(4), num(1ull << 31), num(pre) }); }
	for (size_t slots : { 512, 1024, 32768, 65536, 131072, 1 << 18 }) for (size_t es : { 1, 2, 5, 8, 16 }) for (size_t pre : { (size_t)0, (size_t)1, slots / 2, slots - 1 }) run(K_QBIG, { num(slots), num(es), num(pre) });
	for (size_t es : { 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 131073, 1 << 20 }) for (size_t slots : { 2, 4, 16, 64 }) for (size_t pre : { (size_t)0, slots / 2, slots - 1, slots }) run(K_QBIG, { num(slots), num(es), num(pre) });
	uint64_t step = 1 << 22, full = 1ull << 32;
	for (int im = 0; im < 3; im++) {
		for (unsigned es : { 1, 4, 100 }) run(K_QINIT, { B({ im }), num(0), num(70000), num(es) });
		for (uint64_t a = 0; a < full; a += step) if (thorough || (a & (a - 1)) == 0 || (a + step & (a + step - 1)) == 0) run(K_QINIT, { B({ im }), num(a), num(thorough ? a + step : a + step / 8), num(1) });
		for (int k = 1; k < 32; k++) run(K_QINIT, { B({ im }), num((1ull << k) - 1), num((1ull << k) + 2), num(2) });
		run(K_QINIT, { B({ im }), num(full - 70000), num(full), num(1) });
	}
}
static void enum_qcon() {
	// im, slots, es, pre, fill, np, nc, rep, bound
	auto go = [&](std::initializer_list<int> l) { run(K_QCON, { B(l) }); };
	for (int im = 0; im < 2; im++) for (int np = 0; np <= 2; np++) for (int nc = 0; nc <= 2; nc++) for (int slots : { 2, 4 }) for (int pre = 0; pre < slots; pre++) for (int f = 0; f < slots; f++) for (int es : { 1, 2 }) go({ im, slots, es, pre, f, np, nc, 0, 255 });
	int N = thorough ? 5 : 4;
	for (int im = 0; im < 2; im++) for (int slots : { 2, 4, 8 }) for (int f = 0; f < slots; f++) for (int pre : { 0, slots - 1 }) for (int es : { 1, 3 }) for (int rep = 0; rep < 2; rep++) for (int np = 3; np <= N; np++) for (int nc = 3; nc <= N; nc++) {
		if (es == 3 && (rep || (!thorough && np + nc > 6))) continue;
		go({ im, slots, es, pre, f, np, nc, rep, 255 });
	}
}
void mc::enumerate() {
	if (!strcmp(property, "C23")) {
#ifdef SEQUENTIAL
		enum_qseq();
#else
		enum_qcon();
#endif
	} else if (!strcmp(property, "C34")) {
		for (int n = 1; n <= 2; n++) run(K_TNUM, { B({ n, 255 }) });
		run(K_TNUM, { B({ 3, thorough ? 255 : 3 }) });
		if (!thorough) run(K_TNUM, { B({ 3, 255 }) });
		for (int n : { 1, 2, 17, 65, 129, 257, 1025, 4097, 33000, 66000 }) run(K_TMANY, { num(n), num(100) });
	} else {
		for (int third = 0; third < 2; third++) for (int late = third; late <= 2; late++) for (int files = 0; files <= 3; files++) for (int polls = 1; polls <= 3; polls++) {
			if (!third && late == 0) { run(K_SPOOLT, { B({ files, polls, 0, 0, thorough ? 4 : 3 }) }); continue; }
			int bound = third ? (thorough ? 2 : polls == 1 ? 2 : 1) : thorough ? 5 : 3;
			run(K_SPOOLT, { B({ files, polls, late, third, bound }) });
		}
	}
}
void mc::check(const Case &c) {
	switch (c.kind) {
	case K_QSEQ: check_qseq(c); break;
	case K_QBIG: check_qbig(c); break;
	case K_QCON: check_qcon(c); break;
	case K_QINIT: check_qinit(c); break;
	case K_TNUM: check_tnum(c); break;
	case K_SPOOLT: check_spoolt(c); break;
	case K_TMANY: check_tmany(getnum(c.b[0]), getnum(c.b[1])); break;
	}
}
