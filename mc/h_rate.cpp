// C35 rate limiter under a virtual clock, C36 time arithmetic
#include "mc.hpp"
#include <time.h>
#include <sys/time.h>
#include <errno.h>
#include <math.h>
struct my_rate;
extern "C" {
#define D(v) struct my_rate *my_rate_init##v(unsigned, unsigned); void my_rate_destroy##v(struct my_rate **); void my_rate_sleep##v(struct my_rate *);
D(0) D(1) D(2)
void s_ts_add(const struct timespec *, struct timespec *); void s_ts_sub(const struct timespec *, struct timespec *); double s_ts_to_double(const struct timespec *); void s_ts_from_double(double, struct timespec *); void s_nanosleep(const struct timespec *);
int vt_clock_gettime(clockid_t, struct timespec *); int vt_gettimeofday(struct timeval *, void *); int vt_nanosleep(const struct timespec *, struct timespec *); int vt_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int vt_usleep(unsigned);
}
using namespace mc;
typedef int64_t i64; typedef __int128 i128;
static const i64 G = 1000000000;
enum { K_RATE, K_ADJ, K_LONG, K_ADD, K_DBL, K_NANO };
const char *mc::kind_names[] = { "rate limiter(implementation, rate, start of the clock, [gap before the call, kind of sleep]...)", "adjusting rate limiter(implementation, rate, frequency, start of the clock, [gap, kind of sleep]...)",
	"many calls(implementation, rate, frequency, calls, gap of the first half, gap of the second half, oversleeping)", "add and subtract(seconds, nanoseconds, seconds, nanoseconds)", "conversion(seconds, nanoseconds)", "nanosleep helper(duration, interruptions)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// ---- the virtual world
static i64 vt, res = 1, slept_to, over; static int intr, nsleeps; static bool intr_now; static i64 intr_part;
static i64 up(i64 t) { return (t + res - 1) / res * res; }
static void chkts(const struct timespec *t) { MC_CHECK(t->tv_nsec >= 0 && t->tv_nsec < G, "a time with %ld nanoseconds is handed to the system", t->tv_nsec); }
int vt_clock_gettime(clockid_t, struct timespec *t) { i64 v = vt; t->tv_sec = v / G; t->tv_nsec = v % G; return 0; }
int vt_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = vt / G; tv->tv_usec = vt % G / 1000; return 0; }
// sleep until the absolute time 'to'; true if a signal interrupts it
static bool sleep_to(i64 to) {
	nsleeps++; MC_CHECK(nsleeps < 1000, "sleeping does not end");
	if (to <= vt) { slept_to = std::max(slept_to, to); return false; }
	slept_to = std::max(slept_to, to);
	if (intr > 0) { intr--; vt = std::min(up(vt + (to - vt) / 4 * intr_part), up(to)); return true; }
	vt = up(to + over); return false;
}
int vt_nanosleep(const struct timespec *r, struct timespec *m) {
	chkts(r); MC_CHECK(r->tv_sec >= 0, "a negative duration is slept");
	if (r->tv_sec > 4000000000) mc::fail("sleeping for %lld seconds", (long long)r->tv_sec);
	i64 to = vt + r->tv_sec * G + r->tv_nsec;
	if (!sleep_to(to)) return 0;
	i64 left = std::max<i64>(to - vt, 0); if (m) { m->tv_sec = left / G; m->tv_nsec = left % G; }
	errno = EINTR; return -1;
}
int vt_clock_nanosleep(clockid_t, int f, const struct timespec *r, struct timespec *m) {
	chkts(r);
	i64 to = (f & TIMER_ABSTIME ? 0 : vt) + r->tv_sec * G + r->tv_nsec;
	if (!sleep_to(to)) return 0;
	if (m && !(f & TIMER_ABSTIME)) { i64 left = std::max<i64>(to - vt, 0); m->tv_sec = left / G; m->tv_nsec = left % G; }
	return EINTR;
}
int vt_usleep(unsigned u) { struct timespec t = { u / 1000000, u % 1000000 * 1000 }; return vt_nanosleep(&t, nullptr); }

struct Imp { struct my_rate *(*init)(unsigned, unsigned); void (*destroy)(struct my_rate **); void (*sleep)(struct my_rate *); };
static const Imp imps[] = { { my_rate_init0, my_rate_destroy0, my_rate_sleep0 }, { my_rate_init1, my_rate_destroy1, my_rate_sleep1 }, { my_rate_init2, my_rate_destroy2, my_rate_sleep2 } };

// kinds of sleep: exact, slightly late, a period late, two seconds late, interrupted once halfway, at once and again, three times, interrupted at the very end
static const int NS = 8;
static void arm(int k, i64 p) {
	over = k == 1 ? 50000 : k == 2 ? p : k == 3 ? 2 * G : 0;
	intr = k == 4 ? 1 : k == 5 ? 2 : k == 6 ? 3 : k == 7 ? 1 : 0; intr_part = k == 5 ? 0 : k == 7 ? 4 : 2;
}
static const int NGAP = 10;
static i64 gap(int g, i64 p) { const i64 t[] = { 0, p / 2, p - 1, p, p + 1, 1, 2 * p + 3, G, 7 * G + 3 * p / 2, p / 3 }; return up(std::max<i64>(t[g], 0)); }

struct Run {
	const Imp &im; struct my_rate *r; i64 p, lo, hi, last = -1; i64 cellsec = -1; i64 cell = -1; uint64_t h; i64 n = 0; i64 slotsec = -1; i64 slotn = 0; unsigned rate, freq;
	Run(int imp, unsigned rate, unsigned freq, i64 start) : im(imps[imp]), rate(rate), freq(freq) {
		res = imp == 0 ? 1000 : 1; vt = up(start); p = G / rate; h = mix(rate, freq);
		hi = freq ? 2 * (p + 1) : p + 1; hi += 2 + res;
		r = im.init(rate, freq); MC_CHECK(r != nullptr, "no rate limiter");
	}
	void call(i64 gapns, int kind) {
		vt += gapns; i64 a = vt; slept_to = -1; nsleeps = 0; arm(kind, p);
		im.sleep(r); tr(); n++;
		i64 d = slept_to < 0 ? 0 : slept_to - a;
		MC_CHECK(d <= hi, "call %lld at %lld.%09lld with rate %u is delayed by %lld ns, one period is %lld ns", (long long)n, (long long)(a / G), (long long)(a % G), rate, (long long)d, (long long)p);
		MC_CHECK(nsleeps <= 6, "one call sleeps %d times", nsleeps);
		if (!freq && last >= 0 && a >= last + p + 2) MC_CHECK(d <= 0, "call %lld, %lld ns after the previous one was released, is delayed by %lld ns although the period is %lld ns", (long long)n, (long long)(a - last), (long long)d, (long long)p);
		MC_CHECK(vt >= slept_to, "call %lld is released %lld ns before the time it was to sleep to", (long long)n, (long long)(slept_to - vt));
		if (!freq && p) {
			i64 tol = G % rate == 0 ? 0 : 2 * (i64)rate + 2;
			i64 s = vt / G, c = vt % G / p;
			if (last >= 0 && p > 2 * tol) MC_CHECK(!(last / G == s && last % G / p == c && vt % G < (c + 1) * p - tol), "with rate %u two calls are released in the same period, at %lld.%09lld and .%09lld", rate, (long long)(last / G), (long long)(last % G), (long long)(vt % G));
			if (s != slotsec) { slotsec = s; slotn = 0; }
			slotn++;
			MC_CHECK(slotn <= (i64)rate + 1 + (tol && p <= 2 * tol ? 2 : 0), "with rate %u the call at %lld.%09lld is number %lld of this second", rate, (long long)s, (long long)(vt % G), (long long)slotn);
		}
		last = vt; h = mix(h, vt - a);
	}
	~Run() { im.destroy(&r); }
};

static void do_rate(const Bytes &c, unsigned rate, unsigned freq, i64 start, const Bytes &steps) {
	{
		Run x(c[0], rate, freq, start);
		for (size_t i = 0; i + 1 < steps.size(); i += 2) x.call(gap(steps[i], x.p), steps[i + 1]);
		state(x.h); valid(); note("rate=%u freq=%u released last at %lld.%09lld", rate, freq, (long long)(vt / G), (long long)(vt % G));
		x.im.destroy(&x.r); MC_CHECK(x.r == nullptr, "destroying leaves a pointer"); x.im.sleep(nullptr); x.im.destroy(&x.r);
	}
}
// a long history; afterwards the limiter still limits, within a factor of two
static void do_long(int imp, unsigned rate, unsigned freq, i64 calls, int g1, int g2, int kind) {
	Run x(imp, rate, freq, 5 * G + 123456789);
	for (i64 i = 0; i < calls; i++) x.call(gap(i < calls / 2 ? g1 : g2, x.p), kind);
	// busy caller without adjustment steps in between: nominal rate within a factor of two
	i64 t0 = vt; i64 k = 0, lim = std::max<i64>(2 * G, 8 * x.p); uint64_t cap = (unsigned)(lim / std::max<i64>(x.p, 1)) * 4 + 100; bool few = rate <= 2000;
	if (few && (freq == 0 || freq > cap)) {
		while (vt - t0 < lim) { x.call(0, 1); k++; MC_CHECK((uint64_t)k <= cap, "after %lld calls the limiter lets %lld calls through in %lld ns", (long long)calls, (long long)k, (long long)(vt - t0)); }
		i64 s = lim / x.p;
		MC_CHECK(k <= 2 * s + 6 && k >= s / 2 - 3, "after %lld calls the limiter with rate %u lets %lld calls through in %lld ns", (long long)calls, rate, (long long)k, (long long)lim);
		if (freq == 0) MC_CHECK(k <= s + 3 && k >= s - 3 - s / 8, "after %lld calls the limiter with rate %u lets %lld calls through in %lld ns", (long long)calls, rate, (long long)k, (long long)lim);
	}
	state(mix(x.h, k)); valid(); note("rate=%u freq=%u then %lld calls in %lld s", rate, freq, (long long)k, (long long)(lim / G));
}

// ------------------------------------------------------------------------------------- C36
static struct timespec T(i64 s, i64 n) { struct timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }
static void do_add(i64 as, i64 an, i64 bs, i64 bn) {
	struct timespec a = T(as, an), b = T(bs, bn), a0 = a, s = b;
	s_ts_add(&a, &s); tr();
	MC_CHECK(a.tv_sec == a0.tv_sec && a.tv_nsec == a0.tv_nsec, "the first operand is changed");
	i128 w = (i128)as * G + an + (i128)bs * G + bn, g = (i128)s.tv_sec * G + s.tv_nsec;
	MC_CHECK(w == g && s.tv_nsec >= 0 && s.tv_nsec < G, "%lld.%09lld + %lld.%09lld gives {%lld, %ld}", (long long)as, (long long)an, (long long)bs, (long long)bn, (long long)s.tv_sec, s.tv_nsec);
	struct timespec d = b; s_ts_sub(&a, &d); tr();
	w = (i128)bs * G + bn - ((i128)as * G + an); g = (i128)d.tv_sec * G + d.tv_nsec;
	MC_CHECK(w == g && d.tv_nsec >= 0 && d.tv_nsec < G, "%lld.%09lld - %lld.%09lld gives {%lld, %ld}", (long long)bs, (long long)bn, (long long)as, (long long)an, (long long)d.tv_sec, d.tv_nsec);
	s_ts_sub(&b, &s); MC_CHECK(s.tv_sec == as && s.tv_nsec == an, "adding and subtracting %lld.%09lld is not neutral", (long long)bs, (long long)bn);
	state(mix(mix(s.tv_sec, d.tv_sec), d.tv_nsec)); valid();
}
static void do_dbl(i64 s, i64 n) {
	struct timespec t = T(s, n); double d = s_ts_to_double(&t), w = (double)s + (double)n / 1e9; tr();
	MC_CHECK(fabs(d - w) <= fabs(w) * 1e-15 + 1e-12, "%lld.%09lld converts to %.17g", (long long)s, (long long)n, d);
	struct timespec u; memset(&u, 0xaa, sizeof u); s_ts_from_double(d, &u); tr();
	MC_CHECK(u.tv_nsec >= 0 && u.tv_nsec <= G, "%.17g converts to {%lld, %ld}", d, (long long)u.tv_sec, u.tv_nsec);
	double err = fabs(((double)u.tv_sec - (double)s) * 1e9 + ((double)u.tv_nsec - (double)n)), eps = fabs(w) * 4.5e-16 * 1e9 + 1.5;
	MC_CHECK(err <= eps, "%.17g converts to {%lld, %ld} instead of {%lld, %lld}", d, (long long)u.tv_sec, u.tv_nsec, (long long)s, (long long)n);
	state(mix(u.tv_sec, u.tv_nsec)); valid();
}
static void do_nano(i64 ns, int n, int part) {
	res = 1; vt = 77 * G + 5; i64 t0 = vt; over = 0; intr = n; intr_part = part; nsleeps = 0; slept_to = -1;
	struct timespec t = T(ns / G, ns % G), t1 = t; s_nanosleep(&t); tr();
	MC_CHECK(vt >= t0 + ns, "sleeping %lld ns with %d interruptions ends after %lld ns", (long long)ns, n, (long long)(vt - t0));
	MC_CHECK(vt == t0 + ns, "sleeping %lld ns with %d interruptions takes %lld ns", (long long)ns, n, (long long)(vt - t0));
	MC_CHECK(t.tv_sec == t1.tv_sec && t.tv_nsec == t1.tv_nsec, "the duration is changed");
	state(mix(ns, nsleeps)); valid();
}

void mc::check(const Case &c) {
	auto &b = c.b; auto N = [&](int i) { return (i64)getnum(b[i]); };
	switch (c.kind) {
	case K_RATE: do_rate(b[0], N(1), 0, N(2), b[3]); break;
	case K_ADJ: do_rate(b[0], N(1), N(2), N(3), b[4]); break;
	case K_LONG: do_long(b[0][0], N(1), N(2), N(3), N(4), N(5), N(6)); break;
	case K_ADD: do_add(N(0), N(1), N(2), N(3)); break;
	case K_DBL: do_dbl(N(0), N(1)); break;
	case K_NANO: do_nano(N(0), N(1), N(2)); break;
	}
}
void mc::enumerate() {
	if (P("C36")) {
		const i64 ss[] = { 0, 1, 2, 59, 86400, 2147483646, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 100000000000ll, -1, -2, -2147483648ll, -2147483649ll }, ns[] = { 0, 1, 2, 499999999, 500000000, 500000001, 999999998, 999999999 };
		for (i64 a : ss) for (i64 b : ns) for (i64 c : ss) for (i64 d : ns) run(K_ADD, { num(a), num(b), num(c), num(d) });
		for (int k = 0; k < 1000; k++) for (i64 s : { 0ll, 1ll, 1000000ll, 2147483647ll, 2147483648ll, 8589934592ll, 1099511627775ll }) for (int o : { 0, 1, 999999 }) run(K_DBL, { num(s), num(k * 1000000 + o) });
		for (int s = 0; s < (mc::thorough ? 200000 : 20000); s++) run(K_DBL, { num(s), num((i64)s * 7919 % G) });
		for (i64 n : { (i64)0, (i64)1, (i64)2, (i64)999, (i64)999999999, G, G + 1, 3 * G + 5, 100 * G }) for (int k = 0; k <= 6; k++) for (int p : { 0, 1, 2, 3, 4 }) run(K_NANO, { num(n), num(k), num(p) });
		return;
	}
	const unsigned rates[] = { 1, 2, 3, 7, 10, 60, 100, 128, 999, 1000, 8192, 1000000, 3000000, 1000000000 };
	const i64 starts[] = { 0, 5 * G, 7 * G + 1, 100 * G + 999999999, 2147483647 * G + 500000000 };
	size_t depth = mc::thorough ? 4 : 3;
	for (int im = 0; im < 3; im++) for (unsigned r : rates) for (i64 st : starts) for (size_t len = 1; len <= depth; len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= NGAP * NS;
		size_t step = len < 3 ? 1 : len == 3 ? mc::thorough ? 1 : r == 10 || r == 3 ? 5 : 43 : 97;
		for (size_t k = 0; k < total; k += step) { Bytes s; size_t q = k; for (size_t i = 0; i < len; i++) { s.push_back(q % NGAP); q /= NGAP; s.push_back(q % NS); q /= NS; } run(K_RATE, { B({im}), num(r), num(st), s }); }
	}
	// adjusting at every first or second call
	for (int im = 0; im < 3; im++) for (unsigned r : { 1u, 2u, 3u, 10u, 1000u, 1000000u, 1000000000u, 4000000000u, 4294967295u }) for (unsigned f : { 1u, 2u, 3u }) for (i64 st : { (i64)0, 7 * G + 1, 100 * G + 999999999 }) for (size_t len = 3; len <= depth + 3; len++) {
		const int g[] = { 0, 3, 8 }, s[] = { 0, 3, 4 }; size_t total = 1; for (size_t i = 0; i < len; i++) total *= 9;
		size_t step = len <= 4 ? 1 : len == 5 ? 7 : 101;
		for (size_t k = 0; k < total; k += step) { Bytes x; size_t q = k; for (size_t i = 0; i < len; i++) { x.push_back(g[q % 3]); q /= 3; x.push_back(s[q % 3]); q /= 3; } run(K_ADJ, { B({im}), num(r), num(f), num(st), x }); }
	}
	for (int im = 0; im < 3; im++) for (unsigned r : { 1u, 2u, 3u, 7u, 10u, 100u, 1000u, 1000000u }) for (unsigned f : { 0u, 1u, 2u, 7u, 10u, 100u, 20000u, mc::thorough ? 1000000u : 5000u }) for (int g1 : { 0, 3, 7 }) for (int g2 : { 0, 4, 8 }) for (int k : { 0, 1, 2, 4 }) run(K_LONG, { B({im}), num(r), num(f), num(f > 1000 ? f + f / 2 : f * 1500 + 500), num(g1), num(g2), num(k) });
}
