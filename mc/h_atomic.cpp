// C37 atomic counters and pointers: every interleaving of short programs must agree with some order of whole operations
#include "sched.hpp"
#include <functional>
extern "C" { int64_t s_atomic(int width, int op, int64_t i); void *s_ptr_get(void); bool s_ptr_set(void *); }
using namespace mc;
using sched::Lib;
enum { K_SEQ, K_CON, K_PTR };
const char *mc::kind_names[] = { "one thread(width, start value, [operation, operand]...)", "all interleavings of atomic operations(width, start value, operations of each thread)", "all interleavings of pointer operations(operations of each thread)" };
static const char *OP[] = { "add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test", "inc_and_test", "add_negative", "read", "set" };
struct Step { int op; int64_t i; };
static int64_t wrap(int width, __int128 x) { return width == 32 ? (int64_t)(int32_t)(uint32_t)x : (int64_t)(uint64_t)x; }
// the operation on a value: new value and result (results of tests: only their truth)
static void model(int width, const Step &s, int64_t &v, int64_t &r) {
	r = 0; __int128 x = v;
	switch (s.op) {
	case 0: x += s.i; break; case 1: x -= s.i; break; case 2: r = v; x = 0; break;
	case 3: x -= s.i; r = wrap(width, x) == 0; break; case 4: x += 1; break; case 5: x -= 1; break;
	case 6: x -= 1; r = wrap(width, x) == 0; break; case 7: x += 1; r = wrap(width, x) == 0; break;
	case 8: x += s.i; r = wrap(width, x) < 0; break; case 9: r = v; break; case 10: x = s.i; break;
	}
	v = wrap(width, x);
}
static int64_t call(int width, const Step &s) { int64_t r = s_atomic(width, s.op, s.i); if (s.op == 3 || (s.op >= 6 && s.op <= 8)) r = r != 0; return r; }
static std::vector<Step> steps(const Bytes &b) { std::vector<Step> v; for (size_t i = 0; i + 9 <= b.size(); i += 9) { Step s; s.op = b[i]; s.i = getnum(sub(b, i + 1, 8)); v.push_back(s); } return v; }
static Bytes enc(int op, int64_t i) { return cat({ B({ op }), num(i) }); }

struct AProg : sched::Program {
	int width; int64_t start; std::vector<Step> t[3]; std::vector<int64_t> r[3];
	void setup() override { Lib in; s_atomic(width, 10, start); for (auto &x : r) x.clear(); }
	void thread(int k) override { for (auto &s : t[k]) { int64_t x; { Lib in; x = call(width, s); } tr(); r[k].push_back(x); sched::event(mix(k, x)); } }
	bool find(size_t *at, int64_t v, int64_t want) {
		bool end = true;
		for (int k = 0; k < 3; k++) if (at[k] < t[k].size()) {
			end = false; int64_t nv = v, x; model(width, t[k][at[k]], nv, x);
			if (x != r[k][at[k]]) continue;
			at[k]++; bool ok = find(at, nv, want); at[k]--; if (ok) return true;
		}
		return end && v == want;
	}
	void finish() override {
		int64_t v; { Lib in; v = s_atomic(width, 9, 0); }
		size_t at[3] = {}; char b[300]; size_t n = 0;
		for (int k = 0; k < 3; k++) for (size_t i = 0; i < t[k].size(); i++) n += snprintf(b + n, sizeof b - n, " %d:%s(%lld)=%lld", k, OP[t[k][i].op], (long long)t[k][i].i, (long long)r[k][i]);
		SC_CHECK(find(at, start, v), "%d-bit counter starting at %lld,%s: the final value %lld and the results fit no order of the operations", width, (long long)start, b, (long long)v);
		state(mix(hstr(width, b), v)); valid();
	}
};
static char cells[4];
struct PProg : sched::Program {
	std::vector<int> t[2]; std::vector<long> r[2];
	static long id(void *p) { return p ? 1 + ((char *)p - cells) : 0; }
	void setup() override { Lib in; s_ptr_set(nullptr); for (auto &x : r) x.clear(); }
	void thread(int k) override { for (int o : t[k]) { long x; { Lib in; x = o == 9 ? id(s_ptr_get()) : s_ptr_set(o ? &cells[o - 1] : nullptr); } tr(); r[k].push_back(x); sched::event(mix(k, x)); } }
	bool find(size_t *at, long v, long want) {
		bool end = true;
		for (int k = 0; k < 2; k++) if (at[k] < t[k].size()) {
			end = false; int o = t[k][at[k]]; long x = r[k][at[k]], nv = v;
			if (o == 9) { if (x != v) continue; } else if (x) nv = o; else if (t[1 - k].empty()) continue;      // refused: only because of the other thread
			at[k]++; bool ok = find(at, nv, want); at[k]--; if (ok) return true;
		}
		return end && v == want;
	}
	void finish() override {
		long v; { Lib in; v = id(s_ptr_get()); } size_t at[2] = {}; uint64_t h = v; bool other = false;
		for (int k = 0; k < 2; k++) { bool sets = false; for (size_t i = 0; i < t[k].size(); i++) { h = mix(h, r[k][i]); sets |= t[k][i] != 9; } if (k == 0) other = sets; }
		SC_CHECK(find(at, 0, v), "pointer operations: the final pointer %ld and the results fit no order of the operations", v);
		// somebody's update succeeds
		bool any = false, okd = false; for (int k = 0; k < 2; k++) for (size_t i = 0; i < t[k].size(); i++) if (t[k][i] != 9) { any = true; okd |= r[k][i] != 0; }
		SC_CHECK(!any || okd, "no update of the pointer succeeded");
		(void)other; state(h); valid();
	}
};
void mc::check(const Case &c) {
	sched::Opts o; o.threads = 2; o.stateful = true; uint64_t e0 = sched::n_exec;
	if (c.kind == K_PTR) { PProg p; for (int k = 0; k < 2; k++) for (uint8_t x : c.b[k]) p.t[k].push_back(x); sched::explore(p, o); }
	else {
		AProg p; p.width = c.b[0][0]; p.start = getnum(c.b[1]); for (size_t k = 2; k < c.b.size() && k < 5; k++) p.t[k - 2] = steps(c.b[k]);
		if (!p.t[2].empty()) o.threads = 3;
		sched::explore(p, o);
	}
	info("schedules", sched::n_exec - e0); note("%llu schedules", (unsigned long long)(sched::n_exec - e0));
}
void mc::enumerate() {
	for (int width : { 32, 64 }) {
		int64_t mx = width == 32 ? INT32_MAX : INT64_MAX, mn = -mx - 1;
		std::vector<int64_t> starts = { 0, 1, -1, 2, -2, mx, mn, mn + 1, mx - 1, 0x10000, width == 64 ? 0xffffffffll : 255, width == 64 ? -0x100000000ll : -256, width == 64 ? 0x100000000ll : 256 };
		std::vector<int64_t> opnd = { 0, 1, -1, 2, mx, mn, mn + 1, width == 64 ? 0x100000000ll : 65536 };
		auto arg = [&](int op) { return op == 0 || op == 1 || op == 3 || op == 8 || op == 10; };
		std::vector<Bytes> all; for (int op = 0; op <= 10; op++) { if (arg(op)) for (int64_t i : opnd) all.push_back(enc(op, i)); else all.push_back(enc(op, 0)); }
		for (int64_t s : starts) for (auto &a : all) { run(K_SEQ, { B({ width }), num(s), a }); for (auto &b : all) run(K_SEQ, { B({ width }), num(s), cat({ a, b }) }); }
		std::vector<Bytes> few; for (int op = 0; op <= 10; op++) { few.push_back(enc(op, 1)); if (arg(op)) few.push_back(enc(op, -2)); }
		for (int64_t s : { (int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2 }) {
			for (auto &a : few) for (auto &b : few) { run(K_CON, { B({ width }), num(s), a, b }); if (mc::thorough || s == 1) for (auto &d : few) { run(K_CON, { B({ width }), num(s), cat({ a, b }), d }); if (mc::thorough) for (auto &e : few) run(K_CON, { B({ width }), num(s), cat({ a, b }), cat({ d, e }) }); } }
			std::vector<Bytes> f3; for (int op : { 0, 3, 2, 6, 7, 8 }) f3.push_back(enc(op, 1));
			for (auto &a : f3) for (auto &b : f3) for (auto &d : f3) run(K_CON, { B({ width }), num(s), a, b, d });
		}
	}
	std::vector<Bytes> ps = { Bytes() }; for (int len = 1; len <= (mc::deepest ? 4 : mc::thorough ? 3 : 2); len++) { int total = 1; for (int i = 0; i < len; i++) total *= 4; for (int k = 0; k < total; k++) { Bytes b; int q = k; for (int i = 0; i < len; i++) { const int o[] = { 9, 1, 2, 0 }; b.push_back(o[q % 4]); q /= 4; } ps.push_back(b); } }
	for (auto &a : ps) for (auto &b : ps) run(K_PTR, { a, b });
}
