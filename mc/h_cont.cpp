// C24 heap, C29 vectors and string buffers, C30 trees and lists
#include "mc.hpp"
#include "shim_cont.h"
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <set>
extern "C" {
struct heap;
struct heap *heap_init(int (*)(const void *, const void *)); void heap_destroy(struct heap **); void heap_push(struct heap *, void *);
void *heap_pop(struct heap *); void *heap_replace(struct heap *, void *); void *heap_peek(struct heap *); void *heap_get(struct heap *, size_t); size_t heap_size(struct heap *);
}
using namespace mc;
enum { K_HEAPSEQ, K_HEAPPERM, K_HEAPFILL, K_VEC, K_UBUF, K_RB, K_SPLAY, K_LIST, K_HEAPBIG, K_VECBIG, K_UBUFBIG, K_TREEBIG };
const char *mc::kind_names[] = { "heap: all operation sequences below a prefix(prefix, depth)", "heap: pushes in this order, all pops and replaces(keys)", "heap: fill and drain(size, pattern)",
	"vector: all operation sequences below a prefix(type, hint, prefix, depth)", "string buffer: all operation sequences below a prefix(start, prefix, depth)",
	"red-black tree: all reachable trees(keys)", "splay tree: all reachable trees(keys)", "two linked lists: all reachable arrangements(elements)",
	"heap: many elements(size, pattern)", "vector: long runs(type, hint, length)", "string buffer: long texts(start, length)", "tree or list: many elements(which, size, pattern of insertion, pattern of removal)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// ------------------------------------------------------------------------------------- C24
struct Item { int key, id; };
static int icmp(const void *a, const void *b) { int x = ((const Item *)a)->key, y = ((const Item *)b)->key; static const int mag[] = { 1, 256, 65536, 0x7fffffff }; int v = mag[(unsigned)(x + y) % 4]; return x < y ? -v : x > y ? v : 0; }   // only the sign counts
struct HeapRun {
	struct heap *h; std::vector<Item *> in; std::deque<Item> pool; std::string tracep;
	HeapRun() { h = heap_init(icmp); }
	~HeapRun() { heap_destroy(&h); MC_CHECK(h == nullptr, "the handle of a destroyed heap is not cleared"); }
	int minkey() { int m = in[0]->key; for (auto i : in) m = std::min(m, i->key); return m; }
	Item *mk(int k) { pool.push_back({ k, (int)pool.size() }); return &pool.back(); }
	void take(const char *op, void *p) {
		if (in.empty()) { MC_CHECK(!p, "%s on an empty heap returns an element (%s)", op, tracep.c_str()); return; }
		auto it = std::find(in.begin(), in.end(), (Item *)p);
		MC_CHECK(it != in.end(), "%s returns %s (%s)", op, p ? "something that is not in the heap" : "nothing on a non-empty heap", tracep.c_str());
		MC_CHECK((*it)->key == minkey(), "%s returns %d although the heap holds %d (%s)", op, (*it)->key, minkey(), tracep.c_str());
		in.erase(it);
	}
	void push(int k) { Item *i = mk(k); heap_push(h, i); in.push_back(i); tr(); }
	void pop() { void *p = heap_pop(h); take("pop", p); tr(); }
	void replace(int k) { Item *i = mk(k); bool e = in.empty(); void *p = heap_replace(h, i); take("replace", p); if (!e) in.push_back(i); tr(); }
	void check() {
		size_t n = heap_size(h); MC_CHECK(n == in.size(), "size is %zu, %zu elements are inside (%s)", n, in.size(), tracep.c_str());
		void *p = heap_peek(h);
		if (in.empty()) MC_CHECK(!p, "peek on an empty heap returns an element (%s)", tracep.c_str());
		else { auto it = std::find(in.begin(), in.end(), (Item *)p); MC_CHECK(it != in.end() && (*it)->key == minkey(), "peek does not return a smallest element (%s)", tracep.c_str()); }
		uint64_t st = n; std::vector<void *> seen;
		for (size_t i = 0; i < n; i++) { void *q = heap_get(h, i); MC_CHECK(std::find(in.begin(), in.end(), (Item *)q) != in.end(), "element %zu is not in the heap (%s)", i, tracep.c_str()); MC_CHECK(std::find(seen.begin(), seen.end(), q) == seen.end(), "element %zu appears twice (%s)", i, tracep.c_str()); seen.push_back(q); st = mix(st, ((Item *)q)->key); }
		for (size_t i : { n, n + 1, n + 2, n + 1000, (size_t)-1, (size_t)1 << 63 }) MC_CHECK(!heap_get(h, i), "index %zu of %zu gives an element (%s)", i, n, tracep.c_str());
		state(st); tr(n + 4);
	}
	void op(int o) { // 0..3 push, 4..7 replace, 8 pop
		tracep += o < 4 ? "push " : o < 8 ? "replace " : "pop "; if (o < 8) tracep += std::to_string(o & 3) + " ";
		if (o < 4) push(o); else if (o < 8) replace(o & 3); else pop();
	}
};
static void heapseq(const Bytes &prefix, size_t depth) {
	size_t ext = depth - prefix.size(), tot = 1; for (size_t i = 0; i < ext; i++) tot *= 9;
	for (size_t k = 0; k < tot; k++) {
		HeapRun r; for (uint8_t o : prefix) r.op(o); size_t q = k;
		for (size_t i = 0; i < ext; i++) { r.op(q % 9); q /= 9; if (i + 1 < ext && k >= 1) continue; r.check(); }
		r.check(); r.tracep += "then drain"; while (!r.in.empty()) r.pop(); r.pop(); r.check();
	}
	add_cases(tot); valid(tot);
}
static void heapperm(const Bytes &keys) {
	for (int mode = 0; mode < 4; mode++) {
		HeapRun r; r.tracep = "push"; for (uint8_t k : keys) { r.push(k); r.tracep += " " + std::to_string(k); if (mode == 0) r.check(); }
		if (mode == 1) for (int k : { 0, 3, 9, 5 }) { r.tracep += " replace " + std::to_string(k); r.replace(k); r.check(); }
		if (mode == 2) { r.tracep += " pop pop push"; r.pop(); r.pop(); r.push(1); r.push(keys.size()); r.check(); }
		if (mode == 3) { for (size_t i = 0; i < keys.size() / 2; i++) r.pop(); for (uint8_t k : keys) r.push(k); r.check(); }
		r.tracep += " then drain"; while (!r.in.empty()) { r.pop(); if (mode == 0) r.check(); } r.pop(); r.check();
	}
	valid();
}
static void heapfill(size_t n, int pat) {
	HeapRun r; r.tracep = "fill"; for (size_t i = 0; i < n; i++) { int k = pat == 0 ? i : pat == 1 ? -(int)i : pat == 2 ? (i * 7919) % 1009 : pat == 3 ? 5 : i % 2 ? -(int)i : i; r.push(k); }
	r.check(); for (size_t i = 0; i < n / 2; i++) { if (pat == 2) r.replace((i * 31) % 997); else r.pop(); } r.check(); while (!r.in.empty()) r.pop(); r.pop(); r.check(); valid();
}
static void heapbig(size_t n, int pat) {
	struct It { Item i; bool in; }; std::vector<It> v(n); struct heap *h = heap_init(icmp); std::vector<int> keys;
	for (size_t i = 0; i < n; i++) { int k = pat == 0 ? i : pat == 1 ? -(int)i : pat == 2 ? (i * 7919) % 100003 : pat == 3 ? i % 2 ? -(int)i : i : i % 17; v[i] = { { k, (int)i }, true }; keys.push_back(k); heap_push(h, &v[i]); }
	std::sort(keys.begin(), keys.end()); MC_CHECK(heap_size(h) == n, "size is %zu after %zu pushes", heap_size(h), n);
	std::vector<bool> seen(n);
	for (size_t i = 0; i < n; i++) { It *q = (It *)heap_get(h, i); MC_CHECK(q >= v.data() && q < v.data() + n && !seen[q - v.data()], "element %zu of %zu is none or appears twice", i, n); seen[q - v.data()] = true; }
	for (size_t i : { n, n + 1, n + 65536, (size_t)-1 }) MC_CHECK(!heap_get(h, i), "index %zu of %zu gives an element", i, n);
	for (size_t i = 0; i < n; i++) {
		It *p = (It *)heap_peek(h); MC_CHECK(p && p->i.key == keys[i], "peek gives %d after %zu of %zu removals, expected %d", p ? p->i.key : -1, i, n, keys[i]);
		It *q = (It *)heap_pop(h); MC_CHECK(q && q->in && q->i.key == keys[i], "element %zu of %zu is %d, expected %d", i, n, q ? q->i.key : -1, keys[i]); q->in = false;
	}
	MC_CHECK(!heap_pop(h) && !heap_peek(h) && heap_size(h) == 0, "something is left");
	// half of them again; the others replace the smallest, which must come out in order
	size_t half = n / 2; std::multiset<int> m;
	for (size_t i = 0; i < half; i++) { heap_push(h, &v[i]); m.insert(v[i].i.key); }
	for (size_t i = half; i < n && half; i++) { It *q = (It *)heap_replace(h, &v[i]); MC_CHECK(q && q->i.key == *m.begin(), "replace gives %d, the smallest is %d", q ? q->i.key : -1, *m.begin()); m.erase(m.begin()); m.insert(v[i].i.key); }
	while (!m.empty()) { It *q = (It *)heap_pop(h); MC_CHECK(q && q->i.key == *m.begin(), "pop gives %d, the smallest is %d", q ? q->i.key : -1, *m.begin()); m.erase(m.begin()); }
	heap_destroy(&h); valid(); tr(4 * n); state(mix(n, pat));
}
static void C24() {
	for (size_t n : { 255, 256, 257, 1000, 4096, 32768, 32769, 65535, 65536, 65537, 140000 }) for (int p = 0; p < 5; p++) run(K_HEAPBIG, { num(n), num(p) });
	size_t D = thorough ? 8 : 6, pre = 3;
	for (size_t d = 0; d <= pre; d++) { size_t tot = 1; for (size_t i = 0; i < d; i++) tot *= 9; for (size_t k = 0; k < tot; k++) { Bytes p; size_t q = k; for (size_t i = 0; i < d; i++) { p.push_back(q % 9); q /= 9; } if (d == pre) for (size_t dd = pre; dd <= D; dd++) run(K_HEAPSEQ, { p, num(dd) }); else run(K_HEAPSEQ, { p, num(d) }); } }
	for (size_t n = 1; n <= (thorough ? 9u : 8u); n++) { Bytes p; for (size_t i = 0; i < n; i++) p.push_back(i); do run(K_HEAPPERM, { p }); while (std::next_permutation(p.begin(), p.end())); }
	for (size_t n = 1; n <= (thorough ? 12u : 11u); n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= 3; for (size_t k = 0; k < tot; k++) { Bytes p; size_t q = k; for (size_t i = 0; i < n; i++) { p.push_back(q % 3); q /= 3; } run(K_HEAPPERM, { p }); } }
	for (size_t n : { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200 }) for (int p = 0; p < 5; p++) run(K_HEAPFILL, { num(n), num(p) });
}

// ------------------------------------------------------------------------------------- C29
static const struct vops *VT[] = { &u8_ops, &u32_ops, &s12_ops, &ptr_ops };
struct VecRun {
	const struct vops *o; void *v; std::vector<uint64_t> m; uint64_t next = 1; std::string t; bool stack;
	VecRun(int type, unsigned hint, bool re) : o(VT[type]), stack(re) { v = re ? o->reinit(hint) : o->init(hint); check(); }
	~VecRun() { o->destroy(&v); MC_CHECK(!v, "the handle of a destroyed vector is not cleared"); }
	uint64_t fresh() { uint64_t r = next++; if (o == &u8_ops) r &= 255; return r; }
	void fresh_run(size_t k, uint64_t *first) { *first = next; for (size_t i = 0; i < k; i++) m.push_back(fresh()); }
	uint64_t norm(uint64_t x) { return o == &u8_ops ? x & 255 : x; }
	void check() {
		size_t n = o->size(v); MC_CHECK(n == m.size(), "size is %zu, expected %zu (%s)", n, m.size(), t.c_str());
		MC_CHECK(o->bytes(v) == n * o->esz, "bytes is %zu for %zu elements of %zu (%s)", o->bytes(v), n, o->esz, t.c_str());
		char *d = (char *)o->data(v); MC_CHECK((char *)o->ptr(v) == d + n * o->esz, "ptr is %zd elements behind data, size %zu (%s)", (ssize_t)((char *)o->ptr(v) - d) / (ssize_t)o->esz, n, t.c_str());
		for (size_t i = 0; i < n; i++) { uint64_t a = o->value(v, i), b = o->at(d, i); MC_CHECK(a == norm(m[i]) && b == a, "element %zu is %llu/%llu, expected %llu (%s)", i, (unsigned long long)a, (unsigned long long)b, (unsigned long long)m[i], t.c_str()); }
		tr(2 * n + 4);
	}
	void op(int c) {
		static const size_t AP[] = { 0, 1, 2, 3, 4, 7 }, RS[] = { 0, 1, 2, 3, 5, 9 }, AD[] = { 1, 2, 4 }, EX[] = { 0, 1, 3 };
		char b[40]; uint64_t f;
		if (c == 0) { t += "add "; f = next; m.push_back(fresh()); o->add(v, f); }
		else if (c < 7) { size_t k = AP[c - 1]; snprintf(b, 40, "append %zu ", k); t += b; fresh_run(k, &f); o->append(v, f, k); }
		else if (c < 13) { size_t k = RS[c - 7]; snprintf(b, 40, "reserve %zu ", k); t += b; o->reserve(v, k); o->write(v, 1000, k); }
		else if (c < 16) { size_t k = AD[c - 13]; snprintf(b, 40, "reserve+advance %zu ", k); t += b; o->reserve(v, k); fresh_run(k, &f); o->write(v, f, k); o->advance(v, k); }
		else if (c < 21) { size_t n = m.size(), k = c == 16 ? 0 : c == 17 ? n / 2 : c == 18 ? (n ? n - 1 : 0) : c == 19 ? n : n + 1; snprintf(b, 40, "clip %zu ", k); t += b; o->clip(v, k); if (k < m.size()) m.resize(k); }
		else if (c == 21) { t += "reset "; o->reset(v); m.clear(); }
		else if (c == 22) {
			t += "detach "; size_t sz = 999; void *d = o->detach(v, &sz); MC_CHECK(sz == m.size() && d, "detach hands over %zu elements, expected %zu (%s)", sz, m.size(), t.c_str());
			for (size_t i = 0; i < sz; i++) MC_CHECK(o->at(d, i) == norm(m[i]), "detached element %zu is wrong (%s)", i, t.c_str());
			if (sz) memset(d, 0xdd, sz * o->esz); free(d); m.clear();
		}
		else if (c < 26) { size_t k = EX[c - 23]; snprintf(b, 40, "extend %zu ", k); t += b; void *w = o->init(1); fresh_run(k, &f); o->append(w, f, k); o->extend(v, w); MC_CHECK(o->size(w) == k, "extend changes its source (%s)", t.c_str()); for (size_t i = 0; i < k; i++) MC_CHECK(o->value(w, i) == norm(f + i), "extend changes its source (%s)", t.c_str()); o->destroy(&w); }
		else { t += "extend-by-itself "; std::vector<uint64_t> c2 = m; o->extend(v, v); m.insert(m.end(), c2.begin(), c2.end()); }
		tr(); check(); uint64_t h = mix(m.size(), c); state(h);
	}
};
enum { VOPS = 27 };
static void vecseq(int type, unsigned hint, const Bytes &prefix, size_t depth) {
	size_t ext = depth - prefix.size(), tot = 1; for (size_t i = 0; i < ext; i++) tot *= VOPS;
	for (size_t k = 0; k < tot; k++) { VecRun r(type, hint & 0xff, hint & 0x100); for (uint8_t c : prefix) r.op(c); size_t q = k; for (size_t i = 0; i < ext; i++) { r.op(q % VOPS); q /= VOPS; } }
	add_cases(tot); valid(tot);
}
static void vecbig(int type, unsigned hint, size_t n) {
	VecRun r(type, hint, false); uint64_t f; r.t = std::to_string(n) + " elements at once";
	auto put = [&](size_t k) { r.fresh_run(k, &f); r.o->append(r.v, f, k); r.check(); };
	put(n); r.op(0); put(1); r.o->clip(r.v, n); r.m.resize(n); r.check();
	r.o->reserve(r.v, n); r.fresh_run(n, &f); r.o->write(r.v, f, n); r.o->advance(r.v, n); r.check();
	r.o->clip(r.v, n - 1); r.m.resize(n - 1); r.check(); { void *w = r.o->init(1); r.fresh_run(n, &f); r.o->append(w, f, n); r.o->extend(r.v, w); r.check(); r.o->destroy(&w); }
	r.op(26); r.op(19); r.op(18); r.op(17); r.op(22); put(n); r.op(21); put(3); r.op(0);
	for (size_t i = 0; i < n; i++) { f = r.next; r.m.push_back(r.fresh()); r.o->add(r.v, f); } r.check(); r.op(22); valid();
}
enum { UOPS = 25 };
struct UbRun {
	void *u; Bytes m; std::string t;
	UbRun(int start) { static const char *s[] = { "", "q", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef" }; if (start == 0) u = s_ubuf_new(); else if (start <= 3) { u = s_ubuf_dup_cstr(s[start - 1]); m = S(s[start - 1]); } else u = u8_ops.init(start - 3); check(); }
	~UbRun() { u8_ops.destroy(&u); }
	void check() {
		size_t n = u8_ops.size(u); uint8_t *d = (uint8_t *)u8_ops.data(u);
		MC_CHECK(n == m.size() && !memcmp(d, m.data(), n), "content is `%s' (%zu), expected `%s' (%zu) after %s", Esc(Bytes(d, d + n)).s, n, Esc(m).s, m.size(), t.c_str());
		MC_CHECK((uint8_t *)u8_ops.ptr(u) == d + n, "ptr is not behind the content (%s)", t.c_str()); tr();
	}
	void unz() { if (!m.empty() && !m.back()) m.pop_back(); }
	void cterm() { if (m.empty() || m.back()) m.push_back(0); }
	void op(int c) {
		static const int L[] = { 0, 1, 62, 63, 64, 65, 130 };
		t += std::to_string(c) + " ";
		std::string x;
		if (c < 3) { uint8_t e = c == 0 ? 'a' : c == 1 ? 0 : 'z'; u8_ops.add(u, e); m.push_back(e); }
		else if (c < 8) { x = std::string(c == 3 ? 0 : c == 4 ? 1 : c == 5 ? 62 : c == 6 ? 64 : 129, 'b'); s_ubuf_add_cstr(u, x.c_str()); unz(); app(m, S(x.c_str())); }
		else if (c == 8) { s_ubuf_cterm(u); cterm(); }
		else if (c == 9) { char *p = s_ubuf_cstr(u); cterm(); MC_CHECK(p == (char *)u8_ops.data(u) && p[m.size() - 1] == 0, "cstr is not the terminated content (%s)", t.c_str()); }
		else if (c < 17) { if (c == 16) { s_ubuf_fmt_d(u, -12, "w"); unz(); app(m, S("<-12:w>!")); } else { x = std::string(L[c - 10], 'f'); s_ubuf_fmt_s(u, x.c_str()); unz(); app(m, S(x.c_str())); } }
		else if (c < 20) { char s = c == 17 ? 'a' : c == 18 ? 0 : 'b'; s_ubuf_rstrip(u, s); if (!m.empty() && m.back() == (uint8_t)s) m.pop_back(); }
		else if (c == 20) { s_ubuf_lit(u); app(m, S("lit")); s_ubuf_append_cstr(u, "xyz", 2); app(m, S("xy")); }
		else if (c == 21) { u8_ops.reset(u); m.clear(); }
		else if (c == 22) { size_t sz = 0; uint8_t *d = (uint8_t *)u8_ops.detach(u, &sz); MC_CHECK(sz == m.size() && !memcmp(d, m.data(), sz), "detach hands over other content (%s)", t.c_str()); free(d); m.clear(); }
		else if (c == 23) { bool small = m.size() < 70; Exact e(B({ 0, 255, 'p' })); s_ubuf_pb(u, e.p, e.n); app(m, Bytes(e.p, e.p + e.n)); s_ubuf_pb(u, e.p, 0); for (int k : { 1, 63, 64, 65, 130, 257 }) { if (k > 1 && !small) continue; Bytes v; for (int i = 0; i < k; i++) v.push_back(i * 5 + 1); Exact l(v); s_ubuf_pb(u, l.p, k); app(m, Bytes(l.p, l.p + k)); } }
		else { s_ubuf_fmt_0(u); unz(); app(m, S("plain 100%")); u8_ops.add(u, 0xe9); m.push_back(0xe9); s_ubuf_rstrip(u, (char)0xe9); m.pop_back(); }
		tr(); check(); state(mix(m.size(), m.empty() ? 256 : m.back()));
	}
};
static void ubseq(int start, const Bytes &prefix, size_t depth) {
	size_t ext = depth - prefix.size(), tot = 1; for (size_t i = 0; i < ext; i++) tot *= UOPS;
	for (size_t k = 0; k < tot; k++) { UbRun r(start); for (uint8_t c : prefix) r.op(c); size_t q = k; for (size_t i = 0; i < ext; i++) { r.op(q % UOPS); q /= UOPS; } }
	add_cases(tot); valid(tot);
}
static void ubbig(int start, size_t n) {
	UbRun r(start); r.t = std::to_string(n) + " octets at once: "; std::string x(n, 'b'), y(n, 'f'); x[n - 1] = 'e'; y[0] = 'g'; Bytes eb(n); for (size_t i = 0; i < n; i++) eb[i] = (i * 7 + 3) & 255; Exact e(eb);
	auto chk = [&] { tr(); r.check(); };
	s_ubuf_add_cstr(r.u, x.c_str()); r.unz(); app(r.m, S(x.c_str())); chk(); s_ubuf_fmt_s(r.u, y.c_str()); r.unz(); app(r.m, S(y.c_str())); chk(); r.op(9); r.op(0);
	s_ubuf_fmt_s(r.u, x.c_str()); r.unz(); app(r.m, S(x.c_str())); chk(); s_ubuf_pb(r.u, e.p, e.n); app(r.m, Bytes(e.p, e.p + e.n)); chk(); r.op(2); s_ubuf_fmt_d(r.u, 7, y.c_str()); app(r.m, S("<7:")); app(r.m, S(y.c_str())); app(r.m, S(">!")); chk();
	s_ubuf_append_cstr(r.u, x.c_str(), n - 1); app(r.m, Bytes(x.begin(), x.end() - 1)); chk(); r.op(9); r.op(22); s_ubuf_add_cstr(r.u, y.c_str()); app(r.m, S(y.c_str())); chk(); r.op(8); s_ubuf_add_cstr(r.u, "!"); r.unz(); app(r.m, S("!")); chk(); r.op(21); r.op(5); r.op(22);
	{ void *d = s_ubuf_dup_cstr(x.c_str()); MC_CHECK(u8_ops.size(d) >= n && !memcmp(u8_ops.data(d), x.data(), n), "a copy of %zu octets differs", n); u8_ops.destroy(&d); }
	valid();
}
static void C29() {
	for (size_t n : { 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 131072, 1000000 }) {
		for (int type = 0; type < 4; type++) for (unsigned hint : { 0u, 1u, 3u, 64u, 255u }) if (n <= 131072 || (type == 0 && hint < 2)) run(K_VECBIG, { num(type), num(hint), num(n) });
		for (int start = 0; start < 7; start++) run(K_UBUFBIG, { num(start), num(n) });
	}
	for (int type = 0; type < 4; type++) for (unsigned hint : { 0u, 1u, 2u, 3u, 5u, 8u, 0x100u, 0x101u, 0x103u }) {
		size_t D = thorough ? (type < 2 && hint < 4 ? 5 : 4) : hint < 4 && type != 3 ? 4 : 3;
		for (int a = 0; a < VOPS; a++) { run(K_VEC, { num(type), num(hint), B({ a }), num(1) }); for (int b = 0; b < VOPS; b++) for (size_t d = 2; d <= D; d++) if (d == D || d == 2) { if (d < 5) run(K_VEC, { num(type), num(hint), B({ a, b }), num(d) }); else for (int c = 0; c < VOPS; c++) run(K_VEC, { num(type), num(hint), B({ a, b, c }), num(d) }); } }
	}
	for (int start = 0; start < 7; start++) for (int a = 0; a < UOPS; a++) for (int b = 0; b < UOPS; b++) { run(K_UBUF, { num(start), B({ a, b }), num(2) }); run(K_UBUF, { num(start), B({ a, b }), num(thorough ? 5 : 4) }); }
}

// ------------------------------------------------------------------------------------- C30
// breadth-first search over all reachable containers: a snapshot of the arena is a state
struct Bfs {
	struct Node { std::string snap; uint32_t parent; int op; };
	std::deque<Node> q; std::unordered_set<std::string> seen; void *a; size_t an; uint64_t depth = 0; const char *(*opname)(int); uint32_t cur = 0; int curop = -1;
	std::vector<std::pair<uint32_t, int>> par;
	Bfs(const char *(*n)(int)) : opname(n) { arena_init(); a = arena(&an); }
	std::string path() { std::string s; std::vector<int> ops; if (curop >= 0) ops.push_back(curop); for (uint32_t i = cur; i; i = par[i].first) ops.push_back(par[i].second); for (size_t i = ops.size(); i-- > 0;) { s += opname(ops[i]); s += i ? ", " : ""; } return s; }
	template <class Canon, class Ops, class Check> void go(int nops, Canon canon, Ops apply, Check chk) {
		seen.insert(canon()); q.push_back({ std::string((char *)a, an), 0, -1 }); par.push_back({ 0, -1 }); uint32_t idx = 0; uint64_t nt = 0;
		cur = 0; curop = -1; chk();
		while (!q.empty()) {
			std::string snap = std::move(q.front().snap); q.pop_front(); cur = idx++;
			for (int o = 0; o < nops; o++) {
				memcpy(a, snap.data(), an); curop = o;
				if (!apply(o)) continue;
				nt++; chk(); std::string c = canon();
				if (seen.insert(c).second) { par.push_back({ cur, o }); q.push_back({ std::string((char *)a, an), 0, 0 }); state(hbytes(7, c.data(), c.size())); }
			}
			if ((idx & 255) == 0) { add_cases(256); if (out_of_time()) { break; } }
		}
		tr(nt); valid(nt); info("reachable container states", seen.size()); note("%zu states, %llu transitions", seen.size(), (unsigned long long)nt); arena_init();
	}
};
#define CK(cond, ...) do { if (!(cond)) { char _m[300]; snprintf(_m, 300, __VA_ARGS__); mc::fail("%s after: %s", _m, bfs->path().c_str()); } } while (0)
static Bfs *bfs;
static void do_rb(int K) {
	static int k; k = K; static bool in[CONT_K]; memset(in, 0, sizeof in);
	Bfs b([](int o) -> const char * { static char s[24]; snprintf(s, 24, o < k ? "insert %d" : o < 2 * k ? "remove %d" : "insert another %d", o % k); return s; }); bfs = &b;
	// the model (which keys are inside) is part of the canonical state
	auto canon = [&] { std::string s; std::vector<int> st; int r = rb_root(); CK(r >= -1, "the root is no element"); if (r >= 0) st.push_back(r); s += (char)r; int n = 0;
		while (!st.empty()) { int x = st.back(); st.pop_back(); CK(++n <= K, "the tree has a cycle"); int l = rb_left(x), rr = rb_right(x); CK(l >= -1 && rr >= -1, "element %d has a child that is no element", x); s += (char)l; s += (char)rr; s += (char)rb_red(x); if (rr >= 0) st.push_back(rr); if (l >= 0) st.push_back(l); } return s; };
	auto members = [&] { memset(in, 0, sizeof in); std::vector<int> st; if (rb_root() >= 0) st.push_back(rb_root()); while (!st.empty()) { int x = st.back(); st.pop_back(); in[x] = true; for (int c : { rb_left(x), rb_right(x) }) if (c >= 0) st.push_back(c); } };
	auto chk = [&] {
		int n = 0; for (int i = 0; i < K; i++) n += in[i]; bool seen[CONT_K + 1] = { 0 };
		int r = rb_root(); CK((r < 0) == (n == 0) && (rb_empty() != 0) == (n == 0), "empty is wrong");
		struct L { int x, lo, hi, bh; }; int cnt = 0, bhl = -1;
		std::vector<L> st; if (r >= 0) { st.push_back({ r, -1, K, 0 }); CK(!rb_red(r), "the root is red"); CK(rb_parent(r) == -1, "the root has a parent"); }
		while (!st.empty()) {
			L e = st.back(); st.pop_back(); CK(e.x >= 0 && e.x < K, "an element that was never inserted (%d) is inside", e.x); CK(!seen[e.x], "the tree has a cycle"); seen[e.x] = true; cnt++;
			CK(in[e.x], "element %d is inside although it was removed", e.x); CK(e.x > e.lo && e.x < e.hi, "element %d is out of order", e.x);
			int bh = e.bh + !rb_red(e.x);
			for (int side = 0; side < 2; side++) {
				int c = side ? rb_right(e.x) : rb_left(e.x);
				if (c == -1) { if (bhl < 0) bhl = bh; CK(bhl == bh, "black heights differ"); continue; }
				CK(c >= 0, "a child is no element"); CK(rb_parent(c) == e.x, "the parent of %d is %d, not %d", c, rb_parent(c), e.x); CK(!(rb_red(e.x) && rb_red(c)), "red element %d has a red child", e.x);
				st.push_back({ c, side ? e.x : e.lo, side ? e.hi : e.x, bh });
			}
		}
		CK(cnt == n, "%d elements are inside, expected %d", cnt, n);
		// queries
		int first = -1, last = -1; for (int i = 0; i < K; i++) if (in[i]) { if (first < 0) first = i; last = i; }
		CK(rb_min() == first && rb_max() == last, "minimum %d maximum %d, expected %d %d", rb_min(), rb_max(), first, last);
		for (int key = 0; key <= 2 * K + 1; key++) { int i = (key - 1) / 2; bool ex = key % 2 && i < K && in[i]; int f = rb_find(key); CK(f == (ex ? i : -1), "find of key %d gives %d", key, f); int w = -1; for (int j = K - 1; j >= 0; j--) if (in[j] && 2 * j + 1 >= key) w = j; f = rb_nfind(key); CK(f == w, "nearest key to %d is %d, expected %d", key, f, w); }
		int prev = -1; for (int i = 0; i < K; i++) if (in[i]) { CK(rb_prev(i) == prev, "previous of %d is %d, expected %d", i, rb_prev(i), prev); if (prev >= 0) CK(rb_next(prev) == i, "next of %d is %d, expected %d", prev, rb_next(prev), i); prev = i; }
		if (prev >= 0) CK(rb_next(prev) == -1, "next of the last element is %d", rb_next(prev));
		int o[CONT_K + 2], want = 0; size_t m = rb_foreach(o, CONT_K); CK(m == (size_t)n, "enumeration visits %zu of %d", m, n); for (int i = 0; i < K; i++) if (in[i]) { CK(o[want] == i, "enumeration is out of order"); want++; }
		m = rb_foreach_reverse(o, CONT_K); CK(m == (size_t)n, "reverse enumeration visits %zu of %d", m, n); want = 0; for (int i = K - 1; i >= 0; i--) if (in[i]) { CK(o[want] == i, "reverse enumeration is out of order"); want++; }
	};
	b.go(3 * K, canon, [&](int o) { members(); int i = o % K; if (o < K) { int r = rb_insert(i); if (in[i]) { CK(r == i, "inserting the present %d again gives %d", i, r); } else { CK(r == -1, "inserting %d gives %d", i, r); in[i] = true; } return true; }
		if (o < 2 * K) { if (!in[i]) return false; int r = rb_remove(i); CK(r == i, "removing %d gives %d", i, r); in[i] = false; return true; }
		if (!in[i]) return false; int r = rb_insert_twin(i); CK(r == i, "inserting another element with key %d gives %d", i, r); return true; }, chk);
}
static void do_splay(int K) {
	static int k; k = K; static bool in[CONT_K]; memset(in, 0, sizeof in);
	Bfs b([](int o) -> const char * { static char s[24]; static const char *n[] = { "insert %d", "remove %d", "insert another %d", "find %d", "next of %d" }; if (o < 5 * k) snprintf(s, 24, n[o / k], o % k); else snprintf(s, 24, o == 6 * k + 1 ? "min" : o == 6 * k + 2 ? "max" : o == 6 * k + 3 ? "enumerate" : "find gap %d", o - 5 * k); return s; }); bfs = &b;
	auto canon = [&] { std::string s; std::vector<int> st; int r = sp_root(); CK(r >= -1, "the root is no element"); if (r >= 0) st.push_back(r); s += (char)r; int n = 0;
		while (!st.empty()) { int x = st.back(); st.pop_back(); CK(++n <= K + 1, "the tree has a cycle"); int l = sp_left(x), rr = sp_right(x); CK(l >= -1 && rr >= -1, "element %d has a child that is no element", x); s += (char)l; s += (char)rr; if (rr >= 0) st.push_back(rr); if (l >= 0) st.push_back(l); } return s; };
	auto members = [&] { memset(in, 0, sizeof in); std::vector<int> st; if (sp_root() >= 0) st.push_back(sp_root()); while (!st.empty()) { int x = st.back(); st.pop_back(); in[x] = true; for (int c : { sp_left(x), sp_right(x) }) if (c >= 0) st.push_back(c); } };
	auto chk = [&] {
		int n = 0, cnt = 0; for (int i = 0; i < K; i++) n += in[i]; bool seen[CONT_K + 1] = { 0 };
		int r = sp_root(); CK((r < 0) == (n == 0) && (sp_empty() != 0) == (n == 0), "empty is wrong");
		struct L { int x, lo, hi; }; std::vector<L> st; if (r >= 0) st.push_back({ r, -1, K });
		while (!st.empty()) { L e = st.back(); st.pop_back(); CK(e.x >= 0 && e.x < K, "an element that was never inserted (%d) is inside", e.x); CK(!seen[e.x], "the tree has a cycle"); seen[e.x] = true; cnt++; CK(in[e.x], "element %d is inside although it was removed", e.x); CK(e.x > e.lo && e.x < e.hi, "element %d is out of order", e.x); int l = sp_left(e.x), rr = sp_right(e.x); CK(l >= -1 && rr >= -1, "a child of %d is no element", e.x); if (l >= 0) st.push_back({ l, e.lo, e.x }); if (rr >= 0) st.push_back({ rr, e.x, e.hi }); }
		CK(cnt == n, "%d elements are inside, expected %d", cnt, n);
	};
	b.go(6 * K + 4, canon, [&](int o) {
		members(); int i = o % K, n = 0, first = -1, last = -1; for (int j = 0; j < K; j++) if (in[j]) { n++; if (first < 0) first = j; last = j; }
		if (o < K) { int r = sp_insert(i); if (in[i]) { CK(r == i, "inserting the present %d again gives %d", i, r); } else { CK(r == -1, "inserting %d gives %d", i, r); in[i] = true; } return true; }
		if (o < 2 * K) { int r = sp_remove(i); CK(r == (in[i] ? i : -1), "removing %d gives %d", i, r); in[i] = false; return true; }
		if (o < 3 * K) { if (!in[i]) return false; int r = sp_insert_twin(i); CK(r == i, "inserting another element with key %d gives %d", i, r); return true; }
		if (o < 4 * K) { int r = sp_find(2 * i + 1); CK(r == (in[i] ? i : -1), "find of %d gives %d", i, r); return true; }
		if (o < 5 * K) { if (!in[i]) return false; int w = -1; for (int j = K - 1; j > i; j--) if (in[j]) w = j; int r = sp_next(i); CK(r == w, "next of %d is %d, expected %d", i, r, w); return true; }
		if (o <= 6 * K) { int r = sp_find(2 * (o - 5 * K)); CK(r == -1, "find of an absent key gives %d", r); return true; }
		if (o == 6 * K + 1) { int r = sp_min(); CK(r == first, "minimum is %d, expected %d", r, first); return true; }
		if (o == 6 * K + 2) { int r = sp_max(); CK(r == last, "maximum is %d, expected %d", r, last); return true; }
		int e[CONT_K + 2]; size_t m = sp_foreach(e, CONT_K); CK(m == (size_t)n, "enumeration visits %zu of %d", m, n); int want = 0; for (int j = 0; j < K; j++) if (in[j]) { CK(e[want] == j, "enumeration is out of order"); want++; } return true;
	}, chk);
}
static void do_list(int K) {
	static int k; k = K; std::vector<int> m[2];
	// ops: per list l: append i (3 ways), prepend i (2 ways), before at i, after at i, unlink i (3 ways), appendlist, init of an emptied list
	struct O { int what, l, a, b; }; static std::vector<O> ops; ops.clear();
	for (int l = 0; l < 2; l++) { for (int i = 0; i < K; i++) { for (int h = 0; h < 3; h++) ops.push_back({ 0, l, i, h }); for (int h = 0; h < 2; h++) ops.push_back({ 1, l, i, h }); for (int j = 0; j < K; j++) if (j != i) { ops.push_back({ 2, l, j, i }); ops.push_back({ 3, l, j, i }); } for (int h = 0; h < 3; h++) ops.push_back({ 4, l, i, h }); } ops.push_back({ 5, l, 0, 0 }); }
	Bfs b([](int o) -> const char * { static char s[48]; static const char *n[] = { "append", "prepend", "insert before", "insert after", "unlink", "append list" }; snprintf(s, 48, "%s(list %d, %d, %d)", n[ops[o].what], ops[o].l, ops[o].a, ops[o].b); return s; }); bfs = &b;
	auto read = [&] { for (int l = 0; l < 2; l++) { m[l].clear(); int x = l_head(l); while (x >= 0 && (int)m[l].size() <= K) { m[l].push_back(x); x = l_next(x); } } };
	auto canon = [&] { std::string s; for (int l = 0; l < 2; l++) { for (int x : m[l]) s += (char)x; s += '|'; } return s; };
	auto chk = [&] {
		bool lk[CONT_K] = { 0 };
		for (int l = 0; l < 2; l++) {
			size_t n = m[l].size(); CK((l_empty(l) != 0) == (n == 0), "list %d: empty is wrong", l); CK(l_head(l) == (n ? m[l][0] : -1), "list %d: head is %d", l, l_head(l)); CK(l_tail(l) == (n ? m[l][n - 1] : -1), "list %d: tail is %d", l, l_tail(l));
			for (size_t i = 0; i < n; i++) { int x = m[l][i]; lk[x] = true; CK(l_next(x) == (i + 1 < n ? m[l][i + 1] : -1), "list %d: the element after %d is %d", l, x, l_next(x)); CK(l_prev(x) == (i ? m[l][i - 1] : -1), "list %d: the element before %d is %d", l, x, l_prev(x)); }
		}
		for (int i = 0; i < K; i++) CK((l_linked(i) != 0) == lk[i], "element %d reports linked %d", i, l_linked(i));
	};
	b.go(ops.size(), canon, [&](int oi) {
		read(); O o = ops[oi]; auto where = [&](int i) { for (int l = 0; l < 2; l++) if (std::find(m[l].begin(), m[l].end(), i) != m[l].end()) return l; return -1; };
		auto &L = m[o.l];
		switch (o.what) {
		case 0: if (where(o.a) >= 0) return false; l_append(o.l, o.a, o.b); L.push_back(o.a); return true;
		case 1: if (where(o.a) >= 0) return false; l_prepend(o.l, o.a, o.b); L.insert(L.begin(), o.a); return true;
		case 2: case 3: { if (where(o.a) != o.l || where(o.b) >= 0) return false; auto it = std::find(L.begin(), L.end(), o.a); if (o.what == 2) l_before(o.l, o.a, o.b); else { l_after(o.l, o.a, o.b); ++it; } L.insert(it, o.b); return true; }
		case 4: if (where(o.a) != o.l) return false; l_unlink(o.l, o.a, o.b); L.erase(std::find(L.begin(), L.end(), o.a)); return true;
		default: l_appendlist(o.l, 1 - o.l); L.insert(L.end(), m[1 - o.l].begin(), m[1 - o.l].end()); m[1 - o.l].clear(); return true;
		}
	}, chk);
}
static void treebig(int which, size_t n, int ins, int rem) {
	const char *e = which == 0 ? big_rb(n, ins, rem) : which == 1 ? big_splay(n, ins, rem) : big_list(n, ins, rem);
	static const char *w[] = { "red-black tree", "splay tree", "list" };
	MC_CHECK(!e, "%s of %zu elements, inserted in pattern %d, removed in pattern %d: %s", w[which], n, ins, rem, e); valid(); tr(3 * n); state(mix(mix(which, n), ins * 8 + rem));
}
static void C30() {
	for (size_t n = 1; n <= 130; n++) for (int w = 0; w < 3; w++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) run(K_TREEBIG, { num(w), num(n), num(a), num(b) });
	for (size_t n : { 255, 256, 257, 500, 1000, 1023, 4096, 32769, 65536, 65537, 100000 }) for (int w = 0; w < 3; w++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) if (n < 5000 || w == 2 || (a != 3 && b != 3 && a + b != 1)) run(K_TREEBIG, { num(w), num(n), num(a), num(b) });
	int R = thorough ? 12 : 10, Sp = thorough ? 9 : 7, Li = thorough ? 7 : 5;
	for (int k = 1; k <= std::max(R, Sp); k++) { if (unit() && k <= R) run_owned(K_RB, { num(k) }); if (unit() && k <= Sp) run_owned(K_SPLAY, { num(k) }); if (unit() && k <= Li) run_owned(K_LIST, { num(k) }); }
}

void mc::check(const Case &c) {
	auto b = [&](size_t i) -> const Bytes & { return c.b[i]; };
	switch (c.kind) {
	case K_HEAPSEQ: heapseq(b(0), getnum(b(1))); break; case K_HEAPPERM: heapperm(b(0)); break; case K_HEAPFILL: heapfill(getnum(b(0)), getnum(b(1))); break;
	case K_VEC: vecseq(getnum(b(0)), getnum(b(1)), b(2), getnum(b(3))); break; case K_UBUF: ubseq(getnum(b(0)), b(1), getnum(b(2))); break;
	case K_HEAPBIG: heapbig(getnum(b(0)), getnum(b(1))); break; case K_VECBIG: vecbig(getnum(b(0)), getnum(b(1)), getnum(b(2))); break; case K_UBUFBIG: ubbig(getnum(b(0)), getnum(b(1))); break;
	case K_TREEBIG: treebig(getnum(b(0)), getnum(b(1)), getnum(b(2)), getnum(b(3))); break;
	case K_RB: do_rb(getnum(b(0))); break; case K_SPLAY: do_splay(getnum(b(0))); break; case K_LIST: do_list(getnum(b(0))); break;
	}
}
void mc::enumerate() { if (P("C24")) C24(); else if (P("C29")) C29(); else if (P("C30")) C30(); }
