// C13 serialization, C14 downcasing, C15 sorting of RRsets
#include "refmsg.hpp"
#include <wdns/wdns.h>

enum { K_SER, K_DESER, K_DOWN, K_SORT };
const char *mc::kind_names[] = { "serialize and restore(name, codes, rdata...)", "deserialize(octets)", "downcase(name, codes, rdata...)", "sort(name, codes, rdata...)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// an RRset with separately allocated, exactly sized parts
struct Set {
	wdns_rrset_t s;
	Set(const Bytes &name, int type, int cls, uint32_t ttl, const std::vector<Bytes> &rd) {
		memset(&s, 0, sizeof s);
		s.rrttl = ttl; s.rrtype = type; s.rrclass = cls; s.n_rdatas = rd.size();
		s.name.len = name.size(); s.name.data = (uint8_t *)malloc(name.size() + !name.size()); memcpy(s.name.data, name.data(), name.size());
		s.rdatas = (wdns_rdata_t **)malloc(sizeof(void *) * (rd.size() + !rd.size()));
		for (size_t i = 0; i < rd.size(); i++) {
			s.rdatas[i] = (wdns_rdata_t *)malloc(sizeof(wdns_rdata_t) + rd[i].size());
			s.rdatas[i]->len = rd[i].size(); memcpy(s.rdatas[i]->data, rd[i].data(), rd[i].size());
		}
	}
	~Set() { wdns_clear_rrset(&s); }
};
static std::vector<Bytes> rds(const wdns_rrset_t &s) { std::vector<Bytes> v; for (unsigned i = 0; i < s.n_rdatas; i++) v.push_back(Bytes(s.rdatas[i]->data, s.rdatas[i]->data + s.rdatas[i]->len)); return v; }
static Bytes nm(const wdns_rrset_t &s) { return Bytes(s.name.data, s.name.data + s.name.len); }
static uint64_t hset(const wdns_rrset_t &s) { uint64_t h = mix(mix(s.rrtype, s.rrclass), s.rrttl); Bytes n = nm(s); h = hbytes(h, n.data(), n.size()); for (auto &r : rds(s)) h = hbytes(h, r.data(), r.size()); return h; }
static void head_same(const wdns_rrset_t &s, const Bytes &name, int type, int cls, uint32_t ttl, size_t n, const char *what) {
	MC_CHECK(s.rrtype == type && s.rrclass == cls && s.rrttl == ttl && s.n_rdatas == n, "%s: type %u class %u TTL %u with %u rdata, expected %d %d %u %zu", what, s.rrtype, s.rrclass, s.rrttl, s.n_rdatas, type, cls, ttl, n);
	MC_CHECK(nm(s) == name, "%s: owner %s, expected %s", what, Hex(nm(s)).s, Hex(name).s);
}

static void do_ser(const Bytes &name, int type, int cls, uint32_t ttl, const std::vector<Bytes> &rd) {
	int64_t before = live_blocks;
	{
		Set a(name, type, cls, ttl, rd);
		size_t want = 12 + name.size() - 1; for (auto &r : rd) want += 2 + r.size();      // 1+2+2+4+2 octets around the name
		size_t sz = 0xdeadbeef;
		MC_CHECK(wdns_serialize_rrset(&a.s, nullptr, &sz) == wdns_res_success, "serialize failed to report the size"); tr();
		Bytes one;
		{
			Exact b(sz, 0xcc);      // a larger write is an error
			size_t sz2 = 1;
			MC_CHECK(wdns_serialize_rrset(&a.s, b.p, &sz2) == wdns_res_success && sz2 == sz, "serialize reported %zu and then %zu octets", sz, sz2); tr();
			one = Bytes(b.p, b.p + sz);
			Exact c(sz, 0x33);      // every octet is written: nothing of the old content shows
			MC_CHECK(wdns_serialize_rrset(&a.s, c.p, nullptr) == wdns_res_success, "serialize without size failed"); tr();
			MC_CHECK(!memcmp(c.p, b.p, sz), "not all of the %zu reported octets were written", sz);
		}
		head_same(a.s, name, type, cls, ttl, rd.size(), "after serialize"); MC_CHECK(rds(a.s) == rd, "serialize changed the rdata");
		(void)want;
		std::vector<size_t> cuts;
		for (size_t n = 0; n < one.size(); n++) if (one.size() < 700 || n < 300 || n + 300 > one.size() || n % 257 == 0) cuts.push_back(n);
		if (rd.size() > 300) { cuts.clear(); for (size_t n : {0, 1, 5, 11, 12, 13}) if (n < one.size()) cuts.push_back(n); for (size_t n = 1; n < 5 && n <= one.size(); n++) cuts.push_back(one.size() - n); }
		for (size_t n : cuts) {
			Exact p(one.data(), n); wdns_rrset_t r; memset(&r, 0x5a, sizeof r);
			int64_t b4 = live_blocks;
			wdns_res res = wdns_deserialize_rrset(&r, p.p, n); tr();
			MC_CHECK(res != wdns_res_success, "the first %zu of %zu octets were restored", n, one.size());
			MC_CHECK(live_blocks == b4, "refusing the first %zu of %zu octets left %lld blocks allocated", n, one.size(), (long long)(live_blocks - b4));
		}
		Exact p(one); wdns_rrset_t r; memset(&r, 0x5a, sizeof r);
		wdns_res res = wdns_deserialize_rrset(&r, p.p, p.n); tr();
		MC_CHECK(res == wdns_res_success, "a complete serialization was refused (res %d)", res);
		head_same(r, name, type, cls, ttl, rd.size(), "restored RRset"); MC_CHECK(rds(r) == rd, "the restored rdata differ");
		state(hset(r)); valid(1 + cuts.size());
		note("%zu octets, %zu truncations", one.size(), cuts.size());
		wdns_clear_rrset(&r);
	}
	MC_CHECK(live_blocks == before, "serializing and restoring left %lld blocks allocated", (long long)(live_blocks - before));
}

static void do_deser(const Bytes &b) {
	int64_t before = live_blocks;
	{
		Exact e(b);
		wdns_rrset_t r; memset(&r, 0x5a, sizeof r);
		int64_t b4 = live_blocks;
		wdns_res res = wdns_deserialize_rrset(&r, e.p, e.n); tr();
		if (res != wdns_res_success) MC_CHECK(live_blocks == b4, "refusing the octets left %lld blocks allocated", (long long)(live_blocks - b4));
		else {
			for (unsigned s : {1u, 0u}) { char *t = wdns_rrset_to_str(&r, s); MC_CHECK(t, "rrset_to_str gave NULL"); strlen(t); free(t); tr(); }
			size_t sz = 0; wdns_serialize_rrset(&r, nullptr, &sz);
			MC_CHECK(sz <= b.size(), "%zu octets gave an RRset that serializes to %zu", b.size(), sz);
			Exact o(sz, 0x77); wdns_serialize_rrset(&r, o.p, &sz); tr(2);
			MC_CHECK(!memcmp(o.p, b.data(), sz), "the RRset serializes to other octets: %s", Hex(o.p, sz).s);
			wdns_sort_rrset(&r); tr();
			wdns_res d = wdns_downcase_rrset(&r); tr();
			char *t = wdns_rrset_to_str(&r, 1); free(t); tr();
			state(mix(hset(r), d));
			wdns_clear_rrset(&r); tr();
		}
		state(res); valid(); note("res %d", res);
	}
	MC_CHECK(live_blocks == before, "the heap is unbalanced by %lld blocks", (long long)(live_blocks - before));
}

// ------------------------------------------------------------------------------------- C14
static bool canonical_lc(int type) {
	switch (type) { case 38: case 18: case 5: case 39: case 36: case 7: case 3: case 4: case 8: case 14: case 9: case 15: case 35: case 2: case 30: case 12: case 26: case 17: case 21: case 24: case 6: case 33: return true; }
	return false;
}
// 0: all fields complete (out = expected octets), 1: malformed
static int ref_down(const Bytes &r, int type, int cls, Bytes &out) {
	out = r;
	if (!canonical_lc(type) || !ref_structured(type, cls)) return 0;
	size_t o = 0;
	for (const Fld *f = ref_layout(type)->f; *f != fEnd && o < r.size(); f++) {
		size_t k = 0;
		switch (*f) {
		case fName: { int n = ref_len_uname(r.data() + o, r.size() - o); if (n < 0) return 1; for (int i = 0; i < n; i++) if (out[o + i] >= 'A' && out[o + i] <= 'Z') out[o + i] += 32; k = n; break; }
		case fI8: k = 1; break; case fI16: k = 2; break; case fI32: k = 4; break;
		case fStr: k = 1 + r[o]; break;
		case fPfx: if (r[o] > 128) return 1; k = 1 + (128 - r[o] + 7) / 8; break;
		case fHex: k = r.size() - o; break;
		default: break;
		}
		if (k > r.size() - o) return 1;
		o += k;
	}
	return o != r.size();
}
static void do_down(const Bytes &name, int type, int cls, uint32_t ttl, const std::vector<Bytes> &rd) {
	Set a(name, type, cls, ttl, rd);
	std::vector<Bytes> want; bool bad = false; size_t firstbad = rd.size();
	for (size_t i = 0; i < rd.size(); i++) { Bytes w; if (ref_down(rd[i], type, cls, w)) { if (!bad) firstbad = i; bad = true; } want.push_back(w); }
	wdns_res res = wdns_downcase_rrset(&a.s); tr();
	auto got = rds(a.s);
	head_same(a.s, lowered(name), type, cls, ttl, rd.size(), "downcased RRset");
	if (!bad) {
		MC_CHECK(res == wdns_res_success, "well-formed rdata was refused (res %d)", res);
		for (size_t i = 0; i < rd.size(); i++) MC_CHECK(got[i] == want[i], "type %d class %d rdata %s became %s, expected %s", type, cls, Hex(rd[i]).s, Hex(got[i]).s, Hex(want[i]).s);
		res = wdns_downcase_rrset(&a.s); tr();
		MC_CHECK(res == wdns_res_success && rds(a.s) == want && nm(a.s) == lowered(name), "downcasing twice is not the same as once");
	} else {
		for (size_t i = 0; i < rd.size(); i++) {
			MC_CHECK(got[i].size() == rd[i].size(), "the rdata length changed");
			if (i < firstbad) MC_CHECK(got[i] == want[i], "rdata before the malformed one: %s became %s", Hex(rd[i]).s, Hex(got[i]).s);
			for (size_t k = 0; k < got[i].size(); k++) MC_CHECK(got[i][k] == rd[i][k] || (rd[i][k] >= 'A' && rd[i][k] <= 'Z' && got[i][k] == rd[i][k] + 32), "octet %zu of malformed rdata %s changed: %s", k, Hex(rd[i]).s, Hex(got[i]).s);
		}
		MC_CHECK(res != wdns_res_success || got == rd, "malformed rdata was changed and reported as success");
	}
	// the parts on their own
	if (rd.size() == 1) {
		Set b(name, type, cls, ttl, rd);
		wdns_res r1 = wdns_downcase_rdata(b.s.rdatas[0], type, cls); tr();
		MC_CHECK((r1 == wdns_res_success) == (!bad || res == wdns_res_success) && rds(b.s) == (bad ? got : want), "downcase_rdata and downcase_rrset disagree");
	}
	state(mix(hset(a.s), res)); valid(); note("res %d", res);
}

static void do_sort(const Bytes &name, int type, int cls, uint32_t ttl, const std::vector<Bytes> &rd) {
	Set a(name, type, cls, ttl, rd);
	std::vector<const void *> before; for (unsigned i = 0; i < a.s.n_rdatas; i++) before.push_back(a.s.rdatas[i]);
	auto want = rd;
	std::stable_sort(want.begin(), want.end(), [](const Bytes &x, const Bytes &y) { if (x.size() != y.size()) return x.size() < y.size(); for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) return x[i] < y[i]; return false; });
	MC_CHECK(wdns_sort_rrset(&a.s) == wdns_res_success, "sorting failed"); tr();
	head_same(a.s, name, type, cls, ttl, rd.size(), "sorted RRset");
	auto got = rds(a.s);
	for (size_t i = 0; i < want.size(); i++) MC_CHECK(got[i] == want[i], "position %zu of %zu holds %s, expected %s", i, want.size(), Hex(got[i]).s, Hex(want[i]).s);
	std::vector<const void *> after; for (unsigned i = 0; i < a.s.n_rdatas; i++) after.push_back(a.s.rdatas[i]);
	std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end());
	MC_CHECK(before == after, "an rdata object was lost or duplicated");
	wdns_sort_rrset(&a.s); tr();
	MC_CHECK(rds(a.s) == want, "sorting a sorted RRset changed it");
	state(hset(a.s)); valid(); note("%zu rdata", rd.size());
}

static std::vector<Bytes> split(const Bytes &b) { std::vector<Bytes> v; size_t o = 0; while (o < b.size()) { size_t n = b[o] * 256 + b[o + 1]; v.push_back(sub(b, o + 2, n)); o += 2 + n; } return v; }
static Bytes join(const std::vector<Bytes> &v) { Bytes o; for (auto &r : v) { o.push_back(r.size() >> 8); o.push_back(r.size()); app(o, r); } return o; }
void mc::check(const Case &c) {
	if (c.kind == K_DESER) { do_deser(c.b[0]); return; }
	int t = c.b[1][0] * 256 + c.b[1][1], k = c.b[1][2] * 256 + c.b[1][3]; uint32_t ttl = (uint32_t)c.b[1][4] << 24 | c.b[1][5] << 16 | c.b[1][6] << 8 | c.b[1][7];
	auto rd = split(c.b[2]);
	if (c.kind == K_SER) do_ser(c.b[0], t, k, ttl, rd);
	else if (c.kind == K_DOWN) do_down(c.b[0], t, k, ttl, rd);
	else do_sort(c.b[0], t, k, ttl, rd);
}
static void go(int kind, const Bytes &name, int t, int c, uint32_t ttl, const std::vector<Bytes> &rd) { run(kind, { name, cat({be16(t), be16(c), be32(ttl)}), join(rd) }); }

static void C13() {
	Bytes n = wname({"Serial", "Ize"});
	for (auto &nmx : names_full()) { go(K_SER, nmx, 1, 1, 3600, { B({1, 2, 3, 4}) }); go(K_SER, nmx, 65535, 0, 0, {}); }
	for (int i = 0; i < 65536; i++) go(K_SER, B({0}), i, 65535 - i, i * 65537u, { be16(i) });
	for (int b = 0; b < 32; b++) go(K_SER, n, 16, 1, 1u << b, { Bytes(), Bytes() });
	// all lists of up to four rdata over small sizes
	std::vector<Bytes> r = { Bytes(), B({0}), B({255, 1}), pat(3, 5), pat(255, 2), pat(256, 3), pat(257, 5) };
	for (size_t len = 0; len <= (thorough ? 5u : 4u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= r.size(); for (size_t k = 0; k < total; k++) { std::vector<Bytes> v; size_t q = k; for (size_t i = 0; i < len; i++) { v.push_back(r[q % r.size()]); q /= r.size(); } if (len == 4 && !thorough && (k % 3)) continue; go(K_SER, n, 16, 1, 0x01020304, v); } }
	for (int c : {5, 6, 31, 100, 127, 128, 254, 255, 256, 257, 300}) for (auto &x : r) go(K_SER, n, 16, 1, 5, std::vector<Bytes>(c, x));
	for (int c : {1000, 32767, 32768, 65534, 65535}) { go(K_SER, B({0}), 16, 1, 5, std::vector<Bytes>(c)); go(K_SER, B({0}), 16, 1, 5, std::vector<Bytes>(c, B({7}))); }
	for (size_t s : {1000, 32767, 32768, 65534, 65535}) { go(K_SER, n, 10, 1, 5, { pat(s, 5) }); go(K_SER, n, 10, 1, 5, { B({1}), pat(s, 5), B({2}) }); go(K_SER, n, 10, 1, 5, std::vector<Bytes>(5, pat(s, 5))); }
	for (auto &l : REF_LAYOUT) { std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f); for (size_t k = 0; k < 12; k++) { Bytes x; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(x, s[q++ % s.size()]); } go(K_SER, n, l.type, 1, 5, { x, x, sub(x, 0, x.size() / 2) }); } }
	// arbitrary octets: all short strings
	for (int kind = 0; kind < 1; kind++) {
		auto D = [&](const Bytes &b) { run(K_DESER, { b }); };
		const std::vector<uint8_t> al = { 0, 1, 2, 3, 'A', 64, 192, 255 };
		for (size_t len = 0; len <= (thorough ? 6u : 4u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size(); for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { b.push_back(al[q % al.size()]); q /= al.size(); } D(b);
			for (int t : {2, 15, 16, 38, 47, 64}) for (auto &tail : { B({0, 0}), B({1, 0, 0, 0}), B({2, 0, 3, 0, 0, 1, 'B', 1, 0, 'Z'}) }) D(cat({ B({(int)b.size()}), b, B({t, 0, 1, 0, 9, 9, 9, 9}), tail })); } }
		// names: malformed ones of every length
		for (int len = 0; len < 256; len++) for (int k = 0; k < 6; k++) for (int t : {2, 16}) D(cat({ B({len}), pat(len, k), B({t, 0, 1, 0, 9, 9, 9, 9, 1, 0, 2, 0, 1, 'x'}) }));
		for (int len = 0; len < 256; len++) for (int first : {63, 62, 64, 255, len, len - 1, len - 2}) { if (first < 0) continue; Bytes x = rep('Q', len); if (len) x[0] = first; D(cat({ B({len}), x, B({2, 0, 1, 0, 9, 9, 9, 9, 0, 0}) })); }
		// rdata of every type: truncated, substituted
		Bytes own = wname({"O"});
		const uint8_t bnd[] = { 0, 1, 2, 4, 63, 64, 127, 128, 129, 192, 255 };
		for (auto &l : REF_LAYOUT) {
			std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
			size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
			size_t cap = thorough ? 100 : 12, step = prod > cap ? (prod / cap | 1) : 1;
			for (size_t k = 0; k < prod; k += step) {
				Bytes x; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(x, s[q % s.size()]); q /= s.size(); }
				auto ser = [&](const Bytes &rd, int n) { Bytes o = cat({ B({(int)own.size()}), own, B({l.type & 255, l.type >> 8, 1, 0, 1, 2, 3, 4, n, 0}) }); for (int i = 0; i < n; i++) { app(o, B({(int)rd.size() & 255, (int)rd.size() >> 8})); app(o, rd); } return o; };
				Bytes full = ser(x, 2); D(full); D(cat({full, B({7})}));
				for (size_t n = 0; n < x.size() && n < 90; n++) D(ser(sub(x, 0, n), 1));
				for (size_t i = 0; i < full.size() && i < 120; i++) for (uint8_t c : bnd) { Bytes m = full; m[i] = c; D(m); }
			}
		}
	}
}
static void C14() {
	auto R = [&](const Bytes &n, int t, int c, const std::vector<Bytes> &rd) { go(K_DOWN, n, t, c, 7, rd); };
	Bytes n = wname({"MiXed", "Z"});
	for (auto &x : names_full()) { R(x, 1, 1, { B({65, 66, 67, 68}) }); R(x, 2, 1, { x }); }
	for (auto &l : REF_LAYOUT) {
		gen_rdatas(l, false, [&](const Bytes &r) { R(n, l.type, 1, { r }); });
		// capital letters in every field: each octet of a base rdata takes all values
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
		size_t cap = thorough ? 200 : 24, step = prod > cap ? (prod / cap | 1) : 1;
		for (size_t k = 0; k < prod; k += step) {
			Bytes x; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(x, s[q % s.size()]); q /= s.size(); }
			for (int c : {0, 1, 3, 254, 255}) R(n, l.type, c, { x, x });
			for (size_t m = 0; m <= x.size(); m++) { if (m > 90 && m + 20 < x.size()) continue; R(n, l.type, 1, { sub(x, 0, m) }); R(n, l.type, 1, { cat({sub(x, 0, m), B({'A'})}) }); R(n, l.type, 1, { cat({sub(x, 0, m), B({0, 'Q', 0})}) }); R(n, l.type, 1, { x, sub(x, 0, m), x }); }
			for (size_t i = 0; i < x.size() && i < (x.size() < 60 ? 60u : 40u); i++) {
				if (x.size() <= 40 || thorough) for (int c = 0; c < 256; c++) { Bytes m = x; m[i] = c; R(n, l.type, 1, { m }); }
				else for (int c : std::initializer_list<int>{0, 1, 2, 'A', 'M', 'Z', '@', '[', 'a', 63, 64, 128, 129, 192, 255}) { Bytes m = x; m[i] = c; R(n, l.type, 1, { m }); }
			}
		}
	}
	// names made of capitals in every name field; numbers made of capitals
	for (auto &l : REF_LAYOUT) {
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		for (int cap = 0; cap < 26; cap++) for (int len : {1, 2, 25, 26, 62, 63}) {
			Bytes x; uint8_t C = 'A' + cap;
			for (Fld f : fs) switch (f) {
			case fName: app(x, rawname({rep(C, len), rep(C, 1)})); break; case fI8: app(x, rep(C, 1)); break; case fI16: app(x, rep(C, 2)); break; case fI32: case fV4: app(x, rep(C, 4)); break; case fV6: app(x, rep(C, 16)); break;
			case fStr: case fSalt: case fHash: app(x, lv(rep(C, C))); break; case fRep: app(x, lv(rep(C, C))); app(x, lv(rep(C, 3))); break; case fHex: case fB64: case fBStr: app(x, rep(C, len)); break;
			case fPfx: app(x, cat({B({C}), rep(C, (128 - C + 7) / 8)})); break; case fType: app(x, rep(C, 2)); break; case fMap: app(x, cat({B({C, 3}), rep(C, 3)})); break; case fE48: app(x, rep(C, 6)); break; case fE64: app(x, rep(C, 8)); break;
			case fSvc: app(x, svc(C * 257, rep(C, 5))); break; case fOpt: app(x, opt1(C * 257, rep(C, 5))); break; case fEnd: break;
			}
			R(rawname({rep(C, len)}), l.type, 1, { x }); R(n, l.type, 3, { x }); if (!x.empty()) R(n, l.type, 1, { sub(x, 0, x.size() - 1) });
		}
	}
	// A6 with every prefix length
	for (int p = 0; p < 256; p++) for (int k = 0; k <= 18; k++) R(n, 38, 1, { cat({B({p}), rep('Q', k), wname({"NaMe", "X"})}) });
	// every type code
	for (int t = 0; t < 65536; t++) R(n, t, t % 7 ? 1 : t & 255, { B({3, 'A', 'B', 'C', 0}), B({0, 'A', 1, 'B', 0}) });
	R(n, 1, 1, {}); R(n, 2, 1, { Bytes() }); R(n, 2, 1, std::vector<Bytes>(300, wname({"XY"})));
	for (size_t c : {255, 256, 257, 1000, 32767, 32768, 32769, 65534, 65535}) { std::vector<Bytes> v(c), w(c); for (size_t i = 0; i < c; i++) { v[i] = B({1, 'A' + (int)(i % 26), 0}); w[i] = cat({be16(i), B({2, 'Q', 'a' + (int)(i % 7), 0})}); } R(n, 2, 1, v); R(n, 15, 1, w); R(n, 16, 1, v); }
	for (size_t s : {32767, 32768, 65535}) { R(n, 10, 1, { rep('A', s) }); R(n, 2, 1, { rep('A', s) }); R(n, 30, 1, { cat({wname({"A"}), rep('B', s - 3)}) }); R(n, 24, 1, { cat({rep('A', 18), wname({"A"}), rep('B', s - 21)}) }); }
}
static void C15() {
	Bytes n = wname({"So", "Rt"});
	auto R = [&](const std::vector<Bytes> &v) { go(K_SORT, n, 16, 1, 300, v); };
	std::vector<Bytes> al = { Bytes(), B({0}), B({1}), B({127}), B({128}), B({255}), B({0, 0}), B({0, 255}), B({255, 0}), B({128, 0, 0}), B({1, 'a', 'B'}) };
	// all sequences: every multiset in every permutation
	size_t max = thorough ? 6 : 5;
	for (size_t len = 0; len <= max; len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size(); for (size_t k = 0; k < total; k++) { std::vector<Bytes> v; size_t q = k; for (size_t i = 0; i < len; i++) { v.push_back(al[q % al.size()]); q /= al.size(); } R(v); } }
	// longer sequences over fewer values
	std::vector<Bytes> a2 = { B({2, 1}), B({200}), B({2, 129}) };
	for (size_t len = 6; len <= (thorough ? 12u : 9u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= a2.size(); for (size_t k = 0; k < total; k++) { std::vector<Bytes> v; size_t q = k; for (size_t i = 0; i < len; i++) { v.push_back(a2[q % a2.size()]); q /= a2.size(); } R(v); } }
	// all permutations of distinct values
	{ std::vector<int> p; size_t m = thorough ? 9 : 8; for (size_t i = 0; i < m; i++) p.push_back(i); do { std::vector<Bytes> v; for (int i : p) v.push_back(cat({rep(0x80, i % 3), B({i * 36})})); R(v); } while (std::next_permutation(p.begin(), p.end())); }
	// pairs of octets at every position
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) R({ B({7, a, 1}), B({7, b, 0}) });
	for (size_t len : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, 300}) for (size_t pos = 0; pos < len; pos++) for (int c : {0, 127, 128, 255}) { Bytes x = rep(100, len), y = x; y[pos] = c; R({ x, y }); R({ y, x }); if (pos + 1 < len) { y[pos + 1] ^= 255; R({ x, y }); R({ y, x, y }); } }
	// lengths
	for (int a = 0; a <= 300; a++) for (int b : {0, 1, 127, 128, 255, 256, 257, 300}) { R({ rep(1, a), rep(255, b) }); R({ rep(255, a), rep(1, b) }); }
	for (int a : {32767, 32768, 65535, 1, 256}) for (int b : {32767, 32768, 65535, 0, 255}) for (int c : {32768, 65534}) R({ pat(a, 2), pat(b, 5), pat(c, 1) });
	for (size_t c : {10, 100, 1000, 5000, 32768, 65535}) for (int k = 0; k < 4; k++) { std::vector<Bytes> v; for (size_t i = 0; i < c; i++) v.push_back(k == 0 ? be16(c - i) : k == 1 ? be16(i * 40503) : k == 2 ? B({(int)(i % 3)}) : rep(i * 7, i % 11)); R(v); }
	for (int t : {1, 2, 41, 46, 65535}) for (int c : {1, 3, 255}) go(K_SORT, B({0}), t, c, 0xfffffffe, { B({2}), B({1}), Bytes() });
}
void mc::enumerate() { if (P("C13")) C13(); else if (P("C14")) C14(); else C15(); }
