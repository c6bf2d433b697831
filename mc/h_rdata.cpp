// C06 rendering is safe and total, C07 exact presentation, C08 round trip, C09 text to rdata
#include "genrdata.hpp"
#include <wdns/wdns.h>

enum { K_RENDER, K_EXACT, K_ROUND, K_TEXT };
const char *mc::kind_names[] = { "rdata_to_str(type, class, rdata)", "rdata_to_str exact(type, class, rdata)", "round-trip(type, class, rdata)",
	"str_to_rdata(type, class, text, verdict, octets)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }
static int g16(const Bytes &b) { return b[0] * 256 + b[1]; }

static const char *MARK = "PARSE ERROR";

static char *render(const Bytes &r, int type, int cls) {
	Exact e(r);
	char *s = wdns_rdata_to_str(e.p, r.size(), type, cls); tr();
	MC_CHECK(s != nullptr, "rdata_to_str returned NULL");
	strlen(s);
	MC_CHECK(r.empty() || !memcmp(e.p, r.data(), r.size()), "rdata_to_str modified the rdata");
	return s;
}
// does the text claim a parse error? Rdata content that itself spells the marker is not generated.
static bool flagged(const char *s) { return strstr(s, MARK) != nullptr; }

static void do_render(int type, int cls, const Bytes &r) {
	char *s = render(r, type, cls);
	Bytes want; Verdict v = ref_render(r, type, cls, want);
	bool f = flagged(s);
	if (v == V_FLAG) MC_CHECK(f, "malformed rdata of type %d class %d was not flagged: `%s'", type, cls, Esc(s).s);
	if (f && type != 41) MC_CHECK(!ref_carriable(r, type, cls), "rdata that a message record may carry was flagged: `%s'", Esc(s).s);
	if (f && type == 41) MC_CHECK(v != V_WELL, "well-formed OPT rdata was flagged: `%s'", Esc(s).s);
	state(mix(hstr(type, s), v)); valid();
	note("`%s'", Esc(s).s);
	free(s);
}

static Bytes norm_generic(const Bytes &b) { Bytes r; for (uint8_t c : b) r.push_back(c >= 'A' && c <= 'F' ? c + 32 : c); while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }

static void do_exact(int type, int cls, const Bytes &r) {
	Bytes want; bool generic;
	Verdict v = ref_render(r, type, cls, want, &generic);
	if (v != V_WELL) return;
	char *s = render(r, type, cls);
	Bytes got = S(s);
	if (generic) { got = norm_generic(got); want = norm_generic(want); }
	MC_CHECK(got == want, "type %d rdata %s rendered as `%s', expected `%s'", type, Hex(r).s, Esc(got).s, Esc(want).s);
	state(hstr(type, s)); valid();
	note("`%s'", Esc(s).s);
	free(s);
}

static void do_round(int type, int cls, const Bytes &r) {
	Bytes want;
	if (type == 41 || ref_render(r, type, cls, want) != V_WELL) return;
	char *s = render(r, type, cls);
	Exact t(s, strlen(s) + 1);
	uint8_t *out = nullptr; size_t n = 0;
	wdns_res res = wdns_str_to_rdata((char *)t.p, type, cls, &out, &n); tr();
	MC_CHECK(res == wdns_res_success, "the text `%s' of type %d rdata was refused (res %d)", Esc(s).s, type, res);
	Bytes got(out, out + n);
	MC_CHECK(ref_canon(got, type, cls) == ref_canon(r, type, cls), "type %d rdata %s became `%s' and then %s", type, Hex(r).s, Esc(s).s, Hex(got).s);
	state(hbytes(hstr(type, s), out, n)); valid();
	note("`%s'", Esc(s).s);
	free(out); free(s);
}

static void do_text(int type, int cls, const Bytes &t, int verdict, const Bytes &want) {
	Bytes z = t; z.push_back(0);
	Exact e(z);
	uint8_t *out = (uint8_t *)0x10; size_t n = 4711;
	int64_t before = live_blocks;
	wdns_res res = wdns_str_to_rdata((char *)e.p, type, cls, &out, &n); tr();
	if (res != wdns_res_success) {
		MC_CHECK(live_blocks == before, "failed conversion of type %d text `%s' leaked memory", type, Esc(t).s);
		MC_CHECK(verdict != 1, "type %d text `%s' was refused (res %d), expected %s", type, Esc(t).s, res, Hex(want).s);
		state(mix(type, 77)); valid(); note("refused");
		return;
	}
	MC_CHECK(n <= 65535, "type %d text of %zu characters gave %zu octets", type, t.size(), n);
	Bytes got(out, out + n);
	MC_CHECK(verdict != 2, "type %d text `%s' was accepted as %s", type, Esc(t).s, Hex(got).s);
	if (verdict == 1) MC_CHECK(got == want, "type %d text `%s' gave %s, expected %s", type, Esc(t).s, Hex(got).s, Hex(want).s);
	// whatever is accepted is well-formed
	MC_CHECK(ref_carriable(got, type, cls), "type %d text `%s' gave %s, which no message record may carry", type, Esc(t).s, Hex(got).s);
	char *s = render(got, type, cls);
	MC_CHECK(!flagged(s), "type %d text `%s' gave %s, which renders as `%s'", type, Esc(t).s, Hex(got).s, Esc(s).s);
	{
		uint8_t *out2 = nullptr; size_t n2 = 0;
		Exact e2(s, strlen(s) + 1);
		wdns_res r2 = wdns_str_to_rdata((char *)e2.p, type, cls, &out2, &n2); tr();
		MC_CHECK(r2 == wdns_res_success, "type %d text `%s' gave %s, whose rendering `%s' was refused", type, Esc(t).s, Hex(got).s, Esc(s).s);
		MC_CHECK(Bytes(out2, out2 + n2) == got, "type %d text `%s' gave %s, whose rendering `%s' gave %s", type, Esc(t).s, Hex(got).s, Esc(s).s, Hex(out2, n2).s);
		free(out2);
	}
	// a message carrying it
	Bytes m = cat({B({0, 1, 0x80, 0, 0, 0, 0, 1, 0, 0, 0, 0}), B({0}), be16(type), be16(cls), be32(5), be16(n), got});
	Exact me(m);
	wdns_message_t msg;
	res = wdns_parse_message(&msg, me.p, me.n); tr();
	MC_CHECK(res == wdns_res_success, "a message record carrying the rdata %s of type %d text `%s' was refused (res %d)", Hex(got).s, type, Esc(t).s, res);
	wdns_rdata_t *rd = type == 41 ? msg.edns.options : msg.sections[1].n_rrs == 1 ? msg.sections[1].rrs[0].rdata : nullptr;
	MC_CHECK(rd && rd->len == n && !memcmp(rd->data, got.data(), n), "a message record carrying the rdata of type %d text `%s' parsed differently", type, Esc(t).s);
	wdns_clear_message(&msg);
	state(hbytes(hstr(type, s), got.data(), got.size())); valid();
	note("%s", Hex(got).s);
	free(s); free(out);
}

void mc::check(const Case &c) {
	int t = g16(c.b[0]), k = g16(c.b[1]);
	switch (c.kind) {
	case K_RENDER: do_render(t, k, c.b[2]); break;
	case K_EXACT: do_exact(t, k, c.b[2]); break;
	case K_ROUND: do_round(t, k, c.b[2]); break;
	case K_TEXT: do_text(t, k, c.b[2], c.b[3][0], c.b[4]); break;
	}
}

// ------------------------------------------------------------------------------------- C06

static void C06() {
	const int otherclasses[] = { 0, 2, 3, 4, 254, 255, 65535 };
	const uint8_t bnd[] = { 0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 129, 191, 192, 254, 255 };
	auto R = [&](const Lay &l, const Bytes &r, int cls = 1) { run(K_RENDER, { be16(l.type), be16(cls), r }); };
	// short octet strings, exhaustively, for every structured type
	const std::vector<uint8_t> a1 = { 0, 1, 2, 4, 16, 63, 64, 128, 192, 255, 'A', '"' }, a2 = { 0, 1, 2, 255 };
	for (auto &l : REF_LAYOUT) {
		R(l, Bytes());
		for (int c = 0; c < 256; c++) R(l, B({c}));
		for (int c = 0; c < 256; c++) for (uint8_t d : bnd) { R(l, B({c, d})); R(l, B({d, c})); }
		std::vector<size_t> idx;
		for (size_t len = 3; len <= (mc::thorough ? 5u : 4u); len++) {
			size_t total = 1; for (size_t i = 0; i < len; i++) total *= a1.size();
			for (size_t k = 0; k < total; k++) { Bytes b(len); size_t q = k; for (size_t i = 0; i < len; i++) { b[i] = a1[q % a1.size()]; q /= a1.size(); } R(l, b); }
		}
		for (size_t len = 5; len <= (mc::thorough ? 9u : 7u); len++) {
			size_t total = 1; for (size_t i = 0; i < len; i++) total *= a2.size();
			for (size_t k = 0; k < total; k++) { Bytes b(len); size_t q = k; for (size_t i = 0; i < len; i++) { b[i] = a2[q % a2.size()]; q /= a2.size(); } R(l, b); }
		}
	}
	// well-formed rdata and everything near it
	for (auto &l : REF_LAYOUT) {
		std::vector<Bytes> base;
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
		size_t cap = mc::thorough ? 1000 : 60, step = prod > cap ? (prod / cap | 1) : 1;
		for (size_t k = 0; k < prod; k += step) { Bytes r; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(r, s[q % s.size()]); q /= s.size(); } base.push_back(r); }
		for (auto &r : base) {
			for (int c : otherclasses) R(l, r, c);
			for (size_t n = 0; n <= r.size(); n++) { if (n > 80 && n + 80 < r.size() && n % 7) continue; R(l, sub(r, 0, n)); R(l, cat({sub(r, 0, n), B({0})})); R(l, cat({sub(r, 0, n), B({255})})); }
			for (uint8_t a : bnd) for (uint8_t b : bnd) if (r.size() < 40) R(l, cat({r, B({a, b})}));
			for (size_t i = 0; i < r.size() && i < 90; i++) {
				if (r.size() <= (mc::thorough ? 90u : 26u)) for (int c = 0; c < 256; c++) { Bytes m = r; m[i] = c; R(l, m); }
				else for (uint8_t c : bnd) { Bytes m = r; m[i] = c; R(l, m); }
			}
			if (r.size() <= 24) for (size_t i = 0; i < r.size(); i++) for (size_t j = i + 1; j < r.size() && j < i + 4; j++) for (uint8_t a : {0, 1, 4, 255}) for (uint8_t b : {0, 1, 3, 255}) { Bytes m = r; m[i] = a; m[j] = b; R(l, m); }
		}
		gen_rdatas(l, false, [&](const Bytes &r) { R(l, r); if (!r.empty()) R(l, sub(r, 0, r.size() - 1)); });
	}
	// service parameters and options: each value truncated, extended, and of every length
	for (int type : {64, 65}) {
		const Lay &l = *ref_layout(type);
		Bytes head = cat({be16(1), B({0})});
		for (int key : {0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65534, 65535}) for (int n = 0; n <= 40; n++) for (int k : {0, 1, 2, 4, 5}) {
			R(l, cat({head, svc(key, pat(n, k))}));
			R(l, cat({head, svc(key, pat(n, k)), svc(7, S("x"))}));
			for (int d : {-1, 1, 256, 65535 - n}) R(l, cat({head, be16(key), be16(n + d), pat(n, k)}));
		}
	}
	{
		const Lay &l = *ref_layout(41);
		for (int code : {0, 1, 3, 8, 10, 12, 15, 255, 65535}) for (int n = 0; n <= 40; n++) for (int k : {0, 1, 2, 4, 5}) {
			R(l, opt1(code, pat(n, k)));
			R(l, cat({opt1(code, pat(n, k)), opt1(3, S("x"))}));
			for (int d : {-1, 1, 256, 65535 - n}) R(l, cat({be16(code), be16(n + d), pat(n, k)}));
		}
		for (int fam = 0; fam < 4; fam++) for (int n = 0; n <= 20; n++) for (int pl : {0, 8, 32, 33, 128, 129, 255}) R(l, opt1(8, cat({be16(fam), B({pl, 0}), pat(n, 5)})));
	}
	// very long rdata
	for (int type : {1, 2, 10, 16, 41, 43, 47, 48, 50, 64, 256, 257, 60, 65280}) for (int k = 0; k < 6; k++) for (size_t n : {4097, 32767, 32768, 65534, 65535}) run(K_RENDER, { be16(type), be16(1), pat(n, k) });
	for (size_t n : {0, 1, 2, 3, 4, 255, 256, 32766, 32767, 49149, 65530, 65531}) run(K_RENDER, { be16(48), be16(1), cat({be16(1), B({2, 3}), pat(n, 5)}) });
	// every type code
	for (int t = 0; t < 65536; t++) {
		run(K_RENDER, { be16(t), be16(1), Bytes() });
		run(K_RENDER, { be16(t), be16(1), B({1, 'a', 0, 2, 255, 0, 'Z'}) });
		run(K_RENDER, { be16(t), be16(3), B({0xff, 0}) });
	}
}

static void C07() {
	auto R = [&](int type, int cls, const Bytes &r) { run(K_EXACT, { be16(type), be16(cls), r }); };
	for (auto &l : REF_LAYOUT) gen_rdatas(l, true, [&](const Bytes &r) { R(l.type, 1, r); if (r.size() < 64) R(l.type, 3, r); });
	for (int i = 0; i < 65536; i++) { R(15, 1, cat({be16(i), B({0})})); R(256, 1, cat({be16(i), be16(65535 - i), B({'u'})})); R(47, 1, cat({B({0}), window(i >> 8, {i & 255})})); }
	for (int t = 0; t < 65536; t++) { if (ref_layout(t)) continue; R(t, 1, B({0, 0x9a, 0xff})); if (t % 16 == 0 || t < 300) { R(t, 3, Bytes()); R(t, 1, pat(t % 97, 5)); } }
	for (auto &l : REF_LAYOUT) if (l.in) for (int c : {0, 2, 3, 4, 254, 255, 256, 257, 32769, 65535}) for (size_t n : {0, 1, 2, 4, 5, 16, 17, 100}) R(l.type, c, pat(n, 5));
	for (int c = 0; c < 65536; c++) if (c != 1) { R(1, c, B({1, 2, 3, 4})); R(33, c, B({0, 1, 0, 2, 0, 3, 0})); }
	for (int c = 0; c < 256; c++) R(65280, 1, B({c}));
	for (size_t n : {1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32768, 65535}) { R(65280, 1, pat(n, 5)); R(10, 1, pat(n, 5)); R(61, 1, pat(n, 5)); }
	if (mc::thorough) for (int v4 = 0; v4 < 65536; v4++) { R(1, 1, cat({be16(v4), be16(65535 - v4)})); R(28, 1, cat({be16(0x2001), be16(v4), rep(0, 8), be16(v4 * 7), be16(v4 & 1)})); }
}

static void C08() {
	auto R = [&](int type, int cls, const Bytes &r) { if (r.size() <= 65535) run(K_ROUND, { be16(type), be16(cls), r }); };
	for (auto &l : REF_LAYOUT) if (l.type != 41) gen_rdatas(l, true, [&](const Bytes &r) { R(l.type, 1, r); if (r.size() < 64) R(l.type, 3, r); });
	for (int i = 0; i < 65536; i++) { R(15, 1, cat({be16(i), B({0})})); R(47, 1, cat({B({0}), window(i >> 8, {i & 255})})); R(62, 1, cat({be32(i * 65537u), be16(i), window(0, {i & 255}), window(255, {i >> 8})})); }
	for (int a = 0; a < 256; a += 3) for (int b = a + 1; b < 256; b += 5) { R(50, 1, cat({B({1, 0, 0, 0, 0, 1, 7}), window(a, {b}), window(b, {a})})); R(47, 1, cat({B({0}), window(a, {a, b})})); }
	for (int t = 0; t < 65536; t++) { if (ref_layout(t)) continue; R(t, 1, B({0, 0x9a, 0xff})); if (t % 16 == 0 || t < 300) { R(t, 3, Bytes()); R(t, 1, pat(t % 97, 5)); } }
	for (auto &l : REF_LAYOUT) if (l.in) for (int c : {0, 2, 3, 4, 254, 255, 256, 257, 32769, 65535}) for (size_t n : {0, 1, 2, 4, 5, 16, 17, 100}) R(l.type, c, pat(n, 5));
	for (int c = 0; c < 65536; c++) if (c != 1) { R(1, c, B({1, 2, 3, 4})); R(33, c, B({0, 1, 0, 2, 0, 3, 0})); }
	for (int c = 0; c < 256; c++) R(65280, 1, B({c, 255 - c}));
	// maximum sizes
	for (size_t n : {1000, 32767, 32768, 65534, 65535}) { R(65280, 1, pat(n, 5)); R(10, 1, pat(n, 5)); R(61, 1, pat(n, 5)); R(256, 1, cat({be16(1), be16(2), pat(n - 4, 2)})); }
	{ Bytes b; for (int i = 0; i < 256; i++) app(b, lv(pat(i == 255 ? 254 : 255, i % 6))); R(16, 1, b); R(99, 1, b); }
	R(64, 1, cat({be16(1), B({0}), svc(7, pat(65535 - 7, 2))})); R(64, 1, cat({be16(1), B({0}), svc(5, pat(65535 - 7, 2))}));
	{ Bytes al; for (int i = 0; i < 250; i++) app(al, lv(pat(255, i % 6))); R(65, 1, cat({be16(1), B({0}), svc(1, al)})); }
	R(64, 1, cat({be16(1), B({0}), svc(4, pat(65528, 5))})); R(64, 1, cat({be16(1), B({0}), svc(6, pat(65520, 5))})); { Bytes k; for (int i = 0; i < 32764; i++) app(k, be16(i)); R(64, 1, cat({be16(1), B({0}), svc(0, k)})); }
}

// ------------------------------------------------------------------------------------- C09

struct Tok { Bytes text; int v; Bytes val; };      // v: 1 must be accepted as val, 2 must be refused, 3 must be refused as the last token, 0 unspecified
static Bytes hexs(const Bytes &b, bool up = true) { Bytes o; puthex(o, b.data(), b.size(), up); return o; }
static Bytes b32s(const Bytes &b) { Bytes o; putb32(o, b.data(), b.size()); return o; }
static Bytes b64s(const Bytes &b) { Bytes o; putb64(o, b.data(), b.size()); return o; }
static Bytes lower(Bytes b) { for (auto &c : b) if (c >= 'A' && c <= 'Z') c += 32; return b; }
static Bytes quoted(const Bytes &b) { Bytes o; putquoted(o, b.data(), b.size()); return o; }
static Bytes bitmap_of(std::vector<int> t) {
	std::sort(t.begin(), t.end()); Bytes o;
	for (size_t i = 0; i < t.size();) { int w = t[i] >> 8; std::vector<int> lo; while (i < t.size() && t[i] >> 8 == w) lo.push_back(t[i++] & 255); app(o, window(w, lo)); }
	return o;
}
static void numtoks(std::vector<Tok> &v, int bytes) {
	auto good = [&](uint64_t x) { Bytes t; putnum(t, x); Bytes b; for (int i = bytes - 1; i >= 0; i--) b.push_back(x >> (8 * i)); v.push_back({t, 1, b}); };
	uint64_t mx = bytes == 4 ? 0xffffffffull : (1ull << (8 * bytes)) - 1;
	for (uint64_t x : {0ull, 1ull, 9ull, 10ull, 99ull, 100ull, 127ull, 128ull}) good(x);
	good(mx); good(mx - 1);
	for (const char *s : { "-1", "+1", "1a", "a", "0x10", "1.0", "1,", "--", "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999", "\"1\"", "\\049", "1-", "-0", "1_", "/", ":", "9:" }) v.push_back({S(s), 2, {}});
	for (uint64_t x : { mx + 1, mx + 2, 2 * mx + 1, 2 * mx + 2, 256 * (mx + 1), 256 * (mx + 1) + 5, (uint64_t)1 << 32, ((uint64_t)1 << 32) + 1, (uint64_t)1 << 63, ~(uint64_t)0, ~(uint64_t)0 - 5 }) if (x > mx) { Bytes t; putnum(t, x); v.push_back({t, 2, {}}); }
	v.push_back({S("007"), 0, {}}); v.push_back({S("00000000000000000000000000000000000001"), 0, {}});
}
static const std::vector<Tok> &toks(Fld f) {
	static std::vector<Tok> cache[32]; auto &v = cache[f];
	if (!v.empty()) return v;
	auto good = [&](const Bytes &t, const Bytes &b) { v.push_back({t, 1, b}); };
	auto bad = [&](const Bytes &t) { v.push_back({t, 2, {}}); };
	auto odd = [&](const Bytes &t) { v.push_back({t, 0, {}}); };
	switch (f) {
	case fName: {
		auto add = [&](const Bytes &t) { for (uint8_t c : t) if (c == ' ' || (c >= 9 && c <= 13)) return; Bytes w; if (ref_text_name(t.data(), t.size(), false, w)) good(t, w); else bad(t); };
		for (auto s : { "example.com.", "example.com", ".", "A.b.", "..", "a..", "a..b", ".a", "a\\", "a\\256.", "a\\1", "a\\12.", "\\065.", "\\046x.", "a\\.b.", "-", "\"", "*.x", "\\000.", "@" }) add(S(s));
		for (size_t n : {62, 63, 64, 65, 127, 128, 255, 256, 300}) { add(rep('a', n)); add(cat({rep('a', n), S(".b.")})); Bytes e; for (size_t i = 0; i < n; i++) put(e, "\\200"); add(e); }
		for (size_t n : {59, 60, 61, 62}) add(cat({rep('a', 63), S("."), rep('b', 63), S("."), rep('c', 63), S("."), rep('d', n), S(".")}));
		for (size_t n : {126, 127, 128, 129}) { Bytes t; for (size_t i = 0; i < n; i++) put(t, "a."); add(t); }
		break;
	}
	case fI8: numtoks(v, 1); break;
	case fI16: numtoks(v, 2); break;
	case fI32: numtoks(v, 4); break;
	case fV4: case fV6: {
		int af = f == fV4 ? AF_INET : AF_INET6;
		for (auto s : { "1.2.3.4", "255.255.255.255", "0.0.0.0", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.", "1..2.3", "1.2.3.4x", "x", "::", "::1", "1::", "2001:db8::1", "1:2:3:4:5:6:7:8",
			"1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "::ffff:1.2.3.4", "::ffff:1.2.3.256", "1::2::3", "12345::", "g::", ":1", "1:", ":::", "fe80::1%1", "0x1::", "ABCD::ef", "-1.2.3.4", "+1.2.3.4" }) {
			uint8_t a[16]; if (inet_pton(af, s, a) == 1) good(S(s), Bytes(a, a + (f == fV4 ? 4 : 16))); else bad(S(s));
		}
		break;
	}
	case fStr: case fBStr: case fRep: {
		auto val = [&](const Bytes &b) { return f == fBStr ? b : lv(b); };
		for (auto &b : { S("abc"), S("a b"), Bytes(), B({'"'}), B({'\\'}), B({0}), B({255, 128, 127}), S("a;b(c)"), rep('x', 254), rep('x', 255), pat(255, 2), S("\t") }) {
			if (f == fBStr && b.empty()) continue;
			good(quoted(b), val(b));
		}
		if (f != fBStr) for (auto &b : { rep('x', 256), rep('x', 257), rep('x', 511), rep('x', 512), rep('x', 513), rep('x', 767), rep('x', 768), pat(256, 2), pat(300, 5) }) { bad(quoted(b)); }
		if (f != fBStr) { good(S("abc"), lv(S("abc"))); good(S("a\\\"b"), lv(S("a\"b"))); good(S("\\065\\\\"), lv(S("A\\"))); good(rep('y', 255), lv(rep('y', 255))); bad(rep('y', 256)); bad(rep('y', 512)); bad(S("a\\")); bad(S("a\\256")); bad(S("a\\1")); bad(S("a\\1x1")); }
		else { good(quoted(rep('x', 256)), rep('x', 256)); good(quoted(rep('x', 5000)), rep('x', 5000)); odd(S("abc")); odd(S("\"\"")); odd(S("\"\"\"")); }
		good(S("\"\\065\""), val(S("A"))); good(S("\"\\000\\255\""), val(B({0, 255})));
		for (auto q : { "\"abc", "\"", "\"a\\\"" }) v.push_back({S(q), 3, {}}); bad(S("\"\\256\"")); bad(S("\"\\999\"")); bad(S("\"\\25\"")); bad(S("\"\\2\"")); bad(S("\"\\1 1\"")); bad(S("\"\\-01\""));
		odd(S("\"\\a\"")); odd(S("\"\x01\"")); odd(S("\"\x80\""));
		if (f == fRep) {
			good(S("a \"b c\"   d"), cat({lv(S("a")), lv(S("b c")), lv(S("d"))})); good(S("\"\" \"\""), B({0, 0})); bad(S("a \"b")); bad(cat({S("\"a\" "), rep('z', 256)})); bad(S("a b\\"));
			odd(S("\"a\"\"b\"")); odd(S("\"a\"b"));
		}
		break;
	}
	case fHex:
		for (auto &b : { B({0}), B({0xff}), B({0x12, 0xab, 0xEF}), pat(300, 5) }) { good(hexs(b), b); good(hexs(b, false), b); }
		for (auto s : { "1", "123", "zz", "0x", "0x12", "gg", "1g", "g1", "+1", "-1", "1-", "1+", "..", "12zz", "123g", "ab-c", "abc-", "\"ab\"", "/0", ":0", "@0", "G0", "`0", "0/", "0:", "0@", "0G", "0`", "x1", "\\0", "0X" }) bad(S(s));
		odd(S("ab cd")); odd(S("ab ")); odd(S("a b"));
		break;
	case fB64: for (int n = 1; n < 9; n++) good(b64s(pat(n, 5)), pat(n, 5)); good(b64s(pat(500, 2)), pat(500, 2)); for (auto s : { "=", "!", "A", "AA", "AAA", "A=A=", "QUJD RA==", "QUJD!RA==", "====", "QQ=", "Q Q = =" }) odd(S(s)); break;
	case fPfx:
		for (int p = 0; p <= 128; p++) { int k = (128 - p + 7) / 8; Bytes a = cat({rep(0, 16 - k), pat(k, 5)}), t; putnum(t, p); t.push_back(' '); putaddr(t, AF_INET6, a.data()); good(t, cat({B({p}), pat(k, 5)})); }
		for (auto s : { "129 ::", "200 ::", "255 ::", "256 ::", "257 ::1", "320 ::1", "384 ::", "512 ::", "65536 ::", "4294967296 ::", "18446744073709551616 ::", "-1 ::", "+1 ::", "x ::", "64 1.2.3.4", "64 :::", "64 g::", "0x1 ::", "64 name.", "127 a.", "1", "64" }) bad(S(s));
		break;
	case fSalt:
		good(S("-"), B({0})); for (int n : {1, 2, 8, 20, 127, 128, 254, 255}) { good(hexs(pat(n, 5)), lv(pat(n, 5))); good(hexs(pat(n, 5), false), lv(pat(n, 5))); }
		for (int n : {256, 257, 300, 511, 512, 513}) bad(hexs(pat(n, 5)));
		for (auto s : { "1", "123", "gg", "0x", "1g", "g1", "+1", "-1", "--", "1-", "abcg", "ab-1", "/0", "0:" }) bad(S(s));
		break;
	case fHash:
		for (int n : {1, 2, 3, 4, 5, 6, 19, 20, 21, 32, 128, 254, 255}) { good(b32s(pat(n, 5)), lv(pat(n, 5))); good(lower(b32s(pat(n, 5))), lv(pat(n, 5))); }
		good(S("0"), B({0}));
		for (int n : {256, 257, 300, 511, 512, 513, 768}) bad(b32s(pat(n, 5)));
		for (auto s : { "WW", "zz", "!!", "0-", "--", "00W", "0000000W", "00000000-0", "00!" }) bad(S(s));
		odd(S("!")); odd(S("01")); odd(S("001")); odd(S("00=")); odd(S("========")); odd(S("="));
		break;
	case fType: case fMap: {
		auto val = [&](int t) { return f == fType ? be16(t) : bitmap_of({t}); };
		for (int t : {1, 2, 46, 255, 256, 257, 32769}) { good(S(ref_type_name(t)), val(t)); good(lower(S(ref_type_name(t))), val(t)); }
		for (int t : {0, 1, 53, 300, 511, 512, 32767, 32768, 65279, 65534, 65535}) { Bytes x; put(x, "TYPE"); putnum(x, t); good(x, val(t)); good(lower(x), val(t)); }
		for (auto s : { "TYPE65536", "TYPE65537", "TYPE131072", "TYPE4294967296", "TYPE4294967297", "TYPE-1", "TYPE1x", "FOO", "AX", "TYPEA", "TYPE18446744073709551617" }) bad(S(s));
		for (auto s : { "TYPE", "TYPE+1", "TYPE00001", "TYPE0x1" }) odd(S(s));
		if (f == fMap) {
			good(S("A NS MX TXT AAAA RRSIG NSEC"), bitmap_of({1, 2, 15, 16, 28, 46, 47})); good(S("NSEC RRSIG AAAA A TYPE65535 TYPE256"), bitmap_of({1, 28, 46, 47, 256, 65535}));
			good(S("A A A"), bitmap_of({1})); good(S("TYPE1 A"), bitmap_of({1})); good(S("URI CAA TYPE258 A"), bitmap_of({1, 256, 257, 258}));
			bad(S("A FOO")); bad(S("FOO A")); bad(S("A TYPE65536"));
		}
		break;
	}
	case fE48: case fE64: {
		int n = f == fE48 ? 6 : 8;
		auto txt = [&](const Bytes &b, bool up, char sep) { Bytes o; for (size_t i = 0; i < b.size(); i++) { if (i) o.push_back(sep); puthex(o, &b[i], 1, up); } return o; };
		for (int k : {0, 1, 5}) { good(txt(pat(n, k), true, '-'), pat(n, k)); good(txt(pat(n, k), false, '-'), pat(n, k)); }
		bad(txt(pat(n, 5), true, ':')); bad(txt(pat(n - 1, 5), true, '-')); bad(txt(pat(n + 1, 5), true, '-')); bad(hexs(pat(n, 5)));
		Bytes g = txt(pat(n, 5), false, '-');
		for (size_t i = 0; i < g.size(); i++) for (int c : {'g', 'x', '+', ':', '/', 'G', '@', '`', '.'}) { Bytes m = g; m[i] = c; bad(m); }
		break;
	}
	case fSvc: {
		auto sv = [&](const char *t, const Bytes &b) { good(S(t), b); };
		sv("alpn=h2", svc(1, lv(S("h2")))); sv("alpn=\"h2,h3\"", svc(1, cat({lv(S("h2")), lv(S("h3"))}))); sv("key1=h2", svc(1, lv(S("h2"))));
		sv("alpn=\"f\\\\\\\\oo\\\\,bar,h2\"", svc(1, cat({lv(S("f\\oo,bar")), lv(S("h2"))})));
		sv("no-default-alpn", svc(2, {})); sv("port=0", svc(3, be16(0))); sv("port=65535", svc(3, be16(65535))); sv("port=\"53\"", svc(3, be16(53)));
		sv("ipv4hint=1.2.3.4", svc(4, B({1, 2, 3, 4}))); sv("ipv4hint=1.2.3.4,5.6.7.8", svc(4, B({1, 2, 3, 4, 5, 6, 7, 8}))); sv("ipv6hint=::", svc(6, rep(0, 16))); sv("ipv6hint=::,::1", svc(6, cat({rep(0, 31), B({1})})));
		sv("ech=QUJD", svc(5, S("ABC"))); sv("mandatory=alpn", svc(0, be16(1))); sv("mandatory=ipv4hint,key65534,port", svc(0, cat({be16(4), be16(65534), be16(3)})));
		sv("key7=abc", svc(7, S("abc"))); sv("key7=\"\"", svc(7, {})); sv("key65534=\"a b\\\\\\\"\\000\\255\"", svc(65534, B({'a', ' ', 'b', '\\', '"', 0, 255}))); sv("key10=\"a,b\"", svc(10, S("a,b")));
		sv("mandatory=alpn alpn=h2   port=1", cat({svc(0, be16(1)), svc(1, lv(S("h2"))), svc(3, be16(1))}));
		for (int n : {191, 192, 255, 256, 300, 1000}) good(cat({S("ech="), b64s(pat(n, 5))}), svc(5, pat(n, 5)));
		for (int n : {254, 255}) { good(cat({S("alpn="), rep('p', n)}), svc(1, lv(rep('p', n)))); good(cat({S("alpn=\"x,"), rep('p', n), S(",y\"")}), svc(1, cat({lv(S("x")), lv(rep('p', n)), lv(S("y"))}))); }
		for (int n : {256, 257, 511, 512, 513}) { bad(cat({S("alpn="), rep('p', n)})); bad(cat({S("alpn=\"x,"), rep('p', n), S(",y\"")})); Bytes c; for (int i = 0; i < n; i++) put(c, "\\\\,"); bad(cat({S("alpn=\""), c, S("\"")})); }
		for (auto s : { "alpn", "alpn=", "alpn=\"\"", "alpn=\",\"", "alpn=\"a,\"", "alpn=\",a\"", "alpn=\"a\\\\b\"", "no-default-alpn=1", "no-default-alpn=\"\"", "no-default-alpn=",
			"port=65536", "port=65537", "port=-1", "port=+1", "port=1a", "port=", "port=\"\"", "port=a", "port", "port=\"1 2\"", "port=\" 1\"", "port=4294967297", "port=18446744073709551617", "port=99999999999999999999", "port=0x1", "port=\"1\\000\"", "port=1,2",
			"ipv4hint=", "ipv4hint=1.2.3", "ipv4hint=1.2.3.256", "ipv4hint=::1", "ipv4hint=1.2.3.4,x", "ipv4hint=\"1.2.3.4\\000\"", "ipv4hint=\"1.2.3.4\\000,5.6.7.8\"", "ipv6hint=1.2.3.4", "ipv6hint=:::", "ipv6hint=::,g", "ipv6hint=", "ipv6hint=\"::\\0001\"",
			"ech", "ech=", "ech=\"\"", "mandatory", "mandatory=", "mandatory=foo", "mandatory=alpn,foo", "mandatory=key65535", "mandatory=key65536", "mandatory=\"alpn\\000x\"", "mandatory=ALPN",
			"key65535=a", "key65536=a", "key65537=a", "key131072=a", "key4294967296=a", "key18446744073709551617=a", "key-1=a", "key+1=a", "key=a", "key1x=a", "keyx=a", "key7", "foo=bar", "Alpn=h2", "key 7=a", "=a", "alpn=\"h2", "key7=\"a", "key7=\"\\256\"", "key7=a\\" })
			bad(S(s));
		for (auto s : { "mandatory=alpn,,port", "mandatory=,alpn", "mandatory=alpn,", "ipv4hint=1.2.3.4,", "ipv4hint=,1.2.3.4", "ipv4hint=\"1.2.3.4, 5.6.7.8\"", "ech=!", "ech=A", "ech=\"QUJD RA==\"", "ech=====", "key007=a", "port=080", "key7=a\"b", "alpn=h2alpn=h3", "key7=\"a\"key8=b", "alpn=h2\tport=1", "alpn=h2 alpn=h3" }) odd(S(s));
		break;
	}
	case fOpt: odd(S("x")); odd(S("OPT=3: 69 64 (\"id\")")); break;
	case fEnd: break;
	}
	return v;
}

static void C09() {
	auto T = [&](int type, int cls, const Bytes &t, int v = 0, const Bytes &val = Bytes()) { run(K_TEXT, { be16(type), be16(cls), t, B({v}), val }); };
	// token grammar: one field swept over all its tokens, the others over good defaults
	for (auto &l : REF_LAYOUT) {
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		auto emit = [&](const std::vector<const Tok *> &ts, const char *sep) {
			Bytes t, val; int v = 1;
			for (size_t i = 0; i < ts.size(); i++) {
				if (i) put(t, sep);
				app(t, ts[i]->text); app(val, ts[i]->val);
				int tv = ts[i]->v == 3 ? (i + 1 == ts.size() ? 2 : 0) : ts[i]->v;      // 3: an unterminated quote, bad only at the end
				if (tv == 0) v = 0; else if (tv == 2 && v == 1) v = 2;
			}
			if (l.type == 38 && v == 1 && val[0] == 0) v = ts.size() > 1 ? 2 : 1;      // a name after prefix length zero
			if (l.type == 38 && ts[0]->v == 2) v = 2;
			if (l.type == 38 && ts[0]->v == 1 && ts.size() > 1 && ts[1]->v == 1 && val[0] != 0) v = 1;
			if (ts.size() < fs.size() && v == 1 && !(l.type == 38 && val[0] == 0)) v = 0;
			// a bad token behind an unspecified amount of input stays unspecified
			T(l.type, 1, t, v, v == 1 ? val : Bytes());
			if (!l.in && t.size() < 60) T(l.type, 3, t, v, v == 1 ? val : Bytes());
			if (l.in && t.size() < 60 && !(t.size() > 1 && t[0] == '\\' && t[1] == '#')) T(l.type, 3, t, t.empty() ? 0 : 2);      // known in class IN only
		};
		for (size_t i = 0; i < fs.size(); i++) {
			std::vector<const Tok *> ts; for (Fld f : fs) ts.push_back(&toks(f)[0]);
			for (auto &tk : toks(fs[i])) {
				ts[i] = &tk;
				emit(ts, " "); emit(ts, "   "); emit(ts, "\t");
				std::vector<const Tok *> pre(ts.begin(), ts.begin() + i + 1);
				if (pre.size() < ts.size()) emit(pre, " ");
				Bytes t; for (size_t j = 0; j < ts.size(); j++) { if (j) t.push_back(' '); app(t, ts[j]->text); }
				T(l.type, 1, cat({S("  "), t})); T(l.type, 1, cat({t, S(" ")})); T(l.type, 1, cat({t, S(" junk")})); T(l.type, 1, cat({t, S("\n")})); if (l.in) T(l.type, 3, t);
				for (size_t n = 0; n < t.size() && n < 40; n++) T(l.type, 1, sub(t, 0, n));
			}
		}
		// pairs of fields
		for (size_t i = 0; i < fs.size(); i++) for (size_t j = i + 1; j < fs.size(); j++) {
			std::vector<const Tok *> ts; for (Fld f : fs) ts.push_back(&toks(f)[0]);
			auto &A = toks(fs[i]), &C = toks(fs[j]); size_t st = mc::thorough ? 1 : 4;
			for (size_t a = 0; a < A.size(); a += st) for (size_t c = (a / st) % st; c < C.size(); c += st) { ts[i] = &A[a]; ts[j] = &C[c]; if (A[a].text.size() + C[c].text.size() < 1500) emit(ts, " "); }
		}
	}
	// generic form
	struct TC { int t, c; };
	for (TC tc : std::initializer_list<TC>{{0, 1}, {22, 1}, {32, 1}, {53, 1}, {63, 1}, {66, 1}, {98, 1}, {255, 1}, {258, 1}, {4096, 3}, {32769, 1}, {65280, 0}, {65535, 1}, {1, 3}, {28, 255}, {38, 4}, {33, 0}, {64, 65535}, {257, 2}, {11, 254}}) {
		for (size_t n : {0, 1, 2, 3, 9, 10, 99, 100, 255, 256}) {
			Bytes b = pat(n, 5), t; put(t, "\\# "); putnum(t, n); Bytes t2 = t; t2.push_back(' '); app(t2, hexs(b, false)); T(tc.t, tc.c, t2, 1, b);
			for (uint8_t c : b) { t.push_back(' '); puthex(t, &c, 1, true); }
			T(tc.t, tc.c, t, 1, b);
			for (int d : {-1, 1, 256, 65536, 131072}) { if ((int)n + d < 0) continue; Bytes u; put(u, "\\# "); putnum(u, n + d); u.push_back(' '); app(u, hexs(b)); T(tc.t, tc.c, u, 2); }
			Bytes u; put(u, "\\# "); putnum(u, n + (1ull << 32)); u.push_back(' '); app(u, hexs(b)); T(tc.t, tc.c, u, 2);
			u.clear(); put(u, "\\# 18446744073709551616"); u.push_back(' '); app(u, hexs(b)); T(tc.t, tc.c, u, 2);
		}
		for (auto s : { "\\#", "\\# ", "\\#   ", "\\# x", "\\# -1", "\\# -1 aa", "\\# +1 aa", "\\# 1", "\\# 1 ", "\\# 1 a", "\\# 1 gg", "\\# 1 0x", "\\# 1 +1", "\\# 1 -1", "\\# 1 a-", "\\# 2 aabb0", "\\# 1a aa", "\\# 0 aa", "foo", "#", "\\", "aa", "1 aa", "\\#\\# 1 aa", "\\# 1 :0", "\\# 1 0@", "\\# 1 \"a", "\\# 2 aag0" }) T(tc.t, tc.c, S(s), 2);
		for (auto s : { "", " ", "\\#1 aa", "\\# 01 aa", "\\# 1\taa", "\\#\t1 aa", "\\# 2 a abb", "\\# 1 aa\n", "\\# 1 a a" }) T(tc.t, tc.c, S(s));
	}
	{ Bytes t; put(t, "\\# 65535 "); app(t, hexs(pat(65535, 5))); T(65280, 1, t, 1, pat(65535, 5)); }
	{ Bytes t; put(t, "\\# 65536 "); app(t, hexs(pat(65536, 5))); T(65280, 1, t, 2); }
	{ Bytes t; put(t, "\\# 0 "); app(t, hexs(pat(65536, 5))); T(65280, 1, t, 2); }
	// total length limit
	for (size_t n : {65534, 65535}) { T(10, 1, hexs(pat(n, 5)), 1, pat(n, 5)); T(61, 1, b64s(pat(n, 5)), 1, pat(n, 5)); }
	// character strings whose length is a small one modulo 256 or 65536
	for (size_t base : {256, 512, 32768, 65536, 131072}) for (int d : {-1, 0, 1, 2, 5, 100, 254, 255}) { if (base + d < 256) continue; Bytes x = rep('u', base + d), q = quoted(x), e; for (size_t i = 0; i < base + d; i++) put(e, "\\065"); T(16, 1, x, 2); T(16, 1, q, 2); T(16, 1, e, 2); T(16, 1, cat({S("a "), q, S(" b")}), 2); T(13, 1, cat({q, S(" x")}), 2); T(13, 1, cat({S("x "), x}), 2); T(257, 1, cat({S("1 "), q, S(" \"v\"")}), 2); T(35, 1, cat({S("1 2 "), q, S(" \"\" \"\" .")}), 2); T(2, 1, cat({x, S(".")}), 2); T(20, 1, q, 2); T(64, 1, cat({S("1 . alpn="), x}), 2); if (base > 300) T(50, 1, cat({S("1 1 1 - "), x, S(" A")}), 2); }
	for (size_t n : {65536, 65537, 70000, 131072}) { T(10, 1, hexs(pat(n, 5)), 2); T(61, 1, b64s(pat(n, 5)), 2); T(256, 1, cat({S("1 2 "), quoted(rep('u', n))}), 2); T(257, 1, cat({S("1 \"t\" "), quoted(rep('u', n))}), 2); T(64, 1, cat({S("1 . key7="), rep('u', n)}), 2); T(64, 1, cat({S("1 . ech="), b64s(pat(n, 5))}), 2); }
	for (int n : {256, 257}) for (int last : {253, 254, 255}) {
		Bytes t, val; for (int i = 0; i < n; i++) { size_t k = i == n - 1 ? last : 255; app(t, quoted(pat(k, 4))); t.push_back(' '); app(val, lv(pat(k, 4))); }
		if (val.size() <= 65535) T(16, 1, t, 1, val); else T(16, 1, t, 2);
	}
	{ Bytes t = S("1 . ipv4hint=1.1.1.1"); for (int i = 0; i < 16383; i++) put(t, ",1.1.1.1"); T(64, 1, t, 2); }
	{ Bytes t = S("1 . mandatory=port"); for (int i = 0; i < 32767; i++) put(t, ",alpn"); T(64, 1, t, 2); }
	{ Bytes t = S("1 . alpn=\"a"); for (int i = 0; i < 32767; i++) put(t, ",b"); t.push_back('"'); T(64, 1, t, 2); }
	// every rdata text the renderer itself produces, minus characters
	for (auto &l : REF_LAYOUT) {
		if (l.type == 41) continue;
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
		size_t cap = mc::thorough ? 400 : 24, step = prod > cap ? (prod / cap | 1) : 1;
		for (size_t k = 0; k < prod; k += step) {
			Bytes r, t; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(r, s[q % s.size()]); q /= s.size(); }
			if (ref_render(r, l.type, 1, t) != V_WELL || t.size() > 400) continue;
			for (size_t i = 0; i <= t.size(); i++) {
				T(l.type, 1, sub(t, 0, i));
				if (i < t.size()) { Bytes m = t; m.erase(m.begin() + i); T(l.type, 1, m); for (int c : std::initializer_list<int>{' ', '"', '\\', '0', 'x', ',', '=', 1, 255, '.', '-'}) { m = t; m[i] = c; T(l.type, 1, m); if (t.size() < 80) { m = t; m.insert(m.begin() + i, c); T(l.type, 1, m); } } }
			}
		}
	}
	// all short texts over a small alphabet, for every type
	const char *alpha = "01a.\\\" -:=,#zF";
	size_t A = strlen(alpha), maxlen = mc::thorough ? 5 : 4;
	auto allc = [&](int type, int cls, const Bytes &prefix, size_t maxl) {
		for (size_t len = 0; len <= maxl; len++) {
			size_t total = 1; for (size_t i = 0; i < len; i++) total *= A;
			for (size_t k = 0; k < total; k++) { Bytes b = prefix; size_t q = k; for (size_t i = 0; i < len; i++) { b.push_back(alpha[q % A]); q /= A; } T(type, cls, b); }
		}
	};
	auto all = [&](int type, const Bytes &prefix, size_t maxl) { allc(type, 1, prefix, maxl); };
	for (auto &l : REF_LAYOUT) all(l.type, {}, l.type == 3 || l.type == 4 || l.type == 7 || l.type == 8 || l.type == 9 || l.type == 12 || l.type == 41 ? 2 : maxlen);
	all(65280, {}, maxlen); for (int type : {1, 28, 64}) { allc(type, 3, {}, 3); allc(type, 3, S("\\# "), maxlen); allc(type, 3, S("\\# 1 "), maxlen); }
	all(65280, S("\\# "), maxlen); all(65280, S("\\# 1 "), maxlen);
	all(43, S("1 2 3 "), maxlen); all(51, S("1 2 3 "), maxlen); all(50, S("1 2 3 - "), maxlen); all(38, S("64 "), maxlen); all(38, S("12"), maxlen); all(257, S("0 \"t\" "), maxlen); all(13, S("\""), maxlen);
	// service parameters from tokens
	const char *tk[] = { "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "mandatory", "key7", "key65535", "=", "\"", ",", " ", "\\", "\\\\", "h2", "443", "1.2.3.4", "::1", "QUJD", "\\000", "0", "key" };
	size_t NT = sizeof tk / sizeof *tk;
	for (size_t len = 1; len <= (mc::thorough ? 5u : 4u); len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= NT;
		for (size_t k = 0; k < total; k++) { Bytes b = S("1 . "); size_t q = k; for (size_t i = 0; i < len; i++) { put(b, tk[q % NT]); q /= NT; } T(64, 1, b); }
	}
	const char *vk[] = { "a", ",", "\\", "\"", " ", "\\\\", "\\\"", "\\044", "\\092", "\\000" };
	for (auto key : { "alpn=\"", "alpn=", "key7=\"", "mandatory=\"alpn" }) for (size_t len = 1; len <= (mc::thorough ? 6u : 5u); len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= 10;
		for (size_t k = 0; k < total; k++) { Bytes b = S("1 . "); put(b, key); size_t q = k; for (size_t i = 0; i < len; i++) { put(b, vk[q % 10]); q /= 10; } put(b, "\""); T(65, 1, b); }
	}
	// type bitmaps from tokens
	const char *ty[] = { "A", "TYPE0", "TYPE255", "URI", "TYPE511", "TYPE65280", "TYPE65535", "RRSIG", "aaaa", "\t", "FOO" };
	const int tv[] = { 1, 0, 255, 256, 511, 65280, 65535, 46, 28, -1, -2 };
	for (size_t len = 1; len <= (mc::thorough ? 5u : 4u); len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= 11;
		for (size_t k = 0; k < total; k++) {
			Bytes b = S("x."); std::vector<int> t; bool bad = false; size_t q = k;
			for (size_t i = 0; i < len; i++) { b.push_back(' '); put(b, ty[q % 11]); int v = tv[q % 11]; q /= 11; if (v == -2) bad = true; else if (v >= 0) t.push_back(v); }
			T(47, 1, b, bad ? 2 : 1, bad ? Bytes() : cat({wname({"x"}), bitmap_of(t)}));
		}
	}
}

void mc::enumerate() {
	if (P("C06")) C06();
	if (P("C07")) C07();
	if (P("C08")) C08();
	if (P("C09")) C09();
}
