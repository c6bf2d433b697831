// Field value catalogues and rdata enumeration shared by the rdata, RRset and message harnesses.
#pragma once
#include "refrdata.hpp"

static inline Bytes pat(size_t n, int k) { // deterministic patterns
	Bytes r(n);
	for (size_t i = 0; i < n; i++) r[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)i : k == 3 ? (uint8_t)(255 - i) : k == 4 ? "\\\",A z.\x7f"[i % 8] : (uint8_t)(i * 37 + 11);
	return r;
}
static inline Bytes wname(std::initializer_list<const char *> labs) {
	Bytes r; for (auto l : labs) { r.push_back((uint8_t)strlen(l)); app(r, S(l)); } r.push_back(0); return r;
}
static inline Bytes rawname(const std::vector<Bytes> &labs) { return ref_join(labs); }

static inline std::vector<Bytes> names_full() {
	std::vector<Bytes> v = { B({0}), wname({"a"}), wname({"WWW", "Example", "COM"}), wname({"x", "y", "z", "w", "v"}) };
	for (int c = 0; c < 256; c++) v.push_back(rawname({B({c})}));
	for (int c = 0; c < 256; c += 5) v.push_back(rawname({B({c, 'b'}), B({'c', c})}));
	for (int n : {2, 3, 62, 63}) for (int k = 0; k < 6; k++) v.push_back(rawname({pat(n, k)}));
	for (int k = 0; k < 6; k++) {
		v.push_back(rawname({pat(63, k), pat(63, k), pat(63, k), pat(61, k)}));   // 255 octets
		v.push_back(rawname({pat(63, k), pat(63, k), pat(63, k), pat(60, k)}));   // 254
	}
	std::vector<Bytes> one; for (int i = 0; i < 127; i++) one.push_back(B({'a' + i % 26}));
	v.push_back(rawname(one));
	v.push_back(rawname({S("::1")})); v.push_back(rawname({S("-")})); v.push_back(rawname({S("\"q\"")})); v.push_back(rawname({S("1234")}));
	return v;
}
static inline std::vector<Bytes> strings_full(bool big) {
	std::vector<Bytes> v = { Bytes() };
	for (int c = 0; c < 256; c++) v.push_back(B({c}));
	const int al[] = { 0, ' ', '"', '\\', ',', '0', '9', 'a', 127, 255, '=', ';' };
	for (int a : al) for (int b : al) v.push_back(B({a, b}));
	if (big) for (int a : al) for (int b : al) for (int c : al) v.push_back(B({a, b, c}));
	for (int n : {3, 4, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255}) for (int k = 0; k < 6; k++) v.push_back(pat(n, k));
	return v;
}
static inline Bytes lv(const Bytes &s) { Bytes r; r.push_back((uint8_t)s.size()); app(r, s); return r; }
static inline Bytes svc(int key, const Bytes &v) { return cat({be16(key), be16(v.size()), v}); }
static inline std::vector<Bytes> v6_full() {
	std::vector<Bytes> v;
	for (int m = 0; m < 256; m++) for (int k = 0; k < 4; k++) {
		Bytes a(16);
		for (int i = 0; i < 8; i++) if (m >> i & 1) { int x = k == 0 ? 1 : k == 1 ? 0xffff : k == 2 ? 0x0a00 : 0x1234 + i; a[2 * i] = x >> 8; a[2 * i + 1] = x; }
		v.push_back(a);
	}
	return v;
}
static inline std::vector<Bytes> v4_full() {
	std::vector<Bytes> v;
	const int al[] = { 0, 1, 9, 10, 99, 100, 101, 199, 200, 249, 250, 254, 255 };
	for (int c = 0; c < 256; c++) { v.push_back(B({c, 0, 0, 1})); v.push_back(B({10, c, 0, 0})); v.push_back(B({1, 2, c, 255})); v.push_back(B({127, 0, 0, c})); }
	for (int a : al) for (int b : al) v.push_back(B({a, b, b, a}));
	return v;
}
// one window of a type bitmap with the given types (same window)
static inline Bytes window(int w, const std::vector<int> &lo, int pad = 0) {
	int mx = 0; for (int x : lo) mx = std::max(mx, x / 8 + 1);
	Bytes m(std::min(32, mx + pad)); for (int x : lo) m[x / 8] |= 0x80 >> (x % 8);
	return cat({B({w, (int)m.size()}), m});
}
static inline std::vector<Bytes> bitmaps_full(bool big) {
	std::vector<Bytes> v = { Bytes() };
	for (int lo = 0; lo < 256; lo++) { v.push_back(window(0, {lo})); v.push_back(window(1, {lo})); v.push_back(window(255, {lo})); }
	for (int w = 0; w < 256; w++) { v.push_back(window(w, {0})); v.push_back(window(w, {255})); v.push_back(window(w, {1, 7, 8, 15, 250})); }
	for (int n = 1; n <= 32; n++) for (int k = 1; k < 4; k++) v.push_back(cat({B({0, n}), pat(n, k)}));
	for (int n = 1; n <= 32; n++) v.push_back(window(0, {1}, n));
	for (int a = 0; a < 4; a++) for (int b = a + 1; b < 256; b += 50) for (int k : {0, 7, 8, 100, 255}) v.push_back(cat({window(a, {k, 3}), window(b, {255 - k})}));
	v.push_back(cat({window(0, {1, 2, 6, 15, 16, 28, 46, 47}), window(1, {0, 1}), window(128, {0, 1})}));
	v.push_back(cat({B({0, 1, 0}), window(1, {1})}));     // an all-zero window
	Bytes all; for (int w = 0; w < 256; w++) app(all, cat({B({w, 32}), rep(0xff, 32)}));
	v.push_back(sub(all, 0, 34 * 8)); if (big) v.push_back(all);
	Bytes sparse; for (int w = 0; w < 256; w++) app(sparse, window(w, {w}));
	v.push_back(sparse);
	return v;
}
static inline std::vector<Bytes> svc_single() {
	std::vector<Bytes> v;
	for (auto l : { std::vector<int>{1}, {1, 3}, {3, 1}, {0}, {2, 4, 5, 6}, {7, 65534, 256, 10, 99, 100}, {1, 1} }) { Bytes x; for (int k : l) app(x, be16(k)); v.push_back(svc(0, x)); }
	const int al[] = { 'a', ',', '\\', '"', ' ', 0, 255, '2' };
	for (int a : al) { v.push_back(svc(1, lv(B({a})))); for (int b : al) { v.push_back(svc(1, lv(B({a, b})))); v.push_back(svc(1, cat({lv(B({a})), lv(B({b}))}))); } }
	v.push_back(svc(1, cat({lv(S("h2")), lv(S("h3")), lv(S("http/1.1"))})));
	for (int n : {63, 127, 128, 254, 255}) for (int k = 0; k < 6; k++) { v.push_back(svc(1, lv(pat(n, k)))); v.push_back(svc(1, cat({lv(pat(n, k)), lv(pat(255, k))}))); }
	v.push_back(svc(2, Bytes()));
	for (int p : {0, 1, 53, 80, 255, 256, 443, 999, 1000, 9999, 10000, 32767, 32768, 65535}) v.push_back(svc(3, be16(p)));
	for (int n = 1; n < 5; n++) v.push_back(svc(4, cat({Bytes(), pat(4 * n, 5)})));
	v.push_back(svc(4, pat(4, 0))); v.push_back(svc(4, pat(4, 1)));
	for (int n : {1, 2, 3, 4, 5, 64, 190, 191, 192, 255, 256, 1000}) v.push_back(svc(5, pat(n, 5)));
	for (int n = 1; n < 4; n++) for (int k : {0, 1, 5}) v.push_back(svc(6, pat(16 * n, k)));
	for (int k : {7, 8, 9, 10, 99, 100, 999, 1000, 9999, 10000, 32768, 65280, 65534}) for (auto &s : { Bytes(), S("x"), S("a b\"c\\,"), pat(256, 2), pat(3, 0) }) v.push_back(svc(k, s));
	return v;
}
static inline std::vector<Bytes> svcs_full(bool big) {
	auto s = svc_single();
	std::vector<Bytes> v = { Bytes() };
	for (auto &x : s) v.push_back(x);
	std::vector<Bytes> few = { svc(0, be16(1)), svc(1, lv(S("h2"))), svc(2, Bytes()), svc(3, be16(443)), svc(4, B({1, 2, 3, 4})), svc(5, S("ech")), svc(6, pat(16, 5)), svc(7, S("q")), svc(65534, Bytes()) };
	for (auto &a : few) for (auto &b : few) { v.push_back(cat({a, b})); if (big) for (auto &c : few) v.push_back(cat({a, b, c})); }
	Bytes all; for (auto &x : few) app(all, x); v.push_back(all);
	return v;
}
static inline Bytes opt1(int code, const Bytes &d) { return cat({be16(code), be16(d.size()), d}); }
static inline std::vector<Bytes> opts_full(bool big) {
	std::vector<Bytes> one;
	for (int n = 0; n <= 4; n++) one.push_back(opt1(8, cat({B({0, 1, 24, 0}), pat(n, 5)})));
	for (int n = 0; n <= 16; n++) one.push_back(opt1(8, cat({B({0, 2, 56, 128}), pat(n, 5)})));
	one.push_back(opt1(8, cat({B({0, 1, 0, 0})}))); one.push_back(opt1(8, B({0, 1, 32, 255, 255, 255, 255, 255})));
	for (int c = 0; c < 30; c++) { one.push_back(opt1(15, be16(c))); one.push_back(opt1(15, cat({be16(c), S("extra text")}))); }
	for (int c : {255, 256, 4096, 65535}) one.push_back(opt1(15, cat({be16(c), B({0, 31, 32, 126, 127, 255})})));
	for (int k : {0, 1, 3, 5, 7, 9, 10, 14, 16, 255, 256, 20292, 65001, 65535}) for (int n : {0, 1, 2, 8, 40}) one.push_back(opt1(k, pat(n, 4)));
	for (int c = 0; c < 256; c++) one.push_back(opt1(10, B({c})));
	std::vector<Bytes> v = { Bytes() }; for (auto &x : one) v.push_back(x);
	std::vector<Bytes> few = { opt1(8, B({0, 1, 24, 0, 192, 0, 2})), opt1(15, cat({be16(18), S("no")})), opt1(3, S("ns1")), opt1(10, pat(8, 3)), opt1(65001, Bytes()) };
	for (auto &a : few) for (auto &b : few) { v.push_back(cat({a, b})); if (big) for (auto &c : few) v.push_back(cat({a, b, c})); }
	return v;
}
static inline const std::vector<Bytes> &fld_full(Fld f) {
	static std::vector<Bytes> cache[32]; auto &v = cache[f];
	if (!v.empty()) return v;
	const uint32_t n32[] = { 0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10000, 65535, 65536, 99999, 100000, 999999, 1000000, 9999999, 10000000, 16777215, 16777216,
		99999999, 100000000, 999999999, 1000000000, 2147483647, 2147483648u, 4294967294u, 4294967295u, 0x01020304, 0x80ff00fe };
	switch (f) {
	case fName: v = names_full(); break;
	case fI8: for (int i = 0; i < 256; i++) v.push_back(B({i})); break;
	case fI16: for (int i = 0; i < 256; i++) { v.push_back(be16(i)); v.push_back(be16(i * 256)); } for (uint32_t x : n32) if (x < 65536) v.push_back(be16(x)); break;
	case fI32: for (uint32_t x : n32) v.push_back(be32(x)); for (int i = 0; i < 32; i++) v.push_back(be32(1u << i)); break;
	case fV4: v = v4_full(); break;
	case fV6: v = v6_full(); for (auto &a : v4_full()) { v.push_back(cat({rep(0, 12), a})); v.push_back(cat({rep(0, 10), rep(255, 2), a})); } break;
	case fStr: for (auto &s : strings_full(true)) v.push_back(lv(s)); break;
	case fRep: {
		for (auto &s : strings_full(false)) v.push_back(lv(s));
		std::vector<Bytes> few = { Bytes(), S("a"), S("two words"), B({'"', '\\'}), pat(255, 5) };
		for (auto &a : few) for (auto &b : few) { v.push_back(cat({lv(a), lv(b)})); for (auto &c : few) v.push_back(cat({lv(a), lv(b), lv(c)})); }
		Bytes many; for (int i = 0; i < 40; i++) app(many, lv(pat(i, 4))); v.push_back(many);
		break;
	}
	case fHex: case fB64: case fBStr:
		v.push_back(Bytes());
		for (int c = 0; c < 256; c++) v.push_back(B({c}));
		for (int c = 0; c < 256; c++) { v.push_back(B({c, 255 - c})); v.push_back(B({0, c, 1})); }
		for (int n = 3; n < 70; n++) for (int k = 0; k < 6; k++) v.push_back(pat(n, k));
		for (int n : {100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096}) for (int k = 0; k < 6; k++) v.push_back(pat(n, k));
		break;
	case fPfx: for (int p = 0; p <= 128; p++) for (int k : {0, 1, 5}) v.push_back(cat({B({p}), pat((128 - p + 7) / 8, k)})); break;
	case fSalt: case fHash:
		for (int n = 0; n < 256; n++) for (int k : {0, 1, 5}) v.push_back(lv(pat(n, k)));
		for (int c = 0; c < 256; c++) v.push_back(lv(B({c})));
		break;
	case fType: for (int i = 0; i < 65536; i += 1) v.push_back(be16(i)); break;
	case fMap: v = bitmaps_full(true); break;
	case fE48: case fE64: { int n = f == fE48 ? 6 : 8; for (int i = 0; i < n; i++) for (int c = 0; c < 256; c++) { Bytes x = pat(n, 5); x[i] = c; v.push_back(x); } break; }
	case fSvc: v = svcs_full(true); break;
	case fOpt: v = opts_full(true); break;
	case fEnd: break;
	}
	return v;
}
static inline const std::vector<Bytes> &fld_small(Fld f) {
	static std::vector<Bytes> cache[32]; auto &v = cache[f];
	if (!v.empty()) return v;
	switch (f) {
	case fName: v = { B({0}), wname({"Ab", "c"}), rawname({B({'.', '\\', 0, 200}), S("X")}), rawname({pat(63, 4), pat(63, 5), pat(63, 2), pat(61, 3)}) }; break;
	case fI8: v = { B({0}), B({7}), B({255}) }; break;
	case fI16: v = { be16(0), be16(10), be16(65535) }; break;
	case fI32: v = { be32(0), be32(4294967295u), be32(1000000000) }; break;
	case fV4: v = { B({0, 0, 0, 0}), B({255, 255, 255, 255}), B({192, 0, 2, 33}) }; break;
	case fV6: v = { rep(0, 16), rep(255, 16), cat({B({0x20, 1, 0xd, 0xb8}), rep(0, 11), B({1})}) }; break;
	case fStr: v = { lv(Bytes()), lv(S("a b")), lv(B({'"', '\\', 0, 255})), lv(pat(255, 2)) }; break;
	case fRep: v = { lv(Bytes()), lv(S("txt")), cat({lv(S("a\"b\\")), lv(Bytes()), lv(B({0, 127}))}), cat({lv(pat(255, 2)), lv(pat(255, 3))}) }; break;
	case fHex: case fB64: v = { Bytes(), B({0}), B({0xde, 0xad, 0xbe, 0xef}), pat(65, 5) }; break;
	case fBStr: v = { S("u"), S("a \"b\\c"), B({0, 255}), pat(300, 2) }; break;
	case fPfx: v = { cat({B({0}), pat(16, 5)}), cat({B({1}), pat(16, 1)}), cat({B({64}), pat(8, 5)}), cat({B({121}), B({0x55})}), cat({B({127}), B({1})}), B({128}) }; break;
	case fSalt: case fHash: v = { B({0}), lv(B({0xab})), lv(pat(20, 5)), lv(pat(255, 3)) }; break;
	case fType: v = { be16(1), be16(0), be16(65535), be16(46), be16(300) }; break;
	case fMap: v = { Bytes(), window(0, {1, 2, 47}), cat({window(0, {46}), window(1, {0, 255}), window(255, {255})}) }; break;
	case fE48: v = { pat(6, 0), pat(6, 1), pat(6, 5) }; break;
	case fE64: v = { pat(8, 0), pat(8, 1), pat(8, 5) }; break;
	case fSvc: v = { Bytes(), svc(1, lv(S("h2"))), cat({svc(0, be16(4)), svc(4, B({1, 2, 3, 4})), svc(6, pat(16, 5)), svc(300, S("x y"))}), cat({svc(2, Bytes()), svc(3, be16(53)), svc(5, S("echo"))}) }; break;
	case fOpt: v = { Bytes(), opt1(3, S("id")), cat({opt1(8, B({0, 1, 8, 0, 10})), opt1(15, cat({be16(7), S("x")})), opt1(10, pat(8, 5))}) }; break;
	case fEnd: break;
	}
	return v;
}
// calls fn(rdata) for products of small sets and for full sweeps of one field at a time
template <class F> static void gen_rdatas(const Lay &l, bool all_types16, F fn) {
	std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
	size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
	auto nth = [&](size_t k, int skip, const Bytes *repl) {
		Bytes r;
		for (size_t i = 0; i < fs.size(); i++) { auto &s = fld_small(fs[i]); size_t j = k % s.size(); k /= s.size(); app(r, (int)i == skip ? *repl : s[j]); }
		return r;
	};
	size_t cap = mc::thorough ? 60000 : 12000, step = prod > cap ? prod / cap | 1 : 1;
	for (size_t k = 0; k < prod; k += step) fn(nth(k, -1, nullptr));
	for (size_t i = 0; i < fs.size(); i++) {
		if (fs[i] == fType && !all_types16) continue;
		size_t base = 0, mul = 1;
		for (size_t j = 0; j < fs.size(); j++) { base += mul * (1 % fld_small(fs[j]).size()); mul *= fld_small(fs[j]).size(); }
		for (auto &v : fld_full(fs[i])) { fn(nth(base, i, &v)); if (mc::thorough) { fn(nth(0, i, &v)); fn(nth(prod - 1, i, &v)); } }
	}
}
