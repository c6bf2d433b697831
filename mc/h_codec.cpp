// C20 base32/base64, C21 address text, C22 number and hex text, C25 varints, C31 prefix arithmetic
#include "mc.hpp"
#include <string>
#include <arpa/inet.h>
#include <sys/socket.h>
extern "C" {
#include "b32_encode.h"
#include "b32_decode.h"
#include "b64_encode.h"
#include "b64_decode.h"
#include "varint.h"
#include "my_format.h"
const char *fast_inet4_ntop(const void *, char *, socklen_t);
const char *fast_inet6_ntop(const void *, char *, socklen_t);
const char *fast_inet_ntop(int, const void *, char *, socklen_t);
void shim_ip4_lower(const void *, unsigned, void *); void shim_ip4_upper(const void *, unsigned, void *); void shim_ip4_incr(void *);
void shim_ip6_lower(const void *, unsigned, void *); void shim_ip6_upper(const void *, unsigned, void *); void shim_ip6_incr(void *);
}
using namespace mc;
enum { K_B64, K_B64DEC, K_B64DECODE_ALL, K_B64_GROUPS, K_B32, K_B32DEC, K_B32_PAIRS, K_CHARS,
       K_ADDR, K_ADDRSZ, K_ADDRBATCH4, K_AF, K_U64, K_HEX, K_HEX16, K_U64BATCH,
       K_V32, K_V64, K_VBYTES, K_VRUN, K_VBATCH, K_IP4, K_IP6, K_IP4BATCH };
const char *mc::kind_names[] = {
	"base64 encode and decode, all two- and three-way splits(octets)", "base64 decode of arbitrary characters, all splits(characters)", "(unused)", "base64 of 65536 octet triples(first octet)",
	"base32 encode at every output size and decode(octets)", "base32 decode of arbitrary characters at every output size(characters)", "base32 of all octet pairs(position, background)", "digit values of all 256 characters",
	"address to text(octets)", "address to text at every buffer size(octets)", "IPv4 addresses of a /16 to text(prefix)", "address families and null pointers",
	"uint64 to text at every buffer size(value)", "octets to hex at every buffer size(octets)", "uint16 to hex(value)", "uint64 to text, consecutive values(start)",
	"varint32(value)", "varint64(value)", "varint scan and decode(octets)", "varint scan of a long buffer(octets, continuation octets)", "varint, consecutive values(start)", "IPv4 prefix range and increment(octets)", "IPv6 prefix range and increment(octets)", "IPv4 increment of a /16, bounds(prefix)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// ------------------------------------------------------------------------------------- C20
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char A32[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
// digits of the octet string: bits per digit, most significant first, last digit padded with zero bits
static std::string ref_digits(const Bytes &b, int bits, const char *alpha) {
	std::string r; unsigned acc = 0; int n = 0;
	for (uint8_t x : b) for (int i = 7; i >= 0; i--) { acc = acc << 1 | (x >> i & 1); if (++n == bits) { r += alpha[acc]; acc = 0; n = 0; } }
	if (n) r += alpha[acc << (bits - n)];
	return r;
}
// whole octets covered by the digits
static Bytes ref_octets(const std::vector<int> &d, int bits) {
	Bytes r; unsigned acc = 0; int n = 0;
	for (int v : d) for (int i = bits - 1; i >= 0; i--) { acc = (acc << 1 | (v >> i & 1)) & 255; if (++n == 8) { r.push_back(acc); n = 0; } }
	return r;
}
static int v64(int c) { const char *p = c ? strchr(A64, c) : nullptr; return p ? p - A64 : -1; }
static int v32(int c) { if (c >= 'a' && c <= 'z') c -= 32; const char *p = c ? strchr(A32, c) : nullptr; return p ? p - A32 : -1; }

// pieces: each piece from its own exact buffer into its own exact buffer or into one continuous buffer
static std::string enc64(const Bytes &d, std::initializer_list<size_t> cuts) {
	base64_encodestate st; base64_init_encodestate(&st); std::string out; size_t at = 0;
	auto piece = [&](size_t to) {
		Exact in(d.data() + at, to - at); size_t room = (to - at) * 4 / 3 + 2; Exact o(room, 0x7e);
		int n = base64_encode_block((const char *)in.p, in.n, (char *)o.p, &st); tr();
		MC_CHECK(n >= 0 && (size_t)n <= room, "base64_encode_block reports %d digits for %zu octets", n, to - at);
		out.append((char *)o.p, n); at = to;
	};
	for (size_t c : cuts) piece(c); piece(d.size());
	Exact o(3, 0x7e); int n = base64_encode_blockend((char *)o.p, &st); tr();
	MC_CHECK(n >= 0 && n <= 3, "base64_encode_blockend reports %d digits", n);
	out.append((char *)o.p, n); return out;
}
// shared: decode into one output buffer of exactly (all characters + 3) / 4 * 3 + 1 octets
static Bytes dec64(const Bytes &t, std::initializer_list<size_t> cuts, bool shared) {
	base64_decodestate st; base64_init_decodestate(&st); Bytes out; size_t at = 0;
	Exact all((t.size() + 3) / 4 * 3 + 1, 0x7e); size_t fill = 0;
	auto piece = [&](size_t to) {
		Exact in(t.data() + at, to - at);
		if (shared) {
			int n = base64_decode_block((const char *)in.p, in.n, (char *)all.p + fill, &st); tr();
			MC_CHECK(n >= 0 && fill + n < all.n, "base64_decode_block reports %d octets after %zu", n, fill); fill += n;
		} else {
			Exact o((in.n + 3) / 4 * 3 + 1, 0x7e);
			int n = base64_decode_block((const char *)in.p, in.n, (char *)o.p, &st); tr();
			MC_CHECK(n >= 0 && (size_t)n < o.n, "base64_decode_block reports %d octets for %zu characters", n, in.n);
			out.insert(out.end(), o.p, o.p + n);
		}
		at = to;
	};
	for (size_t c : cuts) piece(c); piece(t.size());
	if (shared) out.assign(all.p, all.p + fill);
	return out;
}
static std::string want64(const Bytes &d) { std::string w = ref_digits(d, 6, A64); while (w.size() % 4) w += '='; return w; }
static void cmp(const char *what, const Bytes &in, const Bytes &got, const Bytes &want) { MC_CHECK(got == want, "%s of %s gives %s, expected %s", what, Hex(in).s, Hex(got).s, Hex(want).s); }
static void cmps(const char *what, const Bytes &in, const std::string &got, const std::string &want) { MC_CHECK(got == want, "%s of %s gives `%s', expected `%s'", what, Hex(in).s, got.c_str(), want.c_str()); }
static void do_b64(const Bytes &d) {
	std::string w = want64(d); Bytes t(w.begin(), w.end());
	cmps("base64 encoding", d, enc64(d, {}), w); cmp("base64 decoding of the digits", d, dec64(t, {}, true), d);
	if (d.size() <= 24) for (size_t i = 0; i <= d.size(); i++) { cmps("base64 encoding in two pieces", d, enc64(d, { i }), w); if (d.size() <= 12) for (size_t j = i; j <= d.size(); j++) cmps("base64 encoding in three pieces", d, enc64(d, { i, j }), w); }
	if (t.size() <= 24) for (size_t i = 0; i <= t.size(); i++) for (int sh = 0; sh < 2; sh++) { cmp("base64 decoding in two pieces", d, dec64(t, { i }, sh), d); if (t.size() <= 16) for (size_t j = i; j <= t.size(); j++) cmp("base64 decoding in three pieces", d, dec64(t, { i, j }, sh), d); }
	// octet by octet, digit by digit
	{ base64_encodestate st; base64_init_encodestate(&st); std::string o; char b[8]; for (uint8_t x : d) { int n = base64_encode_block((char *)&x, 1, b, &st); o.append(b, n); } int n = base64_encode_blockend(b, &st); o.append(b, n); cmps("base64 encoding octet by octet", d, o, w); }
	{ base64_decodestate st; base64_init_decodestate(&st); Bytes o; for (uint8_t x : t) { char b[4]; int n = base64_decode_block((char *)&x, 1, b, &st); o.insert(o.end(), b, b + n); } cmp("base64 decoding digit by digit", d, o, d); }
	state(hbytes(1, w.data(), w.size())); valid(); note("%s", w.c_str());
}
static void do_b64dec(const Bytes &t) {
	std::vector<int> v; for (uint8_t c : t) if (v64(c) >= 0) v.push_back(v64(c));
	Bytes w = ref_octets(v, 6);
	cmp("base64 decoding of characters", t, dec64(t, {}, true), w);
	if (t.size() <= 16) for (size_t i = 0; i <= t.size(); i++) for (int sh = 0; sh < 2; sh++) cmp("base64 decoding of characters in two pieces", t, dec64(t, { i }, sh), w);
	state(hbytes(2, w.data(), w.size())); valid(); note("%zu octets", w.size());
}
static void do_b64groups(unsigned a) {
	for (unsigned b = 0; b < 256; b++) for (unsigned c = 0; c < 256; c++) {
		uint8_t in[3] = { (uint8_t)a, (uint8_t)b, (uint8_t)c }; char o[8]; base64_encodestate st; base64_init_encodestate(&st);
		int n = base64_encode_block((char *)in, 3, o, &st); n += base64_encode_blockend(o + n, &st);
		uint32_t v = a << 16 | b << 8 | c;
		MC_CHECK(n == 4 && o[0] == A64[v >> 18] && o[1] == A64[v >> 12 & 63] && o[2] == A64[v >> 6 & 63] && o[3] == A64[v & 63], "base64 of %02x%02x%02x is `%.*s'", a, b, c, n, o);
		base64_decodestate ds; base64_init_decodestate(&ds); char back[5];
		n = base64_decode_block(o, 4, back, &ds);
		MC_CHECK(n == 3 && !memcmp(back, in, 3), "base64 digits `%.4s' decode to %s", o, Hex(back, n).s);
	}
	add_cases(65536); tr(131072); state(a); valid(65536);
}
static void do_b32(const Bytes &d) {
	std::string w = ref_digits(d, 5, A32);
	Exact in(d);
	for (size_t size = 0; size <= w.size() + 3; size++) {
		if (w.size() > 40 && size > 18 && size + 12 < w.size()) continue;
		Exact o(size, 0x7e); size_t n = base32_encode((char *)o.p, size, in.p, in.n); tr();
		size_t exp = std::min(size, w.size());
		MC_CHECK(n == exp && !memcmp(o.p, w.data(), exp), "base32 of %s into %zu characters gives %zu: `%s', expected `%.*s'", Hex(d).s, size, n, Esc(Bytes(o.p, o.p + std::min(n, size))).s, (int)exp, w.c_str());
	}
	for (int lower = 0; lower < 2; lower++) for (size_t pad = 0; pad <= 6; pad += 1) {
		std::string t = w; if (lower) for (auto &c : t) if (c >= 'A') c += 32;
		if (pad) { if (pad != (8 - w.size() % 8) % 8) continue; t += std::string(pad, '='); }
		Exact ti(t.data(), t.size());
		for (size_t size = 0; size <= d.size() + 2; size++) {
			if (d.size() > 24 && size > 12 && size + 8 < d.size()) continue;
			Exact o(size, 0x7e); size_t n = base32_decode(o.p, size, (const char *)ti.p, ti.n); tr();
			size_t exp = std::min(size, d.size());
			MC_CHECK(n == exp && !memcmp(o.p, d.data(), exp), "base32 digits `%s' decode into %zu octets as %zd: %s, expected %s", t.c_str(), size, (ssize_t)n, Hex(o.p, std::min(n, size)).s, Hex(d.data(), exp).s);
		}
	}
	state(hbytes(3, w.data(), w.size())); valid(); note("%s", w.c_str());
}
static void do_b32dec(const Bytes &t) {
	Exact in(t); std::vector<int> v; bool bad = false, pad = false, odd = false;
	for (uint8_t c : t) { if (c == '=') { pad = true; continue; } if (v32(c) < 0) { bad = true; break; } if (pad) odd = true; else v.push_back(v32(c)); }
	Bytes w = ref_octets(v, 5);
	uint64_t h = 0;
	for (size_t size = 0; size <= t.size() + 1; size++) {
		Exact o(size, 0x7e); size_t n = base32_decode(o.p, size, (const char *)in.p, in.n); tr();
		MC_CHECK(n == (size_t)-1 || n <= size, "base32_decode reports %zu octets in a buffer of %zu", n, size);
		// digits after padding are unspecified; a bad character beyond what fills the output need not be seen
		if (bad) MC_CHECK(n == (size_t)-1 || n == size, "base32_decode accepts `%s' (size %zu, result %zu)", Esc(t).s, size, n);
		else if (!odd) MC_CHECK(n == std::min(size, w.size()) && !memcmp(o.p, w.data(), n), "base32 characters `%s' decode into %zu octets as %zd: %s, expected %s", Esc(t).s, size, (ssize_t)n, Hex(o.p, std::min(n, size)).s, Hex(w).s);
		if (bad && size > t.size()) MC_CHECK(n == (size_t)-1, "base32_decode accepts `%s' (result %zu)", Esc(t).s, n);
		h = mix(h, n);
	}
	state(hbytes(h, w.data(), w.size())); valid(); note("%zu octets%s", w.size(), bad ? ", refused" : "");
}
static void do_b32pairs(unsigned pos, unsigned bg) {
	for (unsigned v = 0; v < 65536; v++) {
		Bytes d(5, (uint8_t)bg); d[pos] = v >> 8; d[pos + 1] = v; char o[8];
		size_t n = base32_encode(o, 8, d.data(), 5); uint64_t x = 0; for (uint8_t y : d) x = x << 8 | y;
		MC_CHECK(n == 8, "base32 of %s has %zu digits", Hex(d).s, n);
		for (int i = 0; i < 8; i++) MC_CHECK(o[i] == A32[x >> (35 - 5 * i) & 31], "base32 of %s is `%.8s'", Hex(d).s, o);
		uint8_t back[5]; n = base32_decode(back, 5, o, 8);
		MC_CHECK(n == 5 && !memcmp(back, d.data(), 5), "base32 digits `%.8s' decode to %s", o, Hex(back, std::min<size_t>(n, 5)).s);
	}
	add_cases(65536); tr(131072); state(pos << 8 | bg); valid(65536);
}
static void do_chars() {
	for (int c = 0; c < 256; c++) {
		int g = base64_decode_value((char)c), w = v64(c); MC_CHECK(w >= 0 ? g == w : g < 0, "base64 digit value of character %d is %d, expected %d", c, g, w);
		char two[2] = { (char)c, (char)c }; uint8_t o[4];
		size_t n = base32_decode(o, sizeof o, two, 2); int v = v32(c);
		if (c != '=') MC_CHECK(v < 0 ? n == (size_t)-1 : n == 1 && o[0] == (uint8_t)(v << 3 | v >> 2), "base32 decoding of two characters %d gives %zd, %02x", c, (ssize_t)n, o[0]);
		tr(2); valid();
	}
	for (int v = 0; v < 64; v++) MC_CHECK(base64_encode_value(v) == A64[v], "base64 digit of %d is %d", v, base64_encode_value(v));
	state(0);
}
static void C20() {
	run(K_CHARS, {});
	std::vector<Bytes> D{ {} };
	for (int a = 0; a < 256; a++) D.push_back(B({ a }));
	auto each = [&](const Bytes &d) { run(K_B64, { d }); run(K_B32, { d }); };
	for (auto &d : D) each(d);
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) each(B({ a, b }));
	// all strings over boundary octets
	const uint8_t al[] = { 0, 1, 0x3f, 0x40, 0x80, 0xc0, 0xfb, 0xff }; size_t L = thorough ? 6 : 5;
	for (size_t len = 3; len <= L; len++) { size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= 8; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < len; i++) { d.push_back(al[q % 8]); q /= 8; } each(d); } }
	for (size_t len = 3; len <= (thorough ? 400u : 130u); len++) for (int p = 0; p < 6; p++) { Bytes d(len); for (size_t i = 0; i < len; i++) d[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : p == 3 ? i * i + len : p == 4 ? (i & 1 ? 0xaa : 0x55) : 255 - i * 7; each(d); }
	for (size_t len : { 255, 256, 257, 40955, 40959, 40960, 40961, 40965, 49151, 49152, 49153, 65534, 65535, 65536, 65537, 104857, 104858, 131073, 262147 }) for (int p = 0; p < 3; p++) { Bytes d(len); for (size_t i = 0; i < len; i++) d[i] = p == 0 ? i * 37 + (i >> 8) : p == 1 ? 255 : i * i >> 7; each(d); }
	// one octet set to every value at every position of one and two base32 groups
	for (size_t len = 3; len <= 11; len++) for (size_t i = 0; i < len; i++) for (int v = 1; v < 256; v++) { Bytes d(len, 0); d[i] = v; each(d); Bytes e(len, 255); e[i] = 255 - v; each(e); }
	for (int a = 0; a < 256; a++) run(K_B64_GROUPS, { num(a) });
	for (int p = 0; p < 4; p++) for (int bg : { 0, 255, 0x5a }) run(K_B32_PAIRS, { num(p), num(bg) });
	// arbitrary characters
	const char c64[] = { 'A', 'z', '9', '+', '/', '=', ' ', '\n', ',', '.', '-', (char)0x80, (char)0xff }; size_t n64 = thorough ? 13 : 9;
	const char pick64[] = { 'A', 'z', '/', '=', ' ', ',', (char)0x80, 'W', '-' };
	for (size_t len = 0; len <= 6; len++) { const char *al2 = thorough && len <= 5 ? c64 : pick64; size_t n = thorough && len <= 5 ? 13 : 9; (void)n64; size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= n; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < len; i++) { d.push_back(al2[q % n]); q /= n; } run(K_B64DEC, { d }); } }
	for (int c = 0; c < 256; c++) for (size_t pos = 0; pos < 10; pos++) { Bytes d = S("Tm9yb3V0ZQ"); d[pos] = c; run(K_B64DEC, { d }); d.insert(d.begin() + pos, (uint8_t)c); run(K_B64DEC, { d }); for (int c2 : std::initializer_list<int>{ 0, '=', '\n', 'x', 255 }) { Bytes e = d; e.insert(e.begin() + pos / 2, (uint8_t)c2); run(K_B64DEC, { e }); } }
	const char p32[] = { '0', 'v', 'V', 'W', '=', ' ', (char)0x80, 'G' };
	for (size_t len = 0; len <= (thorough ? 8u : 6u); len++) { size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= 8; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < len; i++) { d.push_back(p32[q % 8]); q /= 8; } run(K_B32DEC, { d }); } }
	for (size_t len = 7; len <= 20; len++) for (size_t k = 0; k < (1u << std::min<size_t>(len, 10)); k++) { Bytes d; for (size_t i = 0; i < len; i++) d.push_back(i < len - 10 && len > 10 ? "0V5"[i % 3] : k >> (len - 1 - i) & 1 ? '=' : 'V'); run(K_B32DEC, { d }); }
	for (int c = 0; c < 256; c++) for (size_t len = 1; len <= 17; len++) for (size_t pos = 0; pos < len; pos++) { Bytes d; for (size_t i = 0; i < len; i++) d.push_back("0VUA5"[i % 5]); d[pos] = c; run(K_B32DEC, { d }); }
}

// ------------------------------------------------------------------------------------- C21
static void addr1(int af, const uint8_t *a, const char *got, const char *buf, const char *want) {
	MC_CHECK(got == buf, "address %s: returned pointer is not the buffer", Hex(a, af == AF_INET ? 4 : 16).s);
	MC_CHECK(!strcmp(buf, want), "address %s is rendered as `%s', expected `%s'", Hex(a, af == AF_INET ? 4 : 16).s, buf, want);
}
static void do_addr(const Bytes &a) {
	int af = a.size() == 4 ? AF_INET : AF_INET6; char want[64]; inet_ntop(af, a.data(), want, sizeof want);
	size_t sz = af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN;
	Exact in(a); Exact o(sz, 0x7e), o2(sz, 0);
	addr1(af, a.data(), (af == AF_INET ? fast_inet4_ntop : fast_inet6_ntop)(in.p, (char *)o.p, sz), (char *)o.p, want);
	addr1(af, a.data(), fast_inet_ntop(af, in.p, (char *)o2.p, sz), (char *)o2.p, want);
	uint8_t back[16]; MC_CHECK(inet_pton(af, (char *)o.p, back) == 1 && !memcmp(back, a.data(), a.size()), "`%s' does not convert back", (char *)o.p);
	tr(2); valid(); state(hstr(0, want)); note("%s", want);
}
static void do_addrsz(const Bytes &a) {
	int af = a.size() == 4 ? AF_INET : AF_INET6; char want[64]; inet_ntop(af, a.data(), want, sizeof want); Exact in(a);
	size_t min = af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN;
	for (size_t sz = 0; sz <= 130; sz++) for (int gen = 0; gen < 2; gen++) {
		Exact o(sz, 0x7e); const char *r = gen ? fast_inet_ntop(af, in.p, (char *)o.p, sz) : (af == AF_INET ? fast_inet4_ntop : fast_inet6_ntop)(in.p, (char *)o.p, sz);
		tr();
		if (sz < min) MC_CHECK(r == nullptr, "a buffer of %zu octets is accepted", sz);
		else addr1(af, a.data(), r, (char *)o.p, want);
		state(mix(sz, r != nullptr));
	}
	valid();
}
static void do_addrbatch(unsigned hi, int mode) {
	char o[64], w[64];
	for (unsigned lo = 0; lo < 65536; lo++) {
		uint8_t a[16]; unsigned v[2] = { hi, lo };
		if (mode == 0) { a[0] = hi >> 8; a[1] = hi; a[2] = lo >> 8; a[3] = lo; memset(o, 0x7e, sizeof o); const char *r = fast_inet4_ntop(a, o, INET_ADDRSTRLEN); inet_ntop(AF_INET, a, w, sizeof w); addr1(AF_INET, a, r, o, w); for (int i = INET_ADDRSTRLEN; i < 64; i++) MC_CHECK(o[i] == 0x7e, "written beyond the buffer"); }
		else { memset(a, mode & 1 ? 0 : 0x11, 16); int g = (mode >> 1) - 1 & 7; a[2 * g] = v[1] >> 8; a[2 * g + 1] = v[1]; if (hi) { a[(2 * g + 4) & 15] = hi; a[(2 * g + 5) & 15] = hi; } memset(o, 0x7e, sizeof o); const char *r = fast_inet6_ntop(a, o, INET6_ADDRSTRLEN); inet_ntop(AF_INET6, a, w, sizeof w); addr1(AF_INET6, a, r, o, w); for (int i = INET6_ADDRSTRLEN; i < 64; i++) MC_CHECK(o[i] == 0x7e, "written beyond the buffer"); }
	}
	add_cases(65536); tr(65536); valid(65536); state(mix(hi, mode));
}
static void do_af() {
	uint8_t a[16] = { 1 }; char o[128];
	auto refused = [&](const char *r, const char *what) { MC_CHECK(r == nullptr, "%s is accepted", what); for (char c : o) MC_CHECK(c == 0x7e, "%s: buffer is written", what); tr(); };
	memset(o, 0x7e, sizeof o);
	for (int af = -3; af <= 300; af++) if (af != AF_INET && af != AF_INET6) refused(fast_inet_ntop(af, a, o, sizeof o), "an unknown family");
	for (int af : { AF_INET, AF_INET6 }) { refused(fast_inet_ntop(af, nullptr, o, sizeof o), "a null address"); refused(fast_inet_ntop(af, a, nullptr, 128), "a null buffer"); refused(fast_inet_ntop(af, a, nullptr, 0), "a null buffer"); for (unsigned s : { 0u, 1u, 4u, 15u }) refused(fast_inet_ntop(af, a, o, s), "a short buffer"); }
	refused(fast_inet4_ntop(nullptr, o, sizeof o), "a null address"); refused(fast_inet6_ntop(nullptr, o, sizeof o), "a null address"); refused(fast_inet4_ntop(a, nullptr, sizeof o), "a null buffer"); refused(fast_inet6_ntop(a, nullptr, sizeof o), "a null buffer"); refused(fast_inet4_ntop(nullptr, nullptr, sizeof o), "null"); refused(fast_inet6_ntop(nullptr, nullptr, 64), "null");
	state(1); valid();
}
static void C21() {
	run(K_AF, {});
	// every octet value at every position; every pair of octet values at every pair of positions of IPv4
	for (int bg : { 0, 9, 10, 99, 100, 199, 200, 255 }) for (int i = 0; i < 4; i++) for (int v = 0; v < 256; v++) { Bytes a(4, bg); a[i] = v; run(K_ADDR, { a }); }
	if (thorough) for (unsigned hi = 0; hi < 65536; hi++) run(K_ADDRBATCH4, { num(hi), num(0) });
	else { for (unsigned x = 0; x < 256; x++) for (unsigned y : { 0, 9, 10, 99, 100, 200, 255 }) { run(K_ADDRBATCH4, { num(x << 8 | y), num(0) }); run(K_ADDRBATCH4, { num(y << 8 | x), num(0) }); } }
	// every value of every group on zero / non-zero surroundings
	for (int mode = 2; mode < 18; mode++) for (unsigned hi : { 0, 1, 0xff }) run(K_ADDRBATCH4, { num(hi), num(mode) });
	// all patterns of groups over an alphabet of digit counts and the mapped-address marker
	const unsigned al[] = { 0, 0xffff, 1, 0x10, 0x100, 0x1000 }; int n = thorough ? 6 : 4; size_t tot = 1; for (int i = 0; i < 8; i++) tot *= n;
	for (size_t k = 0; k < tot; k++) { Bytes a; size_t q = k; for (int i = 0; i < 8; i++) { app(a, be16(al[q % n])); q /= n; } run(K_ADDR, { a }); }
	for (int m = 0; m < 256; m++) for (unsigned v : { 2u, 0xau, 0xfeu, 0xabcu, 0xfedcu, 0xff00u, 0x00ffu }) { Bytes a; for (int i = 0; i < 8; i++) app(a, be16(m >> i & 1 ? v : 0)); run(K_ADDR, { a }); if (m % 5 == 0) run(K_ADDRSZ, { a }); }
	// embedded IPv4 in all prefixes around the special ones
	for (unsigned g5 : { 0u, 1u, 0xfffeu, 0xffffu, 0xff00u }) for (unsigned g4 : { 0u, 1u, 0xffffu }) for (unsigned g0 : { 0u, 0x64u }) for (int hi = 0; hi < 256; hi++) for (int lo : { 0, 1, 9, 10, 99, 100, 199, 200, 255 }) { Bytes a(16, 0); a[1] = g0; a[8] = g4 >> 8; a[9] = g4; a[10] = g5 >> 8; a[11] = g5; a[12] = hi; a[13] = lo; a[14] = lo; a[15] = hi; run(K_ADDR, { a }); a[12] = a[13] = 0; run(K_ADDR, { a }); a[14] = 0; run(K_ADDR, { a }); a[12] = hi; a[15] = 0; run(K_ADDR, { a }); }
	for (Bytes a : { Bytes(4, 0), Bytes(4, 255), Bytes(16, 0), Bytes(16, 255), B({ 1, 2, 3, 4 }), B({ 10, 20, 30, 40 }), cat({ Bytes(10, 0), Bytes(6, 255) }), cat({ Bytes(12, 0), Bytes(4, 255) }), cat({ Bytes(15, 0), B({ 1 }) }), cat({ B({ 1 }), Bytes(15, 0) }) }) run(K_ADDRSZ, { a });
}

// ------------------------------------------------------------------------------------- C22
static void do_u64(uint64_t v) {
	char w[32]; snprintf(w, sizeof w, "%llu", (unsigned long long)v); size_t nd = strlen(w);
	for (size_t size = 0; size <= 30; size++) for (int ns = 0; ns < 2; ns++) {
		Exact o(size, 0x7e); const char *start = (const char *)1; size_t n = my_uint64_to_str(v, (char *)o.p, size, ns ? nullptr : &start); tr();
		if (size == 0) { MC_CHECK(n == 0, "%zu digits reported in no buffer", n); continue; }
		const char *b = (const char *)o.p;
		MC_CHECK(b[size - 1] == 0, "%s in %zu octets: not terminated at the end of the buffer", w, size);
		size_t exp = std::min(nd, size - 1);
		MC_CHECK(n == exp, "%s in %zu octets: %zu digits reported, expected %zu", w, size, n, exp);
		MC_CHECK(!memcmp(b + size - 1 - exp, w + nd - exp, exp), "%s in %zu octets is `%s'", w, size, Esc(Bytes(b, b + size)).s);
		for (size_t i = 0; i + 1 + exp < size; i++) MC_CHECK(b[i] == 0x7e, "%s in %zu octets: octet %zu before the digits is changed", w, size, i);
		if (!ns) MC_CHECK(start == b + size - 1 - exp, "%s in %zu octets: start points to %zd", w, size, (ssize_t)(start - b));
	}
	state(mix(1, v)); valid(); note("%s", w);
}
static void do_u64batch(uint64_t s) {
	char b[24]; for (uint64_t v = s; v < s + 65536; v++) { char w[24]; int l = snprintf(w, 24, "%llu", (unsigned long long)v); const char *st = nullptr; size_t n = my_uint64_to_str(v, b, sizeof b, &st); MC_CHECK((int)n == l && !strcmp(st, w), "%s renders as `%s', length %zu", w, st, n); }
	add_cases(65536); tr(65536); valid(65536); state(s);
}
static void do_hex(const Bytes &d) {
	Exact in(d);
	for (int up = 0; up < 2; up++) for (size_t size = 0; size <= 2 * d.size() + 4; size++) {
		Exact o(size, 0x7e); size_t n = my_bytes_to_hex_str(in.p, in.n, up, (char *)o.p, size); tr();
		size_t fit = size ? std::min(d.size(), (size - 1) / 2) : 0;
		MC_CHECK(n == 2 * fit, "%zu octets in a buffer of %zu: length %zu reported, expected %zu", d.size(), size, n, 2 * fit);
		for (size_t i = 0; i < 2 * fit; i++) { int v = i & 1 ? d[i / 2] & 15 : d[i / 2] >> 4; MC_CHECK(o.p[i] == (up ? "0123456789ABCDEF" : "0123456789abcdef")[v], "hex digit %zu of %s is `%c'", i, Hex(d).s, o.p[i]); }
		if (size) MC_CHECK(o.p[2 * fit] == 0, "%zu octets in a buffer of %zu: not terminated", d.size(), size);
	}
	state(hbytes(1, d.data(), d.size())); valid(); note("%zu octets", d.size());
}
static void do_hex16(unsigned v) {
	for (int up = 0; up < 2; up++) for (size_t size = 0; size <= 8; size++) {
		char w[8]; snprintf(w, 8, up ? "%04X" : "%04x", v); Exact o(size, 0x7e); size_t n = my_uint16_to_hex_str(v, up, (char *)o.p, size); tr();
		size_t fit = size ? std::min<size_t>(4, (size - 1) / 2 * 2) : 0;
		MC_CHECK(n == fit && !memcmp(o.p, w, fit) && (!size || !o.p[fit]), "%u in a buffer of %zu gives %zu: `%s'", v, size, n, Esc(Bytes(o.p, o.p + size)).s);
	}
	state(v); valid();
}
static void C22() {
	std::vector<uint64_t> V{ 0, 1, UINT64_MAX, UINT64_MAX - 1 };
	uint64_t p = 1; for (int k = 0; k < 20; k++) { for (int m = 1; m <= 9; m++) for (int d = -2; d <= 2; d++) V.push_back(p * m + d); p *= 10; }
	for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) V.push_back((1ull << i) + d);
	for (int nd = 1; nd <= 19; nd++) for (int pos = 0; pos < nd; pos++) for (int dg = 0; dg < 10; dg++) for (int bg : { 0, 1, 9 }) { uint64_t v = 0; for (int i = 0; i < nd; i++) v = v * 10 + (i == pos ? dg : i == 0 && bg == 0 ? 1 : bg); V.push_back(v); }
	for (auto v : V) run(K_U64, { num(v) });
	for (uint64_t s = 0; s < (deepest ? 1ull << 31 : thorough ? 1ull << 27 : 1ull << 22); s += 65536) run(K_U64BATCH, { num(s) });
	for (uint64_t s : { 99999999ull, 999999999ull, 4294960000ull, 9999999999ull, 999999999999999999ull, 9999999999999999999ull, 18446744073709486079ull }) run(K_U64BATCH, { num(s - 100) });
	run(K_HEX, { {} }); for (int a = 0; a < 256; a++) { run(K_HEX, { B({ a }) }); for (int b = 0; b < 256; b++) run(K_HEX, { B({ a, b }) }); }
	for (size_t len = 3; len <= 80; len++) for (int q = 0; q < 3; q++) { Bytes d(len); for (size_t i = 0; i < len; i++) d[i] = q == 0 ? i * 17 + 1 : q == 1 ? 255 - i : i * i; run(K_HEX, { d }); }
	for (unsigned v = 0; v < 65536; v++) run(K_HEX16, { num(v) });
}

// ------------------------------------------------------------------------------------- C25
static Bytes ref_varint(uint64_t v) { Bytes r; while (v > 127) { r.push_back((v & 127) | 128); v >>= 7; } r.push_back(v); return r; }
static void var64(uint64_t v) {
	Bytes w = ref_varint(v);
	unsigned l = varint_length(v); MC_CHECK(l == w.size(), "varint_length(%llu) = %u, expected %zu", (unsigned long long)v, l, w.size());
	Exact o(w.size(), 0x7e); size_t n = varint_encode64(o.p, v); MC_CHECK(n == w.size() && !memcmp(o.p, w.data(), n), "varint_encode64(%llu) gives %zu octets %s, expected %s", (unsigned long long)v, n, Hex(o.p, w.size()).s, Hex(w).s);
	uint64_t b = 0x7777; n = varint_decode64(o.p, &b); MC_CHECK(n == w.size() && b == v, "varint_decode64 of %s gives %llu, %zu octets", Hex(w).s, (unsigned long long)b, n);
	n = varint_length_packed(o.p, o.n); MC_CHECK(n == w.size(), "varint_length_packed of %s is %zu", Hex(w).s, n);
	if (v <= UINT32_MAX) {
		Exact q(w.size(), 0x7e); n = varint_encode32(q.p, v); MC_CHECK(n == w.size() && !memcmp(q.p, w.data(), n), "varint_encode32(%llu) gives %zu octets %s, expected %s", (unsigned long long)v, n, Hex(q.p, w.size()).s, Hex(w).s);
		uint32_t c = 0x7777; n = varint_decode32(q.p, &c); MC_CHECK(n == w.size() && c == v, "varint_decode32 of %s gives %u, %zu octets", Hex(w).s, c, n);
	}
	tr(6);
}
static void do_vbytes(const Bytes &d) {
	Exact in(d); size_t t = 0; while (t < d.size() && d[t] & 128) t++;
	bool term = t < d.size();
	for (size_t len = 0; len <= d.size(); len++) { Exact p(d.data(), len); unsigned n = varint_length_packed(p.p, len); size_t w = t < len ? t + 1 : 0; MC_CHECK(n == w, "varint_length_packed(%s, %zu) = %u, expected %zu", Hex(d).s, len, n, w); tr(); }
	for (int bits : { 32, 64 }) {
		size_t max = bits == 32 ? 5 : 10; if (!term && d.size() < max) continue;
		uint64_t v64 = 0x7777; uint32_t v32 = 0x7777; size_t n = bits == 32 ? varint_decode32(in.p, &v32) : varint_decode64(in.p, &v64); uint64_t v = bits == 32 ? v32 : v64; tr();
		if (t >= max) { MC_CHECK(n == 0, "varint_decode%d of the unterminated %s reports %zu octets", bits, Hex(d).s, n); continue; }
		MC_CHECK(n == t + 1, "varint_decode%d of %s reports %zu octets, expected %zu", bits, Hex(d).s, n, t + 1);
		unsigned __int128 w = 0; for (size_t i = 0; i <= t; i++) w |= (unsigned __int128)(d[i] & 127) << 7 * i;
		if (w >> bits) continue;      // does not fit: value unspecified
		MC_CHECK(v == (uint64_t)w, "varint_decode%d of %s gives %llu, expected %llu", bits, Hex(d).s, (unsigned long long)v, (unsigned long long)w);
	}
	state(hbytes(1, d.data(), d.size())); valid(); note("%s", term ? "terminated" : "unterminated");
}
static void do_vrun(size_t n, size_t t) {
	Exact e(n, 0xff); if (t < n) e.p[t] = 5; unsigned g = varint_length_packed(e.p, n); tr(); unsigned w = t < n ? t + 1 : 0;
	MC_CHECK(g == w, "varint_length_packed of %zu octets, the first %zu of them continued, is %u, expected %u", n, t, g, w); state(mix(n, t)); valid();
}
static void C25() {
	std::vector<uint64_t> V{ 0 };
	for (int i = 0; i < 64; i++) { for (int j = 0; j <= i; j++) V.push_back(1ull << i | 1ull << j); for (int d = -2; d <= 2; d++) V.push_back((1ull << i) + d); V.push_back(~(1ull << i)); for (int b = 0; b < 128; b++) V.push_back((uint64_t)b << i); }
	for (int i = 0; i <= 63; i++) for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) V.push_back(~0ull >> i << (j & 31) | 1ull << k);
	for (auto v : V) run(K_V64, { num(v) });
	for (uint64_t s = 0; s < (thorough ? 1ull << 32 : 1ull << 22); s += 65536) run(K_VBATCH, { num(s) });
	for (int k = 1; k < 10; k++) { run(K_VBATCH, { num((1ull << 7 * k) - 32768) }); } run(K_VBATCH, { num(UINT64_MAX - 65535) }); run(K_VBATCH, { num((1ull << 32) - 32768) }); run(K_VBATCH, { num((1ull << 31) - 32768) });
	// continuation patterns with digit alphabets
	const uint8_t lo[] = { 0, 1, 0x7f }, hi[] = { 0x80, 0x81, 0xff }; 
	size_t L = thorough ? 9 : 7;
	for (size_t len = 0; len <= L; len++) { size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= 6; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < len; i++) { unsigned x = q % 6; q /= 6; d.push_back(x < 3 ? lo[x] : hi[x - 3]); } run(K_VBYTES, { d }); } }
	for (size_t len = 0; len <= 14; len++) for (size_t k = 0; k < (1u << len); k++) for (int f = 0; f < 3; f++) { Bytes d; for (size_t i = 0; i < len; i++) d.push_back((k >> i & 1 ? 0x80 : 0) | (f == 0 ? 0 : f == 1 ? 0x7f : i + 1)); run(K_VBYTES, { d }); }
	// every octet value at every position of encodings of every length
	for (size_t len = 1; len <= 11; len++) for (size_t pos = 0; pos < len; pos++) for (int v = 0; v < 256; v++) for (int bg : { 0x80, 0xff, 0xa5 }) { Bytes d(len, bg); d[len - 1] = 1; d[pos] = v; run(K_VBYTES, { d }); d[len - 1] |= 0x80; run(K_VBYTES, { d }); }
	for (size_t len : { 100, 300, 1000 }) run(K_VBYTES, { Bytes(len, 0x80) });
	static const size_t edge[] = { 0, 1, 9, 10, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 1000000 };
	for (size_t n : edge) for (size_t t : edge) if (t <= n) { run(K_VRUN, { num(n), num(t) }); if (t && t < n) run(K_VRUN, { num(n), num(n - t) }); }
}

// ------------------------------------------------------------------------------------- C31
typedef unsigned __int128 u128;
static u128 get(const uint8_t *p, int n) { u128 v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static void put(uint8_t *p, u128 v, int n) { for (int i = n; i-- > 0; v >>= 8) p[i] = v; }
static void do_ip(const Bytes &a, bool all) {
	int n = a.size(), w = n * 8; u128 full = n == 4 ? (u128)UINT32_MAX : ~(u128)0, v = get(a.data(), n);
	for (int mis = 0; mis < (all ? 3 : 1); mis++) {
		Exact in(n + mis, 0), out(n + mis, 0); uint8_t *i = in.p + mis, *o = out.p + mis; memcpy(i, a.data(), n);
		for (int len = 0; len <= w; len++) {
			u128 host = len == w ? 0 : full >> len; uint8_t lo[16], up[16]; put(lo, v & ~host, n); put(up, v | host, n);
			for (int u = 0; u < 2; u++) {
				auto f = n == 4 ? (u ? shim_ip4_upper : shim_ip4_lower) : (u ? shim_ip6_upper : shim_ip6_lower);
				memset(o, 0x7e, n); f(i, len, o); tr();
				MC_CHECK(!memcmp(i, a.data(), n), "%s bound of %s/%d changes the input", u ? "upper" : "lower", Hex(a).s, len);
				MC_CHECK(!memcmp(o, u ? up : lo, n), "%s bound of %s/%d is %s, expected %s", u ? "upper" : "lower", Hex(a).s, len, Hex(o, n).s, Hex(u ? up : lo, n).s);
				memcpy(o, a.data(), n); f(o, len, o); tr();
				MC_CHECK(!memcmp(o, u ? up : lo, n), "%s bound of %s/%d in place is %s, expected %s", u ? "upper" : "lower", Hex(a).s, len, Hex(o, n).s, Hex(u ? up : lo, n).s);
			}
		}
		uint8_t nx[16]; put(nx, (v + 1) & full, n); memcpy(o, a.data(), n); (n == 4 ? shim_ip4_incr : shim_ip6_incr)(o); tr();
		MC_CHECK(!memcmp(o, nx, n), "the address after %s is %s, expected %s", Hex(a).s, Hex(o, n).s, Hex(nx, n).s);
	}
	state(hbytes(1, a.data(), n)); valid(); note("%d prefix lengths", w + 1);
}
static void do_ip4batch(unsigned hi) {
	for (unsigned lo = 0; lo < 65536; lo++) {
		uint32_t v = hi << 16 | lo; uint8_t a[4], o[4]; put(a, v, 4); shim_ip4_incr(a); MC_CHECK((uint32_t)get(a, 4) == v + 1, "the address after %08x is %s", v, Hex(a, 4).s);
		put(a, v, 4); for (unsigned len = lo & 1; len <= 32; len += 2) { uint32_t host = len == 32 ? 0 : 0xffffffffu >> len; shim_ip4_lower(a, len, o); MC_CHECK((uint32_t)get(o, 4) == (v & ~host), "lower bound of %08x/%u is %s", v, len, Hex(o, 4).s); shim_ip4_upper(a, len, o); MC_CHECK((uint32_t)get(o, 4) == (v | host), "upper bound of %08x/%u is %s", v, len, Hex(o, 4).s); }
	}
	add_cases(65536); tr(65536 * 34); valid(65536); state(hi);
}
static void C31() {
	const int al[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff };
	for (int k = 0; k < 1296; k++) { int q = k; Bytes a; for (int i = 0; i < 4; i++) { a.push_back(al[q % 6]); q /= 6; } run(K_IP4, { a }); }
	for (int i = 0; i < 4; i++) for (int v = 0; v < 256; v++) for (int bg : { 0, 255, 0xa5 }) { Bytes a(4, bg); a[i] = v; run(K_IP4, { a }); }
	for (unsigned hi = 0; hi < 65536; hi += deepest ? 4 : thorough ? 16 : 257) run(K_IP4BATCH, { num(hi) });
	// IPv6: single octets, single and double bits, all runs of ones (carry chains), boundary patterns per half
	for (int bg : { 0, 255, 0xa5 }) for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) { Bytes a(16, bg); a[i] = v; run(K_IP6, { a }); }
	for (int i = 0; i < 128; i++) for (int j = i; j < 128; j++) { u128 one = ((u128)1 << i) | ((u128)1 << j), run1 = (~(u128)0 >> (127 - j + i)) << i; for (u128 v : { one, ~one, run1, ~run1 }) { Bytes a(16); put(a.data(), v, 16); run(K_IP6, { a }); } }
	int n = thorough ? 6 : 3; const int al2[] = { 0, 0xff, 0x80, 1, 0x7f, 0xfe }; size_t tot = 1; for (int i = 0; i < 8; i++) tot *= n;
	for (size_t k = 0; k < tot; k++) { Bytes a; size_t q = k; for (int i = 0; i < 8; i++) { a.push_back(al2[q % n]); a.push_back(i % 3 == 2 ? al2[q % n] : 255); q /= n; } run(K_IP6, { a }); }
}

void mc::check(const Case &c) {
	auto b = [&](size_t i) -> const Bytes & { return c.b[i]; };
	switch (c.kind) {
	case K_B64: do_b64(b(0)); break; case K_B64DEC: do_b64dec(b(0)); break; case K_B64_GROUPS: do_b64groups(getnum(b(0))); break;
	case K_B32: do_b32(b(0)); break; case K_B32DEC: do_b32dec(b(0)); break; case K_B32_PAIRS: do_b32pairs(getnum(b(0)), getnum(b(1))); break; case K_CHARS: do_chars(); break;
	case K_ADDR: do_addr(b(0)); break; case K_ADDRSZ: do_addrsz(b(0)); break; case K_ADDRBATCH4: do_addrbatch(getnum(b(0)), getnum(b(1))); break; case K_AF: do_af(); break;
	case K_U64: do_u64(getnum(b(0))); break; case K_U64BATCH: do_u64batch(getnum(b(0))); break; case K_HEX: do_hex(b(0)); break; case K_HEX16: do_hex16(getnum(b(0))); break;
	case K_V64: var64(getnum(b(0))); state(getnum(b(0))); valid(); break; case K_VBATCH: { uint64_t s = getnum(b(0)); for (unsigned i = 0; i < 65536; i++) var64(s + i); add_cases(65536); state(s); valid(65536); break; } case K_VBYTES: do_vbytes(b(0)); break; case K_VRUN: do_vrun(getnum(b(0)), getnum(b(1))); break;
	case K_IP4: case K_IP6: do_ip(b(0), true); break; case K_IP4BATCH: do_ip4batch(getnum(b(0))); break;
	}
}
void mc::enumerate() { if (P("C20")) C20(); else if (P("C21")) C21(); else if (P("C22")) C22(); else if (P("C25")) C25(); else if (P("C31")) C31(); }
