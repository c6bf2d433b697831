// C26 checksums, C32 small helpers, C33 hashes
#include "mc.hpp"
#include <string>
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
extern "C" {
bool s_hex_decode(const char *, uint8_t **, size_t *); char *s_string_replace(const char *, const char *, const char *); void s_print_string(const void *, size_t, FILE *); bool s_read_bytes(int, uint8_t *, size_t); bool s_getenv_int(const char *, uint64_t *); uint32_t s_bswap32(uint32_t), s_htole32(uint32_t), s_le32toh(uint32_t);
extern uint32_t (*my_crc32c)(const uint8_t *, size_t); extern uint32_t (*my_crc32c_nosse)(const uint8_t *, size_t); extern uint32_t early[4];
uint32_t my_crc32c_slicing(const uint8_t *, size_t); uint32_t my_crc32c_sse42(const uint8_t *, size_t); bool my_crc32c_sse42_supported(void);
uint32_t my_hashword(const uint32_t *, size_t, uint32_t); uint32_t my_hashlittle(const void *, size_t, uint32_t); uint32_t my_hashbig(const void *, size_t, uint32_t);
void my_hashword2(const uint32_t *, size_t, uint32_t *, uint32_t *); void my_hashlittle2(const void *, size_t, uint32_t *, uint32_t *);
}
using namespace mc;
enum { K_CRC, K_CRCPOS, K_CRCBIG, K_CRCEARLY, K_HEX, K_REPL, K_PRINT, K_READ, K_HASH, K_HASHPOS, K_HASHW, K_VEC, K_ENV, K_SWAP, K_CRCHUGE, K_HASHHUGE };
const char *mc::kind_names[] = { "checksum at every alignment, before and behind unmapped pages(octets)", "checksum of every octet value at a position(length, position, background)", "checksum of a large buffer(length, pattern)", "first use of the dispatcher",
	"hex_decode(text)", "string_replace(text, old, new)", "print_string(octets)", "read_bytes(wanted, results of the read calls)", "hash at every alignment(octets, seeds)", "hash of every octet value at a position(length, position, seeds)", "hash of words(words, seeds)", "published hash values", "getenv_int(set, text)", "byte order of 32-bit numbers(octet)", "checksum of several gigabytes(length)", "hash of several gigabytes(length)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// n mapped octets between two unmapped pages
struct Guard {
	uint8_t *base, *lo, *hi; size_t n;
	explicit Guard(size_t pages) : n(pages * 4096) { base = (uint8_t *)mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); lo = base + 4096; hi = lo + n; mprotect(lo, n, PROT_READ | PROT_WRITE); }
};
static Guard &guard() { static Guard g(300); return g; }

// ------------------------------------------------------------------------------------- C26
static uint32_t crc_bit(const uint8_t *p, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82F63B78u : c >> 1; } return ~c; }
static uint32_t T[256];
static void mk() { if (T[1]) return; for (unsigned i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82F63B78u : c >> 1; T[i] = c; } }
static uint32_t crc_ref(const uint8_t *p, size_t n) { mk(); uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = c >> 8 ^ T[(c ^ p[i]) & 255]; return ~c; }
static void crc_all(const uint8_t *p, size_t n, uint32_t w, const char *where) {
	struct { const char *n; uint32_t v; } r[] = { { "my_crc32c", my_crc32c(p, n) }, { "my_crc32c_slicing", my_crc32c_slicing(p, n) }, { "my_crc32c without SSE 4.2", my_crc32c_nosse(p, n) }, { "my_crc32c_sse42", my_crc32c_sse42_supported() ? my_crc32c_sse42(p, n) : w } };
	for (auto &x : r) MC_CHECK(x.v == w, "%s of %zu octets %s at address ..%03lx %s is %08x, expected %08x", x.n, n, Hex(p, std::min<size_t>(n, 40)).s, (unsigned long)(uintptr_t)p & 0xfff, where, x.v, w);
	tr(4);
}
static void do_crc(const Bytes &d) {
	uint32_t w = crc_bit(d.data(), d.size()); Guard &g = guard(); size_t n = d.size();
	for (size_t al = 0; al < 16; al++) {
		uint8_t *p = g.lo + al; memset(g.lo, 0xee, 64 + n); memcpy(p, d.data(), n); crc_all(p, n, w, "at the start of a page"); MC_CHECK(!memcmp(p, d.data(), n), "the buffer is changed");
		p = g.hi - n - al; memset(g.hi - n - 64, 0x11, n + 64); memcpy(p, d.data(), n); crc_all(p, n, w, "at the end of a page");
	}
	Exact e(d); crc_all(e.p, n, w, "in an exact buffer");
	state(w); valid(); note("%08x", w);
}
static void do_crcpos(size_t n, size_t pos, int bg) {
	Guard &g = guard();
	for (size_t al = 0; al < 8; al++) { uint8_t *p = al & 1 ? g.lo + al : g.hi - n - al; memset(p, bg, n); for (int v = 0; v < 256; v++) { p[pos] = v; crc_all(p, n, crc_ref(p, n), "single octet varied"); } }
	add_cases(2048); valid(2048); state(mix(n, pos));
}
static void do_crcbig(size_t n, int pat) {
	Guard &g = guard(); for (size_t al : { 0, 1, 2, 3, 5, 7 }) { uint8_t *p = g.hi - n - al; for (size_t i = 0; i < n; i++) p[i] = pat == 0 ? i * 31 + (i >> 8) : pat == 1 ? 255 : i % 7 ? 0 : i >> 3; crc_all(p, n, crc_ref(p, n), "large"); }
	state(n); valid();
}
// more than 4 GB of octets: one piece of memory mapped over and over, ending at an unmapped page
static const size_t PIECE = 2 << 20;
struct Long {
	uint8_t *base = nullptr, *hi = nullptr; size_t n;
	explicit Long(size_t len) : n((len + PIECE - 1) / PIECE * PIECE + PIECE) {
		int fd = memfd_create("mc", 0); if (fd < 0) return;
		Bytes d(PIECE); for (size_t i = 0; i < PIECE; i++) d[i] = i * 31 + (i >> 7) + (i >> 15);
		void *b = ftruncate(fd, PIECE) || pwrite(fd, d.data(), PIECE, 0) != (ssize_t)PIECE ? MAP_FAILED : mmap(nullptr, n + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b != MAP_FAILED) { base = (uint8_t *)b; hi = base + n; for (size_t o = 0; o < n; o += PIECE) if (mmap(base + o, PIECE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { hi = nullptr; break; } }
		close(fd);
	}
	~Long() { if (base) munmap(base, n + 4096); }
};
static uint32_t times(const uint32_t *m, uint32_t v) { uint32_t r = 0; for (int i = 0; v; i++, v >>= 1) if (v & 1) r ^= m[i]; return r; }
static uint32_t crc_run(uint32_t c, const uint8_t *p, size_t n) { mk(); for (size_t i = 0; i < n; i++) c = c >> 8 ^ T[(c ^ p[i]) & 255]; return c; }
static void do_crchuge(size_t n) {
	Long l(n); if (!l.hi) { not_exhaustive("no address space for several gigabytes"); return; }
	// the register moves linearly over a piece of zero octets
	uint32_t a[32], t[32]; for (int i = 0; i < 32; i++) { uint32_t v = 1u << i; a[i] = v >> 8 ^ (mk(), T[v & 255]); }
	for (size_t k = 1; k < PIECE; k *= 2) { for (int i = 0; i < 32; i++) t[i] = times(a, a[i]); memcpy(a, t, sizeof a); }
	uint8_t *p = l.hi - n; size_t head = n % PIECE; uint32_t c = crc_run(~0u, p, head), one = crc_run(0, l.base, PIECE);
	for (size_t k = 0; k < n / PIECE; k++) c = times(a, c) ^ one;
	crc_all(p, n, ~c, "of several gigabytes"); state(n); valid();
}
static void do_crcearly() {
	MC_CHECK(early[0] == 0xE3069283u && early[2] == 0xE3069283u, "the first use of the dispatcher gives %08x / %08x, expected e3069283", early[0], early[2]);
	MC_CHECK(early[1] == 0 && early[3] == 0xC1D04330u, "the second use gives %08x / %08x", early[1], early[3]);
	MC_CHECK(crc_ref((const uint8_t *)"123456789", 9) == 0xE3069283u, "reference");
	// independence of earlier calls: all ordered triples of buffers
	static const char *s[] = { "", "a", "123456789", "0123456789abcdef0", "\0\0\0" }; size_t l[] = { 0, 1, 9, 17, 3 }; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) { my_crc32c((uint8_t *)s[a], l[a]); my_crc32c_slicing((uint8_t *)s[b], l[b]); crc_all((uint8_t *)s[c], l[c], crc_bit((uint8_t *)s[c], l[c]), "after other calls"); }
	valid(); state(1);
}
static void C26() {
	run(K_CRCEARLY, {});
	for (size_t n : { 1, 13, 100003 }) run(K_CRCHUGE, { num(n) });
	run(K_CRCHUGE, { num((1ull << 32) + 100003) });
	if (thorough) for (size_t n : { (1ull << 31) + 9, 1ull << 32, (1ull << 33) + 1, (1ull << 35) + 77 }) run(K_CRCHUGE, { num(n) });
	run(K_CRC, { {} });
	for (int a = 0; a < 256; a++) run(K_CRC, { B({ a }) });
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += thorough ? 1 : 15) run(K_CRC, { B({ a, b }) });
	for (size_t n = 2; n <= (thorough ? 2100u : 300u); n++) for (int p = 0; p < 4; p++) { Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : (i * i >> 3) ^ n; run(K_CRC, { d }); }
	// every single-bit message
	for (size_t n : { 1, 3, 4, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65 }) for (size_t i = 0; i < n * 8; i++) { Bytes d(n, 0); d[i / 8] = 1 << i % 8; run(K_CRC, { d }); }
	for (size_t n = 1; n <= (thorough ? 130u : 48u); n++) for (size_t pos = 0; pos < n; pos++) for (int bg : { 0, 255, 0x5a }) run(K_CRCPOS, { num(n), num(pos), num(bg) });
	for (size_t n : { 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 131071, 262144, 1048575, 1048576, 1048583 }) for (int p = 0; p < 3; p++) run(K_CRCBIG, { num(n), num(p) });
}

// ------------------------------------------------------------------------------------- C32
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void do_hex(const Bytes &t) {
	Bytes z = t; z.push_back(0); Exact e(z); Bytes w; bool ok = !t.empty() && t.size() % 2 == 0;
	for (uint8_t c : t) if (hexv(c) < 0) ok = false;
	if (ok) for (size_t i = 0; i < t.size(); i += 2) w.push_back(hexv(t[i]) << 4 | hexv(t[i + 1]));
	uint8_t *raw = nullptr; size_t len = 4711; int64_t b0 = live_blocks; bool r = s_hex_decode((const char *)e.p, &raw, &len); int64_t b1 = live_blocks; tr();
	MC_CHECK(r == ok, "hex_decode(`%s') %s", Esc(t).s, r ? "succeeds" : "fails");
	if (r) { MC_CHECK(len == w.size() && !memcmp(raw, w.data(), len), "hex_decode(`%s') gives %zu octets %s", Esc(t).s, len, Hex(raw, std::min(len, w.size())).s); MC_CHECK(b1 == b0 + 1, "one block expected"); free(raw); }
	else MC_CHECK(b1 == b0, "a failed hex_decode(`%s') leaves %lld block(s) allocated", Esc(t).s, (long long)(b1 - b0));
	state(mix(hbytes(1, w.data(), w.size()), ok)); valid(); note("%d", ok);
}
static void do_repl(const Bytes &s, const Bytes &o, const Bytes &n) {
	std::string S(s.begin(), s.end()), O(o.begin(), o.end()), N(n.begin(), n.end()), w; size_t i = 0;
	while (i < S.size()) if (!S.compare(i, O.size(), O)) { w += N; i += O.size(); } else w += S[i++];
	auto z = [](Bytes b) { b.push_back(0); return b; }; Exact a(z(s)), b(z(o)), c(z(n));
	char *r = s_string_replace((char *)a.p, (char *)b.p, (char *)c.p); tr();
	MC_CHECK(r && w == r, "replacing `%s' by `%s' in `%s' gives `%s', expected `%s'", O.c_str(), N.c_str(), S.c_str(), r ? r : "(null)", w.c_str()); free(r);
	MC_CHECK(!memcmp(a.p, S.c_str(), a.n) && !memcmp(b.p, O.c_str(), b.n) && !memcmp(c.p, N.c_str(), c.n), "an argument is changed");
	state(hbytes(2, w.data(), w.size())); valid(); note("%s", w.c_str());
}
// an integer in C notation; leading blanks and signs, the empty value and numbers of more than 64 bits are left open
static void do_env(int set, const Bytes &t) {
	std::string s(t.begin(), t.end()); const char *name = "MC_GETENV_INT";
	if (set) setenv(name, s.c_str(), 1); else { unsetenv(name); setenv("MC_GETENV_INT2", s.c_str(), 1); }
	uint64_t v = 4711, w = 0; bool ok = set && !s.empty(), open = s.empty();
	size_t i = 0; unsigned base = 10;
	if (s.size() > 2 && s[0] == '0' && (s[1] | 32) == 'x') { base = 16; i = 2; } else if (s.size() > 1 && s[0] == '0') { base = 8; i = 1; }
	if (s[0] == '0' && (s[1] | 32) == 'b') open = true;          // binary notation of newer C
	if (strchr(" \t\n\v\f\r+-", s[0])) open = true;
	for (; i < s.size(); i++) { int d = hexv(s[i]); if (d < 0 || d >= (int)base) { ok = false; break; } if (w > (~0ull - d) / base) { open = true; break; } w = w * base + d; }
	bool r = s_getenv_int(name, &v); tr(); unsetenv(name); unsetenv("MC_GETENV_INT2");
	if (!set) MC_CHECK(!r && v == 4711, "a variable that is not set is read as %llu", (unsigned long long)v);
	else if (!open) { MC_CHECK(r == ok, "getenv_int of `%s' %s", s.c_str(), r ? "succeeds" : "fails"); if (r) MC_CHECK(v == w, "getenv_int of `%s' gives %llu", s.c_str(), (unsigned long long)v); }
	if (!open) valid();
	state(mix(mix(v, r), 5)); note("%d", r);
}
static void do_swap(int x) {
	for (int k = 0; k < 4; k++) for (uint32_t bg : { 0u, 0xffffffffu, 0x12345678u }) {
		uint32_t v = (bg & ~(255u << 8 * k)) | (uint32_t)x << 8 * k, w = v << 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00) | v >> 24;
		MC_CHECK(s_bswap32(v) == w, "my_bswap32(%#x) is %#x", v, s_bswap32(v));
		uint32_t l = s_htole32(v); uint8_t b[4]; memcpy(b, &l, 4);
		MC_CHECK(b[0] == (v & 255) && b[1] == (v >> 8 & 255) && b[2] == (v >> 16 & 255) && b[3] == v >> 24, "my_htole32(%#x) is %#x", v, l);
		MC_CHECK(s_le32toh(l) == v, "my_le32toh(%#x) is %#x", l, s_le32toh(l)); tr();
	}
	valid(); state(mix(6, x));
}
static void do_print(const Bytes &d) {
	std::string w = "\""; for (uint8_t c : d) { char b[8]; if (c == '"') w += "\\\""; else if (c >= 32 && c < 127) w += (char)c; else { snprintf(b, 8, "\\x%02x", c); w += b; } } w += '"';
	static char *buf; static size_t cap; char *p = nullptr; size_t l = 0; FILE *f = open_memstream(&p, &l); Exact e(d); s_print_string(e.p, e.n, f); fclose(f); tr();
	std::string g(p, l); free(p); MC_CHECK(g == w, "%s prints as %s, expected %s", Hex(d).s, g.c_str(), w.c_str());
	state(hbytes(3, w.data(), w.size())); valid(); note("%s", w.c_str());
}
// controlled read(): each entry is the number of octets delivered, or one of these
enum { R_EINTR = 200, R_EOF, R_EIO, R_EAGAIN, R_ALL = 210, R_BUT1, R_64K, R_64K1, R_32K, R_4G };
static size_t takes(uint8_t r, size_t n) { return r == R_ALL ? n : r == R_BUT1 ? n - 1 ? n - 1 : n : std::min<size_t>(n, r == R_64K ? 65536 : r == R_64K1 ? 65537 : r == R_32K ? 32768 : r); }
static const Bytes *script; static size_t sat; static size_t served, badreq; static uint8_t *expbuf; static size_t wanted;
extern "C" ssize_t __real_read(int, void *, size_t);
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (fd != 4242) return __real_read(fd, b, n);
	if (b != expbuf + served || n > wanted - served || n == 0) badreq++;
	uint8_t r = sat < script->size() ? (*script)[sat++] : R_EOF;
	if (r == R_EINTR) { errno = EINTR; return -1; } if (r == R_EIO) { errno = EIO; return -1; } if (r == R_EAGAIN) { errno = EAGAIN; return -1; } if (r == R_EOF) return 0;
	size_t k = takes(r, n); for (size_t i = 0; i < k; i++) ((uint8_t *)b)[i] = 0x40 + served + i; served += k; return k;
}
static void do_read(size_t want, const Bytes &sc) {
	Exact o(want, 0xee); script = &sc; sat = served = badreq = 0; expbuf = o.p; wanted = want;
	size_t have = 0, used = 0; bool ok = want == 0; while (!ok && used < sc.size()) { uint8_t r = sc[used++]; if (r == R_EINTR) continue; if (r >= 200 && r < R_ALL) break; have += takes(r, want - have); if (have == want) ok = true; }
	errno = EINTR; bool r = s_read_bytes(4242, o.p, want); tr();
	MC_CHECK(r == ok, "reading %zu octets with read results %s %s", want, Hex(sc).s, r ? "succeeds" : "fails");
	MC_CHECK(!badreq, "reading %zu octets with read results %s: a read call does not continue behind the octets already read", want, Hex(sc).s);
	if (ok) { MC_CHECK(served == want && sat == used, "reading %zu octets with read results %s takes %zu octets in %zu calls", want, Hex(sc).s, served, sat); for (size_t i = 0; i < want; i++) MC_CHECK(o.p[i] == (uint8_t)(0x40 + i), "octet %zu is wrong with read results %s", i, Hex(sc).s); }
	state(mix(mix(want, sat), ok)); valid(); note("%d", ok);
}
template <class F> static void words(const char *al, size_t n, size_t L, F f) { for (size_t len = 0; len <= L; len++) { size_t tot = 1; for (size_t i = 0; i < len; i++) tot *= n; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < len; i++) { d.push_back(al[q % n]); q /= n; } f(d); } } }
static void C32() {
	words("09afAFgG:@`/ \x80\xff", 15, thorough ? 5 : 4, [](const Bytes &d) { run(K_HEX, { d }); });
	for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) run(K_HEX, { B({ a, b }) });
	for (int c = 1; c < 256; c++) for (size_t len = 1; len <= 12; len++) for (size_t pos = 0; pos < len; pos++) { Bytes d; for (size_t i = 0; i < len; i++) d.push_back("0aF9c"[i % 5]); d[pos] = c; run(K_HEX, { d }); }
	for (size_t len = 0; len <= 130; len++) { Bytes d(len, 'e'); run(K_HEX, { d }); if (len) { d[len - 1] = 'x'; run(K_HEX, { d }); } }
	std::vector<Bytes> olds, news; words("ab", 2, 4, [&](const Bytes &d) { if (!d.empty()) olds.push_back(d); }); news = { S(""), S("a"), S("b"), S("c"), S("ab"), S("ba"), S("aa"), S("aab"), S("abab"), Bytes(70, 'a') };
	words("abc", 3, thorough ? 9 : 7, [&](const Bytes &s) { for (auto &o : olds) for (auto &n : news) if (thorough || s.size() < 7 || n.size() < 3) run(K_REPL, { s, o, n }); });
	for (size_t l : { 30, 61, 62, 63, 64, 65, 127, 128, 129, 500 }) for (auto &o : olds) for (auto &n : news) { Bytes s(l, 'a'); run(K_REPL, { s, o, n }); for (size_t i = 0; i < l; i += 3) s[i] = 'b'; run(K_REPL, { s, o, n }); Bytes h(l, 'h'); run(K_REPL, { s, h, n }); run(K_REPL, { h, h, n }); run(K_REPL, { cat({ h, h, o }), h, n }); }
	run(K_PRINT, { {} }); for (int a = 0; a < 256; a++) { run(K_PRINT, { B({ a }) }); for (int b = 0; b < 256; b++) run(K_PRINT, { B({ a, b }) }); }
	words("a\"\\\n\xff%", 6, thorough ? 7 : 6, [](const Bytes &d) { run(K_PRINT, { d }); });
	for (size_t len : { 3, 100, 1000, 70000 }) { Bytes d(len); for (size_t i = 0; i < len; i++) d[i] = i * 7; run(K_PRINT, { d }); }
	words("0178fx 9-b", 10, deepest ? 7 : thorough ? 6 : 5, [](const Bytes &d) { run(K_ENV, { num(1), d }); });
	for (int a = 1; a < 256; a++) for (const char *p : { "", "1", "0", "0x", "0X", "0x1", "12" }) for (const char *q : { "", "1", "7", "z" }) run(K_ENV, { num(1), cat({ S(p), B({ a }), S(q) }) });
	for (const char *s : { "18446744073709551615", "18446744073709551614", "18446744073709551616", "9223372036854775807", "9223372036854775808", "0xffffffffffffffff", "0x8000000000000000", "01777777777777777777777", "0x10000000000000000", "4294967296", "4294967295", "2147483648", "000000000000000000000000017", "0x0000000000000000000000001F" }) { run(K_ENV, { num(1), S(s) }); run(K_ENV, { num(1), cat({ S(s), S("x") }) }); run(K_ENV, { num(0), S(s) }); }
	for (int c = 0; c < 256; c++) run(K_SWAP, { num(c) });
	const char r[] = { 1, 2, 3, 5, (char)R_EINTR, (char)R_EOF, (char)R_EIO, (char)R_EAGAIN };
	for (size_t want = 0; want <= (thorough ? 8u : 6u); want++) words(r, 8, deepest ? 7 : thorough ? 6 : 5, [&](const Bytes &d) { run(K_READ, { num(want), d }); });
	const char rb[] = { 3, (char)R_EINTR, (char)R_ALL, (char)R_BUT1, (char)R_64K, (char)R_64K1, (char)R_32K, (char)R_EOF };
	for (size_t want : { 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65539, 98304, 131071, 131072, 131073, 262144 }) words(rb, 8, want > 200000 ? 3 : 4, [&](const Bytes &d) { run(K_READ, { num(want), d }); });
	for (size_t len : { 254, 255, 256, 257, 65534, 65535, 65536, 65537, 65538, 131072, 131074, 300000 }) { Bytes d(len); for (size_t i = 0; i < len; i++) d[i] = "0123456789abcdefABCDEF"[(i + i / 7) % 22]; run(K_HEX, { d }); for (size_t at : { (size_t)0, len / 2, len - 1 }) { Bytes e = d; e[at] = 'g'; run(K_HEX, { e }); } }
	for (size_t l : { 32768, 65535, 65536, 65537, 131072, 200000 }) for (size_t m : { 1, 3, 70000 }) for (size_t k : { 0, 1, 5, 70000 }) { Bytes a(l, 'a'), o(m, 'b'), n(k, 'n'); run(K_REPL, { cat({ a, o, S("x"), o }), o, n }); run(K_REPL, { cat({ o, a, o, a }), o, n }); run(K_REPL, { a, o, n }); }
	for (size_t want : { 100, 150, 190 }) words(r, 8, 4, [&](const Bytes &d) { Bytes e = d; e.push_back(99); e.push_back(99); run(K_READ, { num(want), e }); });
}

// ------------------------------------------------------------------------------------- C33
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
struct H3 { uint32_t a, b, c;
	void mixx() { a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a; a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a; }
	void fin() { c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24); } };
// published algorithm over zero-padded 12-octet blocks
static H3 ref_hash(const uint8_t *k, size_t n, uint32_t pc, uint32_t pb, bool big) {
	H3 h; h.a = h.b = h.c = 0xdeadbeef + (uint32_t)n + pc; h.c += pb;
	while (n) { uint8_t blk[12] = { 0 }; size_t m = std::min<size_t>(n, 12); memcpy(blk, k, m); uint32_t w[3]; for (int i = 0; i < 3; i++) w[i] = big ? (uint32_t)blk[4 * i] << 24 | blk[4 * i + 1] << 16 | blk[4 * i + 2] << 8 | blk[4 * i + 3] : (uint32_t)blk[4 * i + 3] << 24 | blk[4 * i + 2] << 16 | blk[4 * i + 1] << 8 | blk[4 * i]; h.a += w[0]; h.b += w[1]; h.c += w[2]; if (n > 12) h.mixx(); else { h.fin(); break; } k += 12; n -= 12; }
	return h;
}
static void hash_at(const uint8_t *p, size_t n, uint32_t s1, uint32_t s2, const char *where) {
	H3 l = ref_hash(p, n, s1, 0, false), l2 = ref_hash(p, n, s1, s2, false), g = ref_hash(p, n, s1, 0, true);
	uint32_t r = my_hashlittle(p, n, s1); MC_CHECK(r == l.c, "hashlittle of %zu octets %s at ..%03lx %s seed %x is %08x, expected %08x", n, Hex(p, std::min<size_t>(n, 40)).s, (unsigned long)(uintptr_t)p & 0xfff, where, s1, r, l.c);
	uint32_t c = s1, b = s2; my_hashlittle2(p, n, &c, &b); MC_CHECK(c == l2.c && b == l2.b, "hashlittle2 of %zu octets %s at ..%03lx %s seeds %x %x is %08x %08x, expected %08x %08x", n, Hex(p, std::min<size_t>(n, 40)).s, (unsigned long)(uintptr_t)p & 0xfff, where, s1, s2, c, b, l2.c, l2.b);
	r = my_hashbig(p, n, s1); MC_CHECK(r == g.c, "hashbig of %zu octets %s at ..%03lx %s seed %x is %08x, expected %08x", n, Hex(p, std::min<size_t>(n, 40)).s, (unsigned long)(uintptr_t)p & 0xfff, where, s1, r, g.c);
	if (n % 4 == 0 && ((uintptr_t)p & 3) == 0) {
		r = my_hashword((const uint32_t *)p, n / 4, s1); MC_CHECK(r == l.c, "hashword of %s is %08x, hashlittle %08x", Hex(p, n).s, r, l.c);
		c = s1; b = s2; my_hashword2((const uint32_t *)p, n / 4, &c, &b); MC_CHECK(c == l2.c && b == l2.b, "hashword2 of %s is %08x %08x, hashlittle2 %08x %08x", Hex(p, n).s, c, b, l2.c, l2.b);
	}
	tr(5); state(l2.c);
}
static void do_hashhuge(size_t n) {
	Long l(n); if (!l.hi) { not_exhaustive("no address space for several gigabytes"); return; }
	const uint8_t *p = l.hi - n, *q = p; size_t m = n; H3 h; h.a = h.b = h.c = 0xdeadbeef + (uint32_t)n + 7;
	for (; m > 12; m -= 12, q += 12) { uint32_t w[3]; memcpy(w, q, 12); h.a += w[0]; h.b += w[1]; h.c += w[2]; h.mixx(); }
	uint32_t w[3] = { 0, 0, 0 }; memcpy(w, q, m); h.a += w[0]; h.b += w[1]; h.c += w[2]; h.fin();
	uint32_t r = my_hashlittle(p, n, 7), c = 7, b = 0; my_hashlittle2(p, n, &c, &b); tr(2);
	MC_CHECK(r == h.c && c == h.c && b == h.b, "hashlittle and hashlittle2 of %zu octets are %08x and %08x %08x, expected %08x %08x", n, r, c, b, h.c, h.b);
	state(h.c); valid();
}
static const uint32_t SEEDS[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 0xdeadbeef, 0xdeadbeef }, { 0xffffffff, 0x80000000 }, { 0x12345678, 0x9abcdef0 } };
static void do_hash(const Bytes &d) {
	Guard &g = guard(); size_t n = d.size();
	for (auto &s : SEEDS) for (size_t al = 0; al < 16; al++) for (int fill : { 0, 255, 0xa5 }) {
		memset(g.lo, fill, n + 64); uint8_t *p = g.lo + al; memcpy(p, d.data(), n); hash_at(p, n, s[0], s[1], "at the start of a page"); MC_CHECK(!memcmp(p, d.data(), n), "the key is changed");
		memset(g.hi - n - 64, fill, n + 64); p = g.hi - n - al; memcpy(p, d.data(), n); hash_at(p, n, s[0], s[1], "at the end of a page");
	}
	valid(); note("%08x", my_hashlittle(g.hi - n, n, 0));
}
static void do_hashpos(size_t n, size_t pos, int si) {
	Guard &g = guard(); for (size_t al = 0; al < 4; al++) for (int bg : { 0, 255 }) { uint8_t *p = g.hi - n - al; memset(g.hi - n - 16, 0x77, n + 16); memset(p, bg, n); for (int v = 0; v < 256; v++) { p[pos] = v; hash_at(p, n, SEEDS[si][0], SEEDS[si][1], "single octet varied"); } }
	add_cases(2048); valid(2048);
}
static void do_vec() {
	const char *q = "Four score and seven years ago"; uint32_t c, b;
	MC_CHECK(my_hashlittle(q, 30, 0) == 0x17770551 && my_hashlittle(q, 30, 1) == 0xcd628161, "published value of hashlittle");
	c = b = 0; my_hashlittle2("", 0, &c, &b); MC_CHECK(c == 0xdeadbeef && b == 0xdeadbeef, "published value of hashlittle2"); c = 0; b = 0xdeadbeef; my_hashlittle2("", 0, &c, &b); MC_CHECK(c == 0xbd5b7dde && b == 0xdeadbeef, "published value"); c = 0xdeadbeef; b = 0xdeadbeef; my_hashlittle2("", 0, &c, &b); MC_CHECK(c == 0x9c093ccd && b == 0xbd5b7dde, "published value");
	c = 0; b = 0; my_hashlittle2(q, 30, &c, &b); MC_CHECK(c == 0x17770551 && b == 0xce7226e6, "published value"); c = 0; b = 1; my_hashlittle2(q, 30, &c, &b); MC_CHECK(c == 0xe3607cae && b == 0xbd371de4, "published value"); c = 1; b = 0; my_hashlittle2(q, 30, &c, &b); MC_CHECK(c == 0xcd628161 && b == 0x6cbea4b3, "published value");
	valid(); state(1);
}
static void C33() {
	run(K_VEC, {}); run(K_HASH, { {} });
	run(K_HASHHUGE, { num(100003) }); run(K_HASHHUGE, { num((1ull << 32) + 1003) });
	if (thorough) for (size_t n : { (1ull << 31) + 8, (1ull << 33) + 1 }) run(K_HASHHUGE, { num(n) });
	for (int a = 0; a < 256; a++) run(K_HASH, { B({ a }) });
	for (size_t n = 2; n <= (thorough ? 600u : 120u); n++) for (int p = 0; p < 4; p++) { Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : 0x80 ^ i; run(K_HASH, { d }); }
	for (size_t n = 1; n <= (deepest ? 130u : thorough ? 60u : 38u); n++) for (size_t pos = 0; pos < n; pos++) for (int s = 0; s < (thorough ? 6 : 2); s++) run(K_HASHPOS, { num(n), num(pos), num(s * (thorough ? 1 : 5)) });
	const int al[] = { 0, 1, 0x7f, 0x80, 0xff }; for (size_t n = 2; n <= 5; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= 5; for (size_t k = 0; k < tot; k++) { Bytes d; size_t q = k; for (size_t i = 0; i < n; i++) { d.push_back(al[q % 5]); q /= 5; } run(K_HASH, { d }); } }
	for (size_t n : { 1000, 4095, 4096, 4097, 65536, 100001 }) { Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = i * 31 + (i >> 7); run(K_HASH, { d }); }
}

void mc::check(const Case &c) {
	auto b = [&](size_t i) -> const Bytes & { return c.b[i]; };
	switch (c.kind) {
	case K_CRCHUGE: do_crchuge(getnum(b(0))); break; case K_HASHHUGE: do_hashhuge(getnum(b(0))); break;
	case K_CRC: do_crc(b(0)); break; case K_CRCPOS: do_crcpos(getnum(b(0)), getnum(b(1)), getnum(b(2))); break; case K_CRCBIG: do_crcbig(getnum(b(0)), getnum(b(1))); break; case K_CRCEARLY: do_crcearly(); break;
	case K_HEX: do_hex(b(0)); break; case K_REPL: do_repl(b(0), b(1), b(2)); break; case K_PRINT: do_print(b(0)); break; case K_READ: do_read(getnum(b(0)), b(1)); break;
	case K_HASH: do_hash(b(0)); break; case K_HASHPOS: do_hashpos(getnum(b(0)), getnum(b(1)), getnum(b(2))); break; case K_VEC: do_vec(); break;
	case K_ENV: do_env(getnum(b(0)), b(1)); break; case K_SWAP: do_swap(getnum(b(0))); break;
	}
}
void mc::enumerate() { if (P("C26")) C26(); else if (P("C32")) C32(); else if (P("C33")) C33(); }
