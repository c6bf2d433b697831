// C16 mnemonics and codes, C19 name list files
#include "refname.hpp"
#include "refcodes.hpp"
#include <wdns/wdns.h>
#include <map>
#include <string>
#include <dirent.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

enum { K_CODE, K_TEXT, K_FILE, K_NOFILE };
const char *mc::kind_names[] = { "code to mnemonic and back(code)", "text to codes(text)", "file_load_names(content, fail-after)", "file_load_names(no such file, directory)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

// ------------------------------------------------------------------------------------- C16
static const CodeName RCODES[] = { {0,"NOERROR"},{1,"FORMERR"},{2,"SERVFAIL"},{3,"NXDOMAIN"},{4,"NOTIMP"},{5,"REFUSED"},{6,"YXDOMAIN"},{7,"YXRRSET"},{8,"NXRRSET"},{9,"NOTAUTH"},{10,"NOTZONE"},{16,"BADVERS"} };
static const CodeName OPCODES[] = { {0,"QUERY"},{1,"IQUERY"},{2,"STATUS"},{4,"NOTIFY"},{5,"UPDATE"} };
static const char *RES[] = { "success", "failure", "invalid compression pointer", "invalid length octet", "invalid opcode", "invalid rcode", "len", "malloc", "name len", "name overflow", "out of bounds", "overflow", "parse error", "qdcount", "unknown opcode", "unknown rcode" };
template <size_t N> static const char *byc(const CodeName (&t)[N], int c) { for (auto &x : t) if (x.code == c) return x.name; return nullptr; }
static std::string low(const std::string &s) { std::string r = s; for (auto &c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }

static void eq(const char *what, int code, const char *got, const char *want) {
	MC_CHECK((got == nullptr) == (want == nullptr) && (!got || !strcmp(got, want)), "%s %d renders as `%s', expected `%s'", what, code, got ? got : "(none)", want ? want : "(none)");
	tr();
}
// value a text must convert to: -1 none, -2 either zero or the number in alt
template <size_t N> static int want_code(const CodeName (&t)[N], const char *gen, const std::string &s, int *alt) {
	std::string l = low(s);
	static std::map<const void *, std::map<std::string, int>> maps; auto &m = maps[t];
	if (m.empty()) for (auto &x : t) m[low(x.name)] = x.code;
	auto it = m.find(l); if (it != m.end()) return it->second;
	size_t g = gen ? strlen(gen) : 0;
	if (!gen || l.size() <= g || l.compare(0, g, gen)) return -1;
	uint64_t v = 0; for (size_t i = g; i < l.size(); i++) { if (l[i] < '0' || l[i] > '9') return -1; v = v * 10 + (l[i] - '0'); if (v > 65535) return -1; }
	if (l[g] == '0' && l.size() > g + 1) { *alt = v; return -2; }      // leading zeros: unspecified
	return v;
}
static void do_text(const Bytes &t) {
	std::string s(t.begin(), t.end()); Bytes z = t; z.push_back(0); Exact e(z); const char *p = (const char *)e.p;
	int alt = 0;
	int w = want_code(REF_TYPES, "type", s, &alt), g = wdns_str_to_rrtype(p); tr();
	MC_CHECK(w == -2 ? g == 0 || g == alt : g == (w < 0 ? 0 : w), "str_to_rrtype(`%s') = %d, expected %d", Esc(t).s, g, w);
	uint64_t h = mix(g, w);
	w = want_code(REF_CLASSES, "class", s, &alt); g = wdns_str_to_rrclass(p); tr();
	MC_CHECK(w == -2 ? g == 0 || g == alt : g == (w < 0 ? 0 : w), "str_to_rrclass(`%s') = %d, expected %d", Esc(t).s, g, w);
	h = mix(h, mix(g, w));
	w = want_code(RCODES, nullptr, s, &alt); uint16_t out = 4711; wdns_res r = wdns_str_to_rcode(p, &out); tr();
	MC_CHECK((r == wdns_res_success) == (w >= 0) && (w < 0 || out == w), "str_to_rcode(`%s') = %d (res %d), expected %d", Esc(t).s, out, r, w);
	state(mix(h, w)); valid(3); note("rcode %d", w);
}
static void do_code(int c) {
	eq("type", c, wdns_rrtype_to_str(c), ref_type_name(c)); eq("class", c, wdns_rrclass_to_str(c), ref_class_name(c));
	eq("rcode", c, wdns_rcode_to_str(c), byc(RCODES, c)); eq("opcode", c, wdns_opcode_to_str(c), byc(OPCODES, c));
	eq("result", c, wdns_res_to_str((wdns_res)c), c < 16 ? RES[c] : nullptr);
	for (const char *g : { "TYPE%d", "type%d", "Type%d", "tYPe%d", "CLASS%d", "class%d", "ClAsS%d" }) { char b[24]; snprintf(b, sizeof b, g, c); do_text(S(b)); for (const char *x : { "%sx", "%s ", "x%s", " %s", "%s0", "%s.0", "%s-", "0%s", "%s\n" }) { char d[32]; snprintf(d, sizeof d, x, b); do_text(S(d)); } }
	if (const char *m = ref_type_name(c)) { int v = wdns_str_to_rrtype(m); MC_CHECK(v == c, "type %d renders as %s, which converts to %d", c, m, v); }
	state(c); valid(5); note("%s", ref_type_name(c) ? ref_type_name(c) : "-");
}
static void C16() {
	for (int c = 0; c < 65536; c++) run(K_CODE, { num(c) });
	auto T = [&](const std::string &s) { run(K_TEXT, { Bytes(s.begin(), s.end()) }); };
	std::vector<std::string> all;
	for (auto &x : REF_TYPES) all.push_back(x.name); for (auto &x : REF_CLASSES) all.push_back(x.name); for (auto &x : RCODES) all.push_back(x.name);
	for (auto &x : OPCODES) all.push_back(x.name);
	for (auto s : { "TYPE0", "TYPE1", "TYPE9", "TYPE10", "TYPE65535", "CLASS1", "CLASS0", "CLASS65535", "CLASS254", "TYPE", "CLASS", "TYPEA", "", "NOTYPE" }) all.push_back(s);
	for (auto &m : all) {
		size_t letters = std::min<size_t>(m.size(), deepest ? 18 : thorough ? 14 : 10);
		for (size_t k = 0; k < (1u << letters); k++) { std::string s = m; for (size_t i = 0; i < s.size(); i++) if (i >= letters ? k & 1 : k >> i & 1) s[i] = tolower(s[i]); T(s); }
		for (size_t i = 0; i <= m.size(); i++) for (int c = 1; c < 256; c++) { std::string s = m; s.insert(i, 1, (char)c); T(s); if (i < m.size()) { s = m; s[i] = c; T(s); } }
		for (size_t i = 0; i < m.size(); i++) { std::string s = m; s.erase(i, 1); T(s); s = m.substr(0, i); T(s); T(m.substr(i)); for (size_t j = i + 1; j < m.size(); j++) { s = m; std::swap(s[i], s[j]); T(s); } }
		T(m + m); T(m + " " + m); T(m + std::string(300, 'x')); T(m + "\t"); T("\t" + m);
	}
	for (auto &a : all) for (auto &b : all) { T(a + b); if (a.size() > 1 && b.size() > 1) T(a.substr(0, a.size() - 1) + b.back()); }
	for (auto p : { "TYPE", "CLASS", "type", "RCODE" }) for (uint64_t v : { 65536ull, 65537ull, 65791ull, 99999ull, 131072ull, 131073ull, 4294967295ull, 4294967296ull, 4294967297ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull }) for (int d = 0; d < 3; d++) T(std::string(p) + std::to_string(v) + std::string(d, '0'));
	for (auto p : { "TYPE", "CLASS" }) for (auto s : { "18446744073709551616", "18446744073709551617", "99999999999999999999999", "-1", "+1", " 1", "-0", "0x1", "1e1", "\t1", "-65535", "00001", "000000000000000000000000000001", "0", "1.", "--1", "1 1" }) T(std::string(p) + s);
	const char *al = "ATYPE1N-SX0 "; size_t A = strlen(al);
	for (size_t len = 0; len <= (deepest ? 7u : thorough ? 6u : 5u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= A; for (size_t k = 0; k < total; k++) { std::string s; size_t q = k; for (size_t i = 0; i < len; i++) { s += al[q % A]; q /= A; } T(s); } }
	// every mnemonic-sized string of upper-case letters
	for (int a = 0; a < 26; a++) for (int b = 0; b < 26; b++) { T({ (char)('A' + a), (char)('a' + b) }); for (int c = 0; c < 26; c++) { T({ (char)('a' + a), (char)('A' + b), (char)('A' + c) }); if (thorough) for (int d = 0; d < 26; d++) T({ (char)('A' + a), (char)('A' + b), (char)('A' + c), (char)('A' + d) }); } }
}

// ------------------------------------------------------------------------------------- C19
static std::vector<Bytes> heard; static void *heard_user; static bool bad_user;
static void cb(wdns_name_t *n, void *user) {
	if (user != heard_user) bad_user = true;
	heard.push_back(Bytes(n->data, n->data + n->len)); free(n->data);
}
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
// read errors: the stream fails once `failat' octets were delivered
static long failat = -1; static bool faulted, wrapped;
extern "C" FILE *__real_fopen(const char *, const char *);
struct Ck { int fd; long pos; };
static ssize_t ck_read(void *c, char *b, size_t n) { auto k = (Ck *)c; if (k->pos >= failat) { faulted = true; errno = EIO; return -1; } if ((long)n > failat - k->pos) n = failat - k->pos; ssize_t r = read(k->fd, b, n); if (r > 0) k->pos += r; return r; }
static int ck_close(void *c) { auto k = (Ck *)c; close(k->fd); free(k); return 0; }
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
	if (failat < 0) return __real_fopen(p, m);
	int fd = open(p, O_RDONLY); if (fd < 0) return nullptr;
	wrapped = true;
	auto k = (Ck *)malloc(sizeof(Ck)); k->fd = fd; k->pos = 0;
	cookie_io_functions_t io = { ck_read, nullptr, nullptr, ck_close };
	return fopencookie(k, m, io);
}
static void do_file(const Bytes &content, long fail) {
	std::vector<Bytes> want; bool ok = true;
	{
		size_t o = 0;
		while (o < content.size()) {
			size_t e = o; while (e < content.size() && content[e] != '\n') e++;
			if (e > o && content[o] != ' ' && content[o] != '#') {
				Bytes w; bool nul = false; for (size_t i = o; i < e; i++) if (!content[i]) nul = true;
				if (nul || !ref_text_name(content.data() + o, e - o, true, w)) { ok = false; break; }
				want.push_back(w);
			}
			o = e + 1;
		}
	}
	char path[400]; snprintf(path, sizeof path, "%s/names", wdir());
	int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (o < content.size()) { ssize_t n = write(fd, content.data() + o, content.size() - o); if (n <= 0) break; o += n; } close(fd);
	static bool warm; if (!warm) { warm = true; FILE *f = __real_fopen(path, "r"); fclose(f); }
	heard.clear(); heard.shrink_to_fit(); heard_user = &want; bad_user = faulted = wrapped = false;
	heard.reserve(content.size() + 1);
	int f0 = nfds();
	failat = fail;
	wdns_res r = wdns_file_load_names(path, cb, &want); tr();
	failat = -1;
	int f1 = nfds();
	MC_CHECK(!bad_user, "the callback got another user pointer");
	if (fail < 0 || !faulted) {
		MC_CHECK(ok == (r == wdns_res_success), "%s (res %d), expected %s", r == wdns_res_success ? "success" : "failure", r, ok ? "success" : "an error");
		MC_CHECK(heard.size() == want.size(), "%zu names were delivered, expected %zu", heard.size(), want.size());
	} else {
		MC_CHECK(r != wdns_res_success, "a file that cannot be read beyond octet %ld was loaded successfully", fail);
		MC_CHECK(heard.size() <= want.size(), "%zu names were delivered, the file lists %zu", heard.size(), want.size());
		// only names of lines that were read completely
	}
	for (size_t i = 0; i < heard.size(); i++) MC_CHECK(heard[i] == want[i], "name %zu is %s, expected %s", i, Hex(heard[i]).s, Hex(want[i]).s);
	MC_CHECK(f0 == f1, "%d descriptors stay open", f1 - f0);
	uint64_t h = mix(r, heard.size()); for (auto &n : heard) h = hbytes(h, n.data(), n.size()); state(h); valid(); note("%zu names, res %d", heard.size(), r);
	heard.clear(); heard.shrink_to_fit();
}
static void do_nofile(int k) {
	char path[400]; heard.clear(); heard_user = &k; int f0 = nfds();
	if (k == 0) snprintf(path, sizeof path, "%s/missing", wdir()); else if (k == 1) snprintf(path, sizeof path, "%s", wdir()); else if (k == 2) snprintf(path, sizeof path, "%s/missing/x", wdir()); else path[0] = 0;
	wdns_res r = wdns_file_load_names(path, cb, &k); tr();
	MC_CHECK(r != wdns_res_success && heard.empty(), "an unreadable file gave res %d and %zu names", r, heard.size());
	MC_CHECK(f0 == nfds(), "a descriptor stays open"); state(k); valid(); note("res %d", r);
}
static void C19() {
	auto F = [&](const Bytes &c, long fail = -1) { run(K_FILE, { c, num(fail) }); };
	for (int k = 0; k < 4; k++) run(K_NOFILE, { num(k) });
	F(Bytes());
	std::vector<Bytes> lines = { Bytes(), S("a"), S("Example.COM."), S("."), S(" x.y"), S("#c"), S("bad..name"), S("a\\"), S("x\\.Y.z"), cat({S("n"), B({0}), S("m")}), S("\\300"), S("b.#") };
	size_t max = thorough ? 5 : 4;
	for (size_t len = 1; len <= max; len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= lines.size(); for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { app(b, lines[q % lines.size()]); if (i + 1 < len) b.push_back('\n'); q /= lines.size(); } F(b); b.push_back('\n'); if (len < max || k % 3 == 0) F(b); } }
	// all contents over a small alphabet
	const std::vector<uint8_t> al = { '\n', ' ', '#', 'a', 'B', '.', '\\', 0 };
	for (size_t len = 1; len <= (deepest ? 7u : thorough ? 6u : 5u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size(); for (size_t k = 0; k < total; k++) { Bytes b(len); size_t q = k; for (size_t i = 0; i < len; i++) { b[i] = al[q % al.size()]; q /= al.size(); } F(b); } }
	for (int c = 1; c < 256; c++) { if (c == '\t' || c == '\r' || c == '\v' || c == '\f') continue; F(B({c})); F(B({c, '\n'})); F(B({'a', c, '\n', 'b'})); F(B({c, 'a', '.', '\n', 'q'})); }
	// line lengths around every buffer size
	for (size_t n : {62, 63, 64, 120, 126, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 512, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 20000, 70000}) for (int kind = 0; kind < 6; kind++) {
		Bytes l;
		switch (kind) {
		case 0: l = rep('a', n); break;
		case 1: for (size_t i = 0; i < n; i++) l.push_back(i % 2 ? '.' : 'A' + i % 26); break;
		case 2: l = cat({S("#"), rep('c', n)}); break;
		case 3: l = cat({S(" "), rep('c', n)}); break;
		case 4: while (l.size() + 4 <= n) { for (char c : {'\\', '1', '0', '0'}) l.push_back(c); if (l.size() % 160 == 0) l.push_back('.'); } break;
		case 5: l = cat({S("#"), rep('c', n), S(" .."), rep('d', n)}); break;
		}
		for (auto &tail : { S(""), S("\n"), S("\nnext.Name\n"), S("\nnext.name\n\n#x\nlast") }) { F(cat({l, tail})); F(cat({S("first\n"), l, tail})); }
	}
	{ Bytes b; for (int i = 0; i < 3000; i++) { app(b, S("n")); char t[20]; snprintf(t, sizeof t, "%d.Com", i); app(b, S(t)); b.push_back('\n'); if (i % 10 == 0) b.push_back('\n'); } F(b); F(cat({b, S("bad..\n"), b})); F(sub(b, 0, b.size() - 1)); for (long f : {0l, 1l, 4095l, 4096l, 4097l, 8192l, 20000l}) F(b, f); }
	// read errors at every offset
	for (auto &b : { S("a\nB.c\n#x\nd"), S("one.\n\n two\nthree\n"), S("x..\ny\n"), S("\n"), S("#only") }) for (size_t f = 0; f <= b.size(); f++) F(b, f);
}
void mc::enumerate() { if (P("C16")) C16(); else C19(); }
void mc::check(const Case &c) {
	switch (c.kind) {
	case K_CODE: do_code(getnum(c.b[0])); break;
	case K_TEXT: do_text(c.b[0]); break;
	case K_FILE: do_file(c.b[0], (long)getnum(c.b[1])); break;
	case K_NOFILE: do_nofile(getnum(c.b[0])); break;
	}
}
