// C41 the example programs: their main functions, called with every input of a bounded space.  The capture library is a
// stand-in that hands out each packet in a buffer of exactly its captured size.
#include "refmsg.hpp"
#include <wdns/wdns.h>
#include <setjmp.h>
#include <string>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <pcap.h>
using namespace mc;
typedef std::string Str;
extern "C" { int ex_ser_main(int, char **); int ex_deser_main(int, char **); int ex_down_main(int, char **); int ex_print_main(int, char **); int ex_file_main(int, char **); int ex_pcap_main(int, char **); }
enum { K_CAP, K_FILE, K_HEX, K_ARGS };
const char *mc::kind_names[] = { "dump-pcap(packets)", "dump-file(octets, kind of file)", "hex program(which, argument)", "arguments(which, number)" };

// ------------------------------------------------------------------- capture library
struct Pk { Bytes d; unsigned len; };
static std::vector<Pk> packets; static std::vector<int> dumped; static int delivering = -1; static const uint8_t *cur; static size_t next_pk; static pcap_pkthdr nh;
static std::vector<void *> handles;                                  // what a program has open; closed for it when it ends
static void *gethandle() { void *p = malloc(1); handles.push_back(p); return p; }
static void puthandle(void *p) { auto it = std::find(handles.begin(), handles.end(), p); MC_CHECK(it != handles.end(), "a capture that is not open was closed"); handles.erase(it); free(p); }
extern "C" {
pcap_t *pcap_open_offline(const char *f, char *err) { if (strcmp(f, "in")) { strcpy(err, "no such file"); return nullptr; } return (pcap_t *)gethandle(); }
void pcap_close(pcap_t *p) { puthandle(p); }
pcap_dumper_t *pcap_dump_open(pcap_t *, const char *f) { if (strcmp(f, "out")) return nullptr; return (pcap_dumper_t *)gethandle(); }
void pcap_dump_close(pcap_dumper_t *d) { puthandle(d); }
int pcap_dump_flush(pcap_dumper_t *) { return 0; }
void pcap_dump(u_char *, const struct pcap_pkthdr *h, const u_char *p) { MC_CHECK(delivering >= 0 && p == cur && h->caplen == packets[delivering].d.size(), "another packet than the one read was written"); dumped.push_back(delivering); }
void pcap_perror(pcap_t *, const char *) {}
char *pcap_geterr(pcap_t *) { static char e[] = "error"; return e; }
int pcap_compile(pcap_t *, struct bpf_program *b, const char *f, int, bpf_u_int32) { if (!strcmp(f, "bad")) return -1; b->bf_len = 0; b->bf_insns = (bpf_insn *)malloc(1); return 0; }
int pcap_setfilter(pcap_t *, struct bpf_program *) { return 0; }
void pcap_freecode(struct bpf_program *b) { free(b->bf_insns); b->bf_insns = nullptr; }
int pcap_datalink(pcap_t *) { return DLT_EN10MB; }
int pcap_loop(pcap_t *, int, pcap_handler h, u_char *u) {
	for (size_t i = 0; i < packets.size(); i++) {
		Exact e(packets[i].d); pcap_pkthdr k = {}; k.caplen = e.n; k.len = packets[i].len;
		delivering = i; cur = e.p; h(u, &k, e.p); delivering = -1;
	}
	return 0;
}
int pcap_dispatch(pcap_t *p, int n, pcap_handler h, u_char *u) { return pcap_loop(p, n, h, u); }
}

// ------------------------------------------------------------------- running a program
static sigjmp_buf back; static bool inside; static int exitcode;
static std::vector<FILE *> opened; static size_t open_left;
extern "C" {
void __real_exit(int); void __real__exit(int);
void __wrap_exit(int c) { if (!inside) __real_exit(c); exitcode = c; inside = false; siglongjmp(back, 1); }
void __wrap__exit(int c) { if (!inside) __real__exit(c); __wrap_exit(c); }
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f = __real_fopen(p, m); if (f && inside) opened.push_back(f); return f; }
int __wrap_fclose(FILE *f) { opened.erase(std::remove(opened.begin(), opened.end(), f), opened.end()); return __real_fclose(f); }
}
// a program starts with its variables as they were at first
extern "C" { extern char __start_ex_bss[] __attribute__((weak)), __stop_ex_bss[] __attribute__((weak)), __start_ex_data[] __attribute__((weak)), __stop_ex_data[] __attribute__((weak)); }
__attribute__((no_sanitize("address", "undefined"))) static void fresh() {
	static std::vector<char> first; static bool have;
	size_t n = __stop_ex_data - __start_ex_data;
	if (!have) { have = true; first.resize(n); for (size_t i = 0; i < n; i++) first[i] = ((volatile char *)__start_ex_data)[i]; }
	for (size_t i = 0; i < n; i++) ((volatile char *)__start_ex_data)[i] = first[i];
	for (volatile char *q = __start_ex_bss; q < __stop_ex_bss; q++) *q = 0;
}
struct Result { int rc; Bytes out, err; };
static Result program(int (*f)(int, char **), std::vector<Bytes> args) {
	std::vector<char *> av; for (auto &a : args) { char *s = (char *)malloc(a.size() + 1); memcpy(s, a.data(), a.size()); s[a.size()] = 0; av.push_back(s); }
	av.push_back(nullptr);
	char *o = nullptr, *e = nullptr; size_t on = 0, en = 0;
	FILE *so = stdout, *se = stderr; FILE *a = open_memstream(&o, &on), *b = open_memstream(&e, &en);
	fresh(); stdout = a; stderr = b; inside = true;
	int rc;
	if (!sigsetjmp(back, 0)) { rc = f((int)args.size(), av.data()); inside = false; } else rc = exitcode;
	stdout = so; stderr = se; __real_fclose(a); __real_fclose(b);
	while (!opened.empty()) { __real_fclose(opened.back()); opened.pop_back(); }
	Result r{rc, Bytes(o, o + on), Bytes(e, e + en)}; free(o); free(e);
	for (auto s : av) free(s);
	open_left = handles.size(); for (auto h : handles) free(h);
	handles.clear();
	tr(); return r;
}
template <class F> static Bytes printed(F f) { char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); f(fp); __real_fclose(fp); Bytes r(b, b + n); free(b); return r; }
static bool message_text(const uint8_t *p, size_t n, Bytes &out) {
	wdns_message_t m; if (wdns_parse_message(&m, p, n) != wdns_res_success) return false;
	out = printed([&](FILE *fp) { wdns_print_message(fp, &m); }); wdns_clear_message(&m); return true;
}

static void do_cap(const std::vector<Bytes> &b) {
	packets.clear(); dumped.clear();
	for (auto &x : b) packets.push_back({x, (unsigned)x.size() + (x.size() % 3)});
	Result r = program(ex_pcap_main, { S("x"), S("in"), S("out"), S("udp port 53") });
	MC_CHECK(r.rc == 0, "exit status %d", r.rc); MC_CHECK(open_left == 0, "capture files left open");
	Bytes want; std::vector<int> wd; bool strict = true;
	for (size_t i = 0; i < b.size(); i++) {
		const uint8_t *p = b[i].data(); size_t n = b[i].size();
		if (n < 14 || u16(p + 12) != 0x0800) continue;
		p += 14; n -= 14;
		if (n < 20) continue;
		size_t ihl = (p[0] & 15) * 4, tot = u16(p + 2);
		if (p[0] >> 4 != 4 || ihl < 20 || p[9] != 17) { strict = false; continue; }          // no UDP in IPv4: only safety
		size_t l = std::min(n, tot);
		if (l < ihl + 8 + 12) continue;
		Bytes t; if (message_text(p + ihl + 8, l - ihl - 8, t)) app(want, t); else wd.push_back(i);
	}
	if (strict) {
		MC_CHECK(r.out == want, "output is `%s', expected `%s'", Esc(r.out).s, Esc(want).s);
		MC_CHECK(dumped == wd, "%zu packets were written, expected %zu", dumped.size(), wd.size());
		char c[100]; snprintf(c, sizeof c, "count=%zu\ncount_dump=%zu\n", b.size(), wd.size());
		MC_CHECK(r.err == S(c), "counts are `%s', expected `%s'", Esc(r.err).s, Esc(c).s);
		valid();
	}
	state(hbytes(hbytes(1, r.out.data(), r.out.size()), r.err.data(), r.err.size()));
	note("%s", Esc(r.out).s);
}
static void do_file(const Bytes &d, int kind) {
	Str p = Str(wdir()) + "/f"; unlink(p.c_str()); rmdir(p.c_str());
	if (kind == 0) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size()) _exit(97); close(fd); }
	if (kind == 1) mkdir(p.c_str(), 0755);
	Result r = program(ex_file_main, { S("x"), S(p.c_str()) });
	Bytes want; bool ok = kind == 0 && message_text(d.data(), d.size(), want); if (ok) want.push_back('\n');
	if (r.rc == 0 || (kind == 0 && d.size() < 4096)) MC_CHECK((r.rc == 0) == ok, "exit status %d, expected %s", r.rc, ok ? "success" : "failure");
	if (r.rc == 0) MC_CHECK(r.out == want, "output is `%s', expected `%s'", Esc(r.out).s, Esc(want).s);
	else MC_CHECK(r.out.empty(), "something was printed for a file that cannot be read or parsed");
	state(hbytes(mix(2, r.rc), r.out.data(), r.out.size())); valid(); note("%d", r.rc);
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void do_hex(int which, const Bytes &a) {
	int (*const f[])(int, char **) = { ex_print_main, ex_ser_main, ex_deser_main, ex_down_main };
	Result r = program(f[which], { S("x"), a });
	Bytes raw, want, werr; bool ok = !a.empty() && a.size() % 2 == 0;
	for (size_t i = 0; ok && i < a.size(); i += 2) { int x = hexv(a[i]), y = hexv(a[i + 1]); if (x < 0 || y < 0) ok = false; raw.push_back(x << 4 | y); }
	Exact e(raw);
	if (ok && which < 2) {
		wdns_message_t m; ok = wdns_parse_message(&m, e.p, e.n) == wdns_res_success;
		if (ok) {
			if (which == 0) want = printed([&](FILE *fp) { wdns_print_message(fp, &m); });
			else for (int s = 1; s < 4; s++) for (unsigned i = 0; i < m.sections[s].n_rrsets; i++) {
				size_t sz = 0; wdns_serialize_rrset(&m.sections[s].rrsets[i], nullptr, &sz); Bytes b(sz); wdns_serialize_rrset(&m.sections[s].rrsets[i], b.data(), nullptr);
				puthex(werr, b.data(), b.size(), false); werr.push_back('\n');
			}
			wdns_clear_message(&m);
		}
	} else if (ok) {
		wdns_rrset_t s; ok = wdns_deserialize_rrset(&s, e.p, e.n) == wdns_res_success;
		if (ok) { bool pr = which == 2 || wdns_downcase_rrset(&s) == wdns_res_success; if (pr) want = printed([&](FILE *fp) { wdns_print_rrset(fp, &s, WDNS_MSG_SEC_ANSWER); }); wdns_clear_rrset(&s); }
	}
	MC_CHECK((r.rc == 0) == ok, "exit status %d, expected %s", r.rc, ok ? "success" : "failure");
	if (ok) { MC_CHECK(r.out == want, "output is `%s', expected `%s'", Esc(r.out).s, Esc(want).s); MC_CHECK(r.err == werr, "error output is `%s', expected `%s'", Esc(r.err).s, Esc(werr).s); }
	state(hbytes(mix(3 + which, r.rc), r.out.data(), r.out.size())); valid(); note("%d", r.rc);
}
static void do_args(int which, int n) {
	int (*const f[])(int, char **) = { ex_print_main, ex_ser_main, ex_deser_main, ex_down_main, ex_file_main, ex_pcap_main };
	std::vector<Bytes> a; for (int i = 0; i < n; i++) a.push_back(S(i ? "00" : "prog"));
	packets.clear(); dumped.clear();
	if (which == 5 && n >= 14) { const char *t[3][3] = { {"no", "out", "f"}, {"in", "no", "f"}, {"in", "out", "bad"} }; a = { S("x"), S(t[n - 14][0]), S(t[n - 14][1]), S(t[n - 14][2]) }; }
	Result r = program(f[which], a);
	MC_CHECK(r.rc != 0, "exit status 0 for a call that cannot succeed"); MC_CHECK(r.out.empty() || which < 4, "output `%s'", Esc(r.out).s);
	 state(mix(9, r.rc)); valid(); note("%d", r.rc);
}

void mc::check(const Case &c) {
	switch (c.kind) {
	case K_CAP: do_cap(c.b); break;
	case K_FILE: do_file(c.b[0], (int)getnum(c.b[1])); break;
	case K_HEX: do_hex((int)getnum(c.b[0]), c.b[1]); break;
	case K_ARGS: do_args((int)getnum(c.b[0]), (int)getnum(c.b[1])); break;
	}
}

static Bytes frame(const Bytes &dns, int opt = 0, int tot = -1, int type = 0x0800) {
	int l = 20 + 4 * opt + 8 + dns.size(); if (tot < 0) tot = l;
	return cat({rep(2, 12), be16(type), B({0x45 + opt, 0}), be16(tot), B({0, 1, 0, 0, 64, 17, 0, 0, 10, 0, 0, 1, 10, 0, 0, 2}), rep(1, 4 * opt), be16(53), be16(4444), be16(8 + dns.size()), be16(0), dns});
}
static Bytes hexof(const Bytes &b, int style) { Bytes o; puthex(o, b.data(), b.size(), style == 1); if (style == 2) for (size_t i = 0; i < o.size(); i += 3) o[i] = toupper(o[i]); return o; }
// packets on which wdns-dump-pcap is known to read outside the captured octets (known_findings.txt): exactly these are set aside
static bool listed(const char *key) { const char *k = getenv("MC_KNOWN"); return k && strstr(k, key); }
static bool set_aside(const Bytes &g) {
	if (g.size() < 14 || u16(g.data() + 12) != 0x0800) return false;
	const uint8_t *p = g.data() + 14; size_t l = g.size() - 14, ihl = l ? (p[0] & 15) * 4 : 0;
	if (l < 4 && l >= ihl) return listed("[dump-pcap-short-ip]");
	if (l < ihl) return false;
	size_t tot = u16(p + 2); return tot < l && tot < ihl && listed("[dump-pcap-total-length]");
}
static void capture(const std::vector<Bytes> &b) {
	for (auto &g : b) if (set_aside(g)) { if (unit()) info("captures_set_aside_as_known_findings", 1); return; }
	run(K_CAP, b);
}
void mc::enumerate() {
	Bytes nm = wname({"Www", "eX"});
	std::vector<Bytes> ms = {
		hdr(0, 0, 0, 0), cat({hdr(1, 0, 0, 0), ques(nm, 1, 1)}), cat({hdr(1, 2, 0, 1), ques(nm, 1, 1), rec(ptr(12), 1, 1, 60, B({1, 2, 3, 4})), rec(ptr(12), 1, 1, 60, B({1, 2, 3, 5})), rec(B({0}), 41, 4096, 0x8000, opt1(3, S("id")))}),
		cat({hdr(0, 1, 1, 0), rec(nm, 5, 1, 1, wname({"A", "B"})), rec(nm, 16, 1, 2, cat({lv(S("tExt")), lv(S("\""))}))}), cat({hdr(0, 1, 0, 0), rec(nm, 1, 1, 1, B({1, 2}))}), cat({hdr(0, 1, 0, 0), B({0xc0, 0x0c})}), cat({hdr(1, 0, 0, 0), ques(nm, 1, 1), B({0})}),
	};
	for (int which = 0; which < 6; which++) for (int n = 0; n <= 5; n++) { if ((which < 5 && n == 2) || (which == 5 && n == 4) || n == 0) continue; run(K_ARGS, { num(which), num(n) }); }
	for (int i = 14; i < 17; i++) run(K_ARGS, { num(5), num(i) });
	// captures
	for (auto &m : ms) for (int opt : {0, 1, 5, 10}) {
		Bytes f = frame(m, opt);
		for (size_t n = 0; n <= f.size(); n++) capture({ sub(f, 0, n) });
		for (int extra : {1, 2, 18, 40}) capture({ cat({f, rep(0, extra)}) });
		for (int t = 0; t <= (int)f.size() + 3; t++) for (size_t cap : {f.size(), f.size() - std::min<size_t>(m.size(), 3), (size_t)14 + 20 + 4 * opt + 8 + 11, (size_t)14 + 20 + 4 * opt + 8, (size_t)14 + 20, (size_t)15, (size_t)16, (size_t)17, (size_t)18}) { Bytes g = frame(m, opt, t); capture({ sub(g, 0, std::min(cap, g.size())) }); }
		capture({ frame(m, opt, 65535) });
		for (int h = 0; h < 256; h++) for (int t : {0, 1, 4, 19, 20, 27, 28, 39, 40, 47, 48, 60, 61, (int)f.size() - 14, 65535}) for (size_t cap : {f.size(), (size_t)14 + 20, (size_t)14 + 28, (size_t)14 + 60, (size_t)18}) { if (h >> 4 != 4 && (h & 15) % 5) continue; Bytes g = frame(m, opt, t); g[14] = h; capture({ sub(g, 0, std::min(cap, g.size())) }); }
		for (size_t i = 0; i < f.size(); i++) for (int v : {0, 1, 4, 6, 8, 17, 63, 64, 127, 128, 192, 255}) { Bytes g = f; g[i] = v; capture({ g }); }
	}
	for (int t : {0x86dd, 0x0806, 0x8100, 0x0008, 0, 0x0801, 0x0700}) capture({ frame(ms[2], 0, -1, t) });
	capture({});
	std::vector<Bytes> seq; for (size_t i = 0; i < ms.size(); i++) seq.push_back(frame(ms[i], i % 2)); seq.push_back(sub(seq[1], 0, 20)); seq.push_back(sub(seq[2], 0, 50)); seq.push_back(frame(ms[2], 0, -1, 0x86dd)); seq.push_back(Bytes());
	for (auto &a : seq) for (auto &b : seq) { capture({ a, b }); for (auto &c : seq) { capture({ a, b, c }); if (thorough) for (auto &d : seq) capture({ a, b, c, d }); } }
	if (thorough) for (auto &m : ms) for (int opt = 0; opt <= 10; opt++) for (int h = 0; h < 16; h++) for (int t = 0; t < 130; t++) for (size_t cap = 14; cap < 90; cap++) { Bytes g = frame(m, opt, t); if (cap > g.size()) continue; g[14] = 0x40 | h; capture({ sub(g, 0, cap) }); }
	// files
	for (auto &m : ms) { for (size_t n = 0; n <= m.size(); n++) run(K_FILE, { sub(m, 0, n), num(0) }); for (int e : {1, 2, 100}) run(K_FILE, { cat({m, rep(0, e)}), num(0) }); }
	for (size_t n : {4000, 4094, 4095, 4096, 4097, 8192, 65535}) { Bytes h = cat({hdr(0, 1, 0, 0), B({0}), be16(65280), be16(1), be32(1), be16(n - 23)}); run(K_FILE, { cat({h, pat(n - h.size(), 5)}), num(0) }); run(K_FILE, { pat(n, 0), num(0) }); run(K_FILE, { cat({hdr(0, 65535, 0, 0), rep(0, (int)n - 12)}), num(0) }); run(K_FILE, { cat({hdr(819, 0, 0, 0), rep(0, std::min<size_t>(n, 5 * 819))}), num(0) }); }
	for (int k : {1, 2}) run(K_FILE, { Bytes(), num(k) });
	// hexadecimal arguments
	std::vector<Bytes> ss = { cat({lv(nm), be16(256), be16(256), be32(0x3c000000), B({1, 0}), B({4, 0, 1, 2, 3, 4})}), cat({B({1, 0}), B({1, 0, 1, 0, 0, 0, 0, 0, 0, 0})}), cat({lv(nm), B({5, 0, 1, 0, 9, 0, 0, 0, 2, 0, 3, 0, 1, 'Q', 0, 1, 0, 0})}) };
	for (int which = 0; which < 4; which++) {
		auto &v = which < 2 ? ms : ss;
		for (auto &m : v) for (int st = 0; st < 3; st++) { Bytes h = hexof(m, st); for (size_t n = 0; n <= h.size(); n++) run(K_HEX, { num(which), sub(h, 0, n) }); for (int c : std::initializer_list<int>{'g', 'G', '/', ':', '@', '`', ' ', 0xe9, 'x'}) for (size_t i = 0; i < h.size(); i++) { if (i > 8 && i % 5 && i + 4 < h.size()) continue; Bytes g = h; g[i] = c; run(K_HEX, { num(which), g }); } }
		for (auto &m : v) for (size_t i = 0; i < m.size(); i++) for (int c : std::initializer_list<int>{0, 1, 2, 12, 41, 63, 64, 'A', 192, 255}) { Bytes g = m; g[i] = c; run(K_HEX, { num(which), hexof(g, i % 3) }); }
		const std::vector<uint8_t> al = { '0', '9', 'a', 'f', 'A', 'F', 'g', ' ', 'c', '1' };
		for (size_t len = 0; len <= (thorough ? 6u : 4u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size(); for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { b.push_back(al[q % al.size()]); q /= al.size(); } run(K_HEX, { num(which), b }); } }
		{ Bytes big; if (which < 2) { big = cat({hdr(1, 60, 0, 0), ques(wname({"very", "long"}), 2, 1)}); for (int i = 0; i < 60; i++) app(big, rec(ptr(12), i % 2 ? 2 : 16, 1, i, i % 2 ? ptr(12) : lv(rep('t', 255)))); } else { big = cat({lv(nm), B({16, 0, 1, 0, 9, 0, 0, 0, 44, 1})}); for (int i = 0; i < 300; i++) app(big, cat({B({2, 0, 1, i})})); } run(K_HEX, { num(which), hexof(big, 0) }); }
	}
}
