// C18: calls on separate objects, from two threads under every interleaving and in every order within one
// process, give what each call gives alone in a fresh process.
#include "sched.hpp"
#include <wdns/wdns.h>
#include <string>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "b32_decode.h"
#include "b32_encode.h"
#include "b64_decode.h"
#include "b64_encode.h"
#include "crc32c.h"
#define restrict __restrict
#include "fast_inet_ntop.h"
#undef restrict
#include "lookup3.h"
#include "my_format.h"
#include "varint.h"
#include "heap.h"
#include "my_fileset.h"
#include "my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
bool c_hex_decode(const char *, uint8_t **, size_t *), c_getenv_int(const char *, uint64_t *);
char *c_string_replace(const char *, const char *, const char *), *c_ubuf(const char *, int), *c_trees(int);
void c_print_string(const void *, size_t, FILE *), c_ip(uint8_t *, int, unsigned, int);
}
using namespace mc;
typedef std::string Str;
enum { K_PAIR, K_SEQ };
const char *mc::kind_names[] = { "two-threads", "history" };

static Str hx(const void *p, size_t n) { Str s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const uint8_t *)p)[i]); s += b; } return s; }
static Str own(char *s) { if (!s) return "(null)"; Str r = s; sched::lfree(s); return r; }
static Str num_(long n) { return std::to_string(n) + ";"; }

struct Op { Str name; std::function<Str()> f; };
static std::vector<Op> ops;

// every operation of a thread finds its arguments at the same addresses, so that an address says nothing about the contents
static char stage_[3][3][4096];
static const char *stage(const void *d, size_t n, int slot = 0) { int t = sched::self(); char *b = stage_[t < 0 || t > 2 ? 0 : t][slot]; if (n >= 4096) _exit(97); for (size_t i = 0; i < n; i++) b[i] = ((const char *)d)[i]; b[n] = 0; return b; }
static const char *stage(const Str &s, int slot = 0) { return stage(s.data(), s.size(), slot); }
static Str rdata_op(const char *text, int type, int cls) {
	uint8_t *rd = nullptr; size_t n = 0; wdns_res r = wdns_str_to_rdata(stage(text), type, cls, &rd, &n); tr();
	Str s = num_(r);
	if (r != wdns_res_success) return s;
	s += hx(rd, n) + ";" + own(wdns_rdata_to_str((const uint8_t *)stage(rd, n, 1), n, type, cls)); tr();
	sched::lfree(rd); return s;
}
static Str names_op(const char *text_) {
	const char *text = stage(text_);
	Str s; wdns_name_t a, b; char buf[WDNS_PRESLEN_NAME]; uint8_t rev[256]; size_t n = 0; wdns_res r;
	r = wdns_str_to_name_case(text, &a); s += num_(r); if (r != wdns_res_success) return s;
	s += hx(a.data, a.len) + ";"; s += num_(wdns_domain_to_str(a.data, a.len, buf)); s += buf;
	r = wdns_str_to_name(text, &b); s += num_(r) + hx(b.data, b.len) + ";";
	s += num_(wdns_count_labels(&a, &n)) + num_(n);
	memset(rev, 0, sizeof rev); s += num_(wdns_reverse_name(a.data, a.len, rev)) + hx(rev, a.len);
	bool sub = false; wdns_name_t chop; s += num_(wdns_left_chop(&a, &chop)) + hx(chop.data, chop.len); s += num_(wdns_is_subdomain(&a, &chop, &sub)) + num_(sub);
	wdns_downcase_name(&a); s += hx(a.data, a.len);
	size_t l = 0; s += num_(wdns_len_uname(a.data, a.data + a.len, &l)) + num_(l);
	uint8_t dst[256]; l = 0; s += num_(wdns_unpack_name(a.data, a.data + a.len, a.data, dst, &l)) + hx(dst, l);
	l = 0; s += num_(wdns_copy_uname(a.data, a.data + a.len, a.data, dst, &l)) + hx(dst, l);
	tr(11); sched::lfree(a.data); sched::lfree(b.data); return s;
}
static Str message_op(const Bytes &p, int what) {
	wdns_message_t m; wdns_res r = wdns_parse_message(&m, (const uint8_t *)stage(p.data(), p.size()), p.size()); tr();
	Str s = num_(r); if (r != wdns_res_success) return s;
	if (what == 3) {
		char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n);
		wdns_print_message(f, &m);
		for (int k = 0; k < 4; k++) { auto &a = m.sections[k]; wdns_print_rrset_array(f, &a, k); for (int i = 0; i < a.n_rrs; i++) wdns_print_rr(f, &a.rrs[i], k); for (int i = 0; i < a.n_rrsets; i++) wdns_print_rrset(f, &a.rrsets[i], k); }
		fclose(f); s.append(t, n); free(t); tr(5);
	} else if (what == 0) { s += own(wdns_message_to_str(&m)); tr(); }
	else for (int k = 0; k < 4; k++) {
		auto &a = m.sections[k];
		if (what == 1) { s += own(wdns_rrset_array_to_str(&a, k)); for (int i = 0; i < a.n_rrs; i++) s += own(wdns_rr_to_str(&a.rrs[i], k)); }
		else for (int i = 0; i < a.n_rrsets; i++) {
			auto &t = a.rrsets[i];
			s += num_(wdns_downcase_rrset(&t)) + num_(wdns_sort_rrset(&t)) + own(wdns_rrset_to_str(&t, k));
			size_t sz = 0; s += num_(wdns_serialize_rrset(&t, nullptr, &sz)); std::vector<uint8_t> b(sz); s += num_(wdns_serialize_rrset(&t, b.data(), &sz)) + hx(b.data(), sz);
			wdns_rrset_t back; wdns_res q = wdns_deserialize_rrset(&back, b.data(), sz); s += num_(q);
			if (q == wdns_res_success) { s += own(wdns_rrset_to_str(&back, k)); wdns_clear_rrset(&back); }
			if (a.n_rrs) s += num_(wdns_compare_rr_rrset(&a.rrs[0], &t));
			tr(6);
		}
	}
	wdns_clear_message(&m); tr();
	return s;
}
static void name_cb(wdns_name_t *n, void *user) { *(Str *)user += hx(n->data, n->len) + ","; sched::lfree(n->data); }
static Str load_op(const Str &path) { Str s; wdns_res r = wdns_file_load_names(stage(path), name_cb, &s); tr(); return num_(r) + s; }

static Bytes packet(int v) {
	Bytes q = cat({B({3, 'w', 'w', 'w', 7, 'E', 'x', 'a', 'm', 'p', 'l', 'e', 3, 'c', 'o', 'm', 0})});
	Bytes ptr = B({0xc0, 12}), p;
	if (v == 0) p = cat({B({0x12, 0x34, 0x81, 0x80, 0, 1, 0, 3, 0, 1, 0, 2}), q, be16(1), be16(1),
		ptr, be16(1), be16(1), be32(300), be16(4), B({192, 0, 2, 9}), ptr, be16(1), be16(1), be32(300), be16(4), B({192, 0, 2, 1}),
		ptr, be16(16), be16(1), be32(60), be16(6), B({5, 'h', 'e', 'l', 'l', 'o'}),
		B({0xc0, 16}), be16(2), be16(1), be32(3600), be16(5), B({2, 'n', 's', 0xc0, 16}),
		B({2, 'n', 's', 0xc0, 16}), be16(28), be16(1), be32(3600), be16(16), B({0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}),
		B({0}), be16(41), be16(4096), B({1, 0, 0x80, 0}), be16(20), be16(3), be16(3), S("abc"), be16(0x8001), be16(1), S("x"), be16(8), be16(4), B({0, 1, 0, 0})});
	else if (v == 1) p = cat({B({0xab, 0xcd, 0x84, 3, 0, 1, 0, 0, 0, 1, 0, 0}), B({1, 'x', 0}), be16(255), be16(255),
		B({0}), be16(6), be16(1), be32(86400), be16(29), B({1, 'm', 0, 1, 'r', 1, 'x', 0}), be32(1), be32(2), be32(3), be32(4), be32(5), B({0})});
	else p = cat({B({0, 1, 0x28, 0, 0, 1, 0, 1, 0, 0, 0, 1}), B({1, 'z', 0}), be16(6), be16(1), B({0xc0, 12}), be16(64), be16(1), be32(5), be16(13), be16(1), B({0}), be16(1), be16(3), B({2, 'h', '2'}), be16(3),
		B({0}), be16(41), be16(512), B({0, 0, 0, 0}), be16(16), be16(0x8002), be16(2), S("yz"), be16(15), be16(2), be16(22), be16(10), be16(0)});
	if (v == 1) p.resize(p.size() - 1);
	return p;
}
static void more_ops();
static void setup_ops() {
	if (!ops.empty()) return;
	auto add = [](Str n, std::function<Str()> f) { ops.push_back({ n, f }); };
	struct { int type, cls; const char *t; } rd[] = {
#include "rdatas.inc"
	};
	for (auto &r : rd) { Str t = r.t; int ty = r.type, cl = r.cls; add("rdata " + std::to_string(ty) + " " + t.substr(0, 20), [t, ty, cl] { return rdata_op(t.c_str(), ty, cl); }); }
	for (const char *n : { "www.Example.COM.", ".", "a\\.b.\\000\\255x", "x..y" }) { Str t = n; add("name " + t, [t] { return names_op(t.c_str()); }); }
	for (int v = 0; v < 3; v++) for (int w = 0; w < 4; w++) { Bytes p = packet(v); add("message " + std::to_string(v) + "/" + std::to_string(w), [p, w] { return message_op(p, w); }); }
	{ Bytes p = packet(0); p.resize(p.size() - 5); add("message cut", [p] { return message_op(p, 0); }); }
	for (int d = 0; d < 3; d++) add("mnemonics " + std::to_string(d), [d] {
		Str s; auto z = [](const char *p) { sched::step(); return Str(p ? p : "(null)") + ";"; };
		const int types[3][4] = { { 1, 46, 257, 65535 }, { 2, 250, 4711, 0 }, { 65, 47, 32769, 66 } };
		for (int t : types[d]) { s += z(wdns_rrtype_to_str(t)); s += z(wdns_rrclass_to_str(t & 255)); s += z(wdns_rcode_to_str(t & 31)); s += z(wdns_opcode_to_str(t & 15)); s += z(wdns_res_to_str((wdns_res)(t & 15))); }
		// other texts at the same addresses in each of the three operations
		const char *ms[] = { "A", "TYPE65280", "AAAA", "NSEC3", "type12", "FOO", "IN", "CLASS65280", "CH", "ANY", "x", "NOERROR", "NXDOMAIN", "BADVERS" };
		for (int j = 0; j <= 14; j++) { int k = j % 14; const char *m = ms[(k + 3 * d) % 14]; char *at = (char *)stage(Str(), 2) + 64 * k; for (int q = 0; ; q++) { at[q] = m[q]; if (!m[q]) break; } s += num_(wdns_str_to_rrtype(at)); s += num_(wdns_str_to_rrclass(at)); uint16_t o = 77; s += num_(wdns_str_to_rcode(at, &o)) + num_(o); }
		s += z(wdns_get_version()); tr(45); return s; });
	Str dir = wdir(); 
	for (int f = 0; f < 2; f++) {
		Str p = dir + "/names" + std::to_string(f); int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		Str c = f ? "b.org.\nx\\.y.z\n" : "# comment\nexample.com\n.net\n\nwww.Example.org.\n"; if (write(fd, c.data(), c.size()) < 0) {} close(fd);
		add("load_names " + std::to_string(f), [p] { return load_op(p); });
	}
	add("load_names missing", [dir] { return load_op(dir + "/nothing-here"); });
	for (int k = 0; k < 2; k++) {
		Bytes in = k ? rep(0xa5, 20) : S("The quick brown fox");
		add("base32 " + std::to_string(k), [in] { const uint8_t *in_ = (const uint8_t *)stage(in.data(), in.size()); char b[100] = {}; size_t n = base32_encode(b, sizeof b, in_, in.size()); char d[100] = {}; size_t m = base32_decode(d, sizeof d, b, n); tr(2); return num_(n) + hx(b, n) + ";" + num_(m) + hx(d, m < sizeof d ? m : 0); });
		add("base64 " + std::to_string(k), [in] { const uint8_t *in_ = (const uint8_t *)stage(in.data(), in.size()); char b[200] = {}; base64_encodestate es; base64_init_encodestate(&es); int n = base64_encode_block((const char *)in_, in.size(), b, &es); n += base64_encode_blockend(b + n, &es); char d[200] = {}; base64_decodestate ds; base64_init_decodestate(&ds); int m = base64_decode_block(b, n, d, &ds); tr(4); return hx(b, n) + ";" + hx(d, m); });
		add("format " + std::to_string(k), [in, k] { const uint8_t *in_ = (const uint8_t *)stage(in.data(), in.size()); char b[200] = {}; Str s; size_t n = my_bytes_to_hex_str(in_, in.size(), true, b, sizeof b); s += num_(n) + b; n = my_uint64_to_str(k ? 18446744073709551615ull : 42, b, sizeof b, nullptr); s += num_(n) + Str(b, n < sizeof b ? n : 0); uint8_t a6[16] = { 0x20, 1, 0xd, 0xb8 }; a6[15] = k; char d[60] = {}; fast_inet_ntop(AF_INET6, a6, d, sizeof d); s += d; fast_inet_ntop(AF_INET, a6, d, sizeof d); s += d; tr(4); return s; });
		add("checksum " + std::to_string(k), [in, k] { const uint8_t *in_ = (const uint8_t *)stage(in.data(), in.size()); uint8_t v[12] = {}; size_t n = varint_encode64(v, k ? 1ull << 40 : 300); uint64_t o = 0; varint_decode64(v, &o); uint32_t pc = 1, pb = 2; my_hashlittle2(in_, in.size(), &pc, &pb); tr(4); return num_(my_crc32c(in_, in.size())) + num_(n) + hx(v, n) + num_(o) + num_(pc) + num_(pb) + num_(my_hashlittle(in_, in.size(), 7)); });
	}
	setenv("MC_CONC_A", "0x10", 1); setenv("MC_CONC_B", "12345", 1);
	more_ops();
}
static int by_value(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static void *fs_load(struct my_fileset *fs, const char *n) { return (Str *)my_fileset_user(fs) ; (void)n; }
static void fs_unload(struct my_fileset *, const char *n, void *p) { *(Str *)p += Str("-") + n; }
static void more_ops() {
	auto add = [](Str n, std::function<Str()> f) { ops.push_back({ n, f }); };
	Str dir = wdir();
	for (int k = 0; k < 2; k++) {
		add("octets and texts " + std::to_string(k), [k] {
			Str s; uint8_t *raw = nullptr; size_t n = 0; bool ok = c_hex_decode(stage(Str(k ? "00fFaB" : "DEADbeef")), &raw, &n); s += num_(ok) + hx(raw, n) + ";"; sched::lfree(raw);
			s += own(c_string_replace(stage(Str(k ? "a.b.c" : "x--y--")), stage(Str(k ? "." : "--"), 1), stage(Str(k ? "<>" : "+"), 2))) + ";";
			uint64_t v = 0; ok = c_getenv_int(k ? "MC_CONC_A" : "MC_CONC_B", &v); s += num_(ok) + num_(v);
			char *o = nullptr; size_t ol = 0; FILE *f = open_memstream(&o, &ol); c_print_string(k ? "a\"\n" : "\xff\\z", 3, f); fclose(f); s += Str(o, ol); free(o); tr(4); return s; });
		add("addresses " + std::to_string(k), [k] { Str s; uint8_t a[16]; for (int i = 0; i < 6; i++) { for (int j = 0; j < 16; j++) a[j] = k ? 0xa5 + j : 0xff; c_ip(a, i / 3, k ? 13 : 24, i % 3); s += hx(a, 16) + ";"; tr(); } return s; });
		add("buffer " + std::to_string(k), [k] { tr(); return own(c_ubuf(stage(Str(k ? "one" : "a longer text")), k)); });
		add("trees and list " + std::to_string(k), [k] { tr(); return own(c_trees(k * 3)); });
		add("heap " + std::to_string(k), [k] { struct heap *h = heap_init(by_value); static int v[3][6]; int t = sched::self(), *x = v[t < 0 || t > 2 ? 0 : t]; Str s; for (int i = 0; i < 6; i++) { x[i] = (i * 5 + k) % 6; heap_push(h, &x[i]); } for (int i = 0; i < 4; i++) s += num_(*(int *)heap_pop(h)); x[0] = 9; s += num_(((int *)heap_peek(h)) != nullptr); heap_destroy(&h); tr(12); return s; });
		for (int im = 0; im < 2; im++) add("queue " + std::to_string(k) + (im ? " mutex" : " mb"), [k, im] { auto &q = im ? my_queue_mutex_ops : my_queue_mb_ops; struct my_queue *h = q.init(2 << k, 4); Str s; unsigned x; uint32_t v; for (uint32_t i = 1; i < 5; i++) { v = i * (k + 1); x = 9; s += num_(q.insert(h, &v, &x)) + num_(x); } for (int i = 0; i < 4; i++) { x = 9; v = 0; s += num_(q.remove(h, &v, &x)) + num_(x) + num_(v); } q.destroy(&h); tr(8); return s; });
		Str list = dir + "/set" + std::to_string(k);
		for (const char *e : { "x", "y" }) { int fd = open((list + e).c_str(), O_CREAT | O_WRONLY, 0644); close(fd); }
		{ Str c = list + "y\n" + list + "x\n" + list + "missing\n"; if (k) c = list + "x\n"; int fd = open(list.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(fd, c.data(), c.size()) < 0) {} close(fd); }
		add("file set " + std::to_string(k), [list] { Str seen; struct my_fileset *s = my_fileset_init(list.c_str(), fs_load, fs_unload, &seen); my_fileset_reload(s); const char *n; void *p; Str r; for (size_t i = 0; my_fileset_get(s, i, &n, &p); i++) r += Str(n) + ";"; my_fileset_reload(s); my_fileset_destroy(&s); tr(3); return r + seen; });
	}
}
// what each operation gives alone in a fresh process
static std::vector<Str> solo;
static Str alone(size_t i) {
	int fd[2]; if (pipe(fd)) _exit(97);
	pid_t p = fork();
	if (p == 0) { close(fd[0]); sched::restore_statics(); Str s; { s = ops[i].f(); } size_t o = 0; while (o < s.size()) { ssize_t w = write(fd[1], s.data() + o, s.size() - o); if (w <= 0) _exit(1); o += w; } _exit(0); }
	close(fd[1]); Str r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
	close(fd[0]); int st; waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("operation '%s' alone crashes (status %x)", ops[i].name.c_str(), st);
	return r;
}
static void need_solo(size_t i) { if (solo.size() < ops.size()) solo.resize(ops.size()); if (solo[i].empty()) solo[i] = alone(i); }

struct Pair : sched::Program {
	size_t op[2]; Str res[2];
	void setup() override { res[0].clear(); res[1].clear(); }
	void thread(int t) override { sched::Lib in; res[t] = ops[op[t]].f(); }
	void finish() override {
		for (int t = 0; t < 2; t++) SC_CHECK(res[t] == solo[op[t]], "'%s' while another thread does '%s' gives\n  %.300s\nalone it gives\n  %.300s", ops[op[t]].name.c_str(), ops[op[!t]].name.c_str(), Esc(res[t].c_str()).s, Esc(solo[op[t]].c_str()).s);
	}
};
static void check_pair(const Case &c) {
	size_t a = getnum(c.b[0]), b = getnum(c.b[1]); need_solo(a); need_solo(b);
	Pair p; p.op[0] = a; p.op[1] = b;
	sched::Opts o; o.bound = c.b[2][0]; uint64_t e0 = sched::n_exec;
	sched::stop_after_writes = true; sched::explore(p, o);
	info("schedules", sched::n_exec - e0);
	if (sched::n_exec - e0 > 2) info("pairs sharing memory", 1);
	state(hstr(hstr(1, solo[a].c_str()), solo[b].c_str())); valid();
	note("'%s' against '%s': %llu schedules", ops[a].name.c_str(), ops[b].name.c_str(), (unsigned long long)(sched::n_exec - e0));
}
static void check_seq(const Case &c) {
	sched::restore_statics(); Str hist;
	for (auto &x : c.b) need_solo(getnum(x));
	for (auto &x : c.b) {
		size_t i = getnum(x); Str r = ops[i].f();
		MC_CHECK(r == solo[i], "'%s' after%s gives\n  %.300s\nalone it gives\n  %.300s", ops[i].name.c_str(), hist.empty() ? " nothing" : hist.c_str(), Esc(r.c_str()).s, Esc(solo[i].c_str()).s);
		hist += " '" + ops[i].name + "'"; state(hstr(2, hist.c_str()));
	}
	valid(); note("%s", hist.c_str());
}
void mc::enumerate() {
	setup_ops(); size_t n = ops.size();
	if (worker_id == 0) info("operations", n);
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) run(K_SEQ, { num(a), num(b), num(a) });
	for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) run(K_PAIR, { num(a), num(b), B({ mc::thorough ? 4 : 3 }) });
	for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t d = 0; d < n; d++) if (a != b || b != d) run(K_SEQ, { num(a), num(b), num(d) });
}
void mc::check(const Case &c) { setup_ops(); if (c.kind == K_PAIR) check_pair(c); else check_seq(c); }
