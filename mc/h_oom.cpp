// C39: every pattern of failing allocations (bounded number of failures, and everything after one) in every
// operation: stopped by an assertion, failure reported and nothing kept, or the same result as with enough memory.
#include "mc.hpp"
#include <wdns/wdns.h>
#include <string>
#include <functional>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "argv.h"
#include "shim_cont.h"
extern "C" {
#include "heap.h"
#include "my_fileset.h"
#include "my_queue.h"
#include "my_rate.h"
#include "spooldir.h"
bool s_hex_decode(const char *, uint8_t **, size_t *); char *s_string_replace(const char *, const char *, const char *);
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); DIR *__real_opendir(const char *); int __real_closedir(DIR *); char *__real_realpath(const char *, char *);
ssize_t __real_getdelim(char **, size_t *, int, FILE *); void __real_exit(int); void __real_abort(void);
void __real___assert_fail(const char *, const char *, unsigned, const char *);
}
using namespace mc;
typedef std::string Str;
enum { K_OOM };
const char *mc::kind_names[] = { "operation(number), allocations that fail(index; 2^16 + index: this one and all after it)" };

// ---- memory ---------------------------------------------------------------------------------------
static volatile bool in_lib; static int count; static int plan[8], nplan; static bool fired; static sigjmp_buf stop; static const char *stopped; static char stopbuf[300];
enum { MEM, FILE_, DIR_ };
static struct { void *p; int what; } held[1 << 14]; static int nheld;
static void hold(void *p, int what) { if (nheld == 1 << 14) mc::fail("more than %d blocks held", nheld); held[nheld++] = { p, what }; }
static bool drop(void *p, int what) { for (int i = nheld; i-- > 0;) if (held[i].p == p && held[i].what == what) { held[i] = held[--nheld]; return true; } return false; }
static void drop_all() {
	while (nheld) { auto h = held[--nheld]; if (h.what == MEM) __real_free(h.p); else if (h.what == FILE_) __real_fclose((FILE *)h.p); else __real_closedir((DIR *)h.p); }
}
static bool no_memory() {
	int k = count++;
	for (int i = 0; i < nplan; i++) if (plan[i] == k || (plan[i] >= 65536 && k >= plan[i] - 65536)) { fired = true; errno = ENOMEM; return true; }
	return false;
}
extern "C" {
void *__wrap_malloc(size_t n) { if (!in_lib) return __real_malloc(n); if (no_memory()) return nullptr; void *p = __real_malloc(n); hold(p, MEM); return p; }
void *__wrap_calloc(size_t n, size_t m) { if (!in_lib) return __real_calloc(n, m); if (no_memory()) return nullptr; void *p = __real_calloc(n, m); hold(p, MEM); return p; }
void *__wrap_realloc(void *q, size_t n) {
	if (!in_lib) return __real_realloc(q, n);
	if (no_memory()) return nullptr;
	bool was = q && drop(q, MEM); void *p = __real_realloc(q, n); if (was || !q) { if (p) hold(p, MEM); } return p;
}
void __wrap_free(void *p) { if (p) drop(p, MEM); __real_free(p); }
char *__wrap_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = (char *)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *__wrap_strdup(const char *s) { return __wrap_strndup(s, strlen(s)); }
FILE *__wrap_fopen(const char *n, const char *m) { if (!in_lib) return __real_fopen(n, m); if (no_memory()) return nullptr; FILE *f = __real_fopen(n, m); if (f) hold(f, FILE_); return f; }
int __wrap_fclose(FILE *f) { drop(f, FILE_); return __real_fclose(f); }
DIR *__wrap_opendir(const char *n) { if (!in_lib) return __real_opendir(n); if (no_memory()) return nullptr; DIR *d = __real_opendir(n); if (d) hold(d, DIR_); return d; }
int __wrap_closedir(DIR *d) { drop(d, DIR_); return __real_closedir(d); }
char *__wrap_realpath(const char *n, char *r) { if (!in_lib || r) return __real_realpath(n, r); if (no_memory()) return nullptr; char *p = __real_realpath(n, nullptr); if (p) hold(p, MEM); return p; }
int __wrap_usleep(useconds_t) { return 0; }
ssize_t __wrap_getdelim(char **line, size_t *cap, int d, FILE *f) {
	if (!in_lib) return __real_getdelim(line, cap, d, f);
	size_t n = 0; int c;      // like glibc: running out of memory sets the error flag of the file
	if (!*line) { *cap = 0; }
	while ((c = fgetc(f)) != EOF) {
		if (n + 2 > *cap) { size_t want = *cap ? *cap * 2 : 16; char *p = (char *)__wrap_realloc(*line, want); if (!p) { f->_flags |= 0x20; return -1; } *line = p; *cap = want; }
		(*line)[n++] = c; if (c == d) break;
	}
	if (!n) { if (!*line) { char *p = (char *)__wrap_realloc(nullptr, 16); if (!p) { f->_flags |= 0x20; return -1; } *line = p; *cap = 16; } return -1; }
	(*line)[n] = 0; return n;
}
ssize_t __wrap___getdelim(char **line, size_t *cap, int d, FILE *f) { return __wrap_getdelim(line, cap, d, f); }
ssize_t __wrap_getline(char **line, size_t *cap, FILE *f) { return __wrap_getdelim(line, cap, '\n', f); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (!in_lib) __real___assert_fail(e, f, l, fn); in_lib = false; const char *b = strrchr(f, '/'); snprintf(stopbuf, sizeof stopbuf, "assertion %s, %s", e, b ? b + 1 : f); stopped = stopbuf; siglongjmp(stop, 1); }
void __wrap_abort() { if (!in_lib) __real_abort(); in_lib = false; stopped = "abort()"; siglongjmp(stop, 1); }
void __wrap_exit(int c) { if (!in_lib) __real_exit(c); in_lib = false; snprintf(stopbuf, sizeof stopbuf, "exit(%d)", c); stopped = stopbuf; siglongjmp(stop, c ? 1 : 2); }
}
struct Outside { bool was; Outside() : was(in_lib) { in_lib = false; } ~Outside() { in_lib = was; } };
template <class F> static auto lib(F f) -> decltype(f()) { struct G { G() { in_lib = true; tr(); } ~G() { in_lib = false; } } g; return f(); }
#define L(e) lib([&] { return e; })
#define V(e) lib([&] { e; })

// ---- what an operation reports: steps that succeeded, with a hash of the result, then perhaps a failure ------
struct Rec { uint64_t h[512]; const char *txt[512]; int n, failed; };
static Rec rec, base_rec;
static bool step(bool good, uint64_t h, const char *what) {
	if (!good) { rec.failed = rec.n; rec.txt[rec.n] = what; return false; }
	if (rec.n == 511) mc::fail("too many steps"); rec.h[rec.n] = h; rec.txt[rec.n] = what; rec.n++; return true;
}
static uint64_t hs(const char *s) { return s ? hstr(7, s) : 1; }
static bool text(char *s, const char *what) { bool g = step(s != nullptr, hs(s), what); free(s); return g; }

// ---- operations (no C++ objects that own memory: they may be left by a jump) ---------------------------------
struct Op { Str name; std::function<void()> f; };
static std::vector<Op> ops;
static void rdata_op(const char *t, int ty, int cl) {
	uint8_t *rd = nullptr; size_t n = 0; wdns_res r = L(wdns_str_to_rdata(t, ty, cl, &rd, &n));
	if (!step(r == wdns_res_success, r ? 0 : hbytes(n, rd, n), "wdns_str_to_rdata")) return;
	text(L(wdns_rdata_to_str(rd, n, ty, cl)), "wdns_rdata_to_str"); free(rd);
}
static void name_op(const char *t, bool keep) {
	wdns_name_t a; wdns_res r = keep ? L(wdns_str_to_name_case(t, &a)) : L(wdns_str_to_name(t, &a));
	if (!step(r == wdns_res_success, r ? 0 : hbytes(1, a.data, a.len), "wdns_str_to_name")) return;
	char b[WDNS_PRESLEN_NAME]; size_t n = L(wdns_domain_to_str(a.data, a.len, b)); step(true, mix(hs(b), n), "wdns_domain_to_str"); free(a.data);
}
static uint64_t hrr(const wdns_rr_t &r) { uint64_t h = hbytes(r.rrtype * 65536ull + r.rrclass, r.name.data, r.name.len); h = mix(h, r.rrttl); return r.rdata ? hbytes(h, r.rdata->data, r.rdata->len) : h; }
static uint64_t hset(const wdns_rrset_t &s) { uint64_t h = hbytes(s.rrtype * 65536ull + s.rrclass, s.name.data, s.name.len); h = mix(h, s.rrttl); for (int i = 0; i < s.n_rdatas; i++) h = s.rdatas[i] ? hbytes(h, s.rdatas[i]->data, s.rdatas[i]->len) : mix(h, 3); return h; }
static uint64_t hmsg(const wdns_message_t &m) {
	uint64_t h = m.id * 65536ull + m.flags; h = mix(h, m.rcode); h = mix(h, m.edns.present); if (m.edns.present) { h = mix(h, m.edns.size * 65536ull + m.edns.flags); h = mix(h, m.edns.version); if (m.edns.options) h = hbytes(h, m.edns.options->data, m.edns.options->len); }
	for (auto &s : m.sections) { h = mix(h, s.n_rrs * 1000 + s.n_rrsets); for (int i = 0; i < s.n_rrs; i++) h = mix(h, hrr(s.rrs[i])); for (int i = 0; i < s.n_rrsets; i++) h = mix(h, hset(s.rrsets[i])); }
	return h;
}
static wdns_message_t msg;
static FILE *printed; static char *ptext; static size_t plen;
template <class F> static void printing(const char *what, F f) {
	// a failure is shown by printing nothing
	fflush(printed); rewind(printed); if (ftruncate(fileno(printed), 0)) {}
	lib([&] { f(printed); }); fflush(printed);
	static char b[1 << 14]; ssize_t n = pread(fileno(printed), b, sizeof b, 0); if (n < 0) n = 0; step(n > 0, hbytes(3, b, n), what);
}
static void message_op(const Bytes &p, int what) {
	wdns_res r = L(wdns_parse_message(&msg, p.data(), p.size()));
	if (!step(r == wdns_res_success, r ? 0 : hmsg(msg), "wdns_parse_message")) return;
	if (what == 0) text(L(wdns_message_to_str(&msg)), "wdns_message_to_str");
	else if (what == 1) {
		printing("wdns_print_message", [](FILE *f) { wdns_print_message(f, &msg); });
		for (int k = 0; k < 4 && rec.failed < 0; k++) {
			auto &a = msg.sections[k];
			if (a.n_rrs) printing("wdns_print_rrset_array", [&](FILE *f) { wdns_print_rrset_array(f, &a, k); });
			for (int i = 0; i < a.n_rrs && rec.failed < 0; i++) printing("wdns_print_rr", [&](FILE *f) { wdns_print_rr(f, &a.rrs[i], k); });
			for (int i = 0; i < a.n_rrsets && rec.failed < 0; i++) printing("wdns_print_rrset", [&](FILE *f) { wdns_print_rrset(f, &a.rrsets[i], k); });
		}
	} else for (int k = 0; k < 4 && rec.failed < 0; k++) {
		auto &a = msg.sections[k];
		if (what == 2) { text(L(wdns_rrset_array_to_str(&a, k)), "wdns_rrset_array_to_str"); for (int i = 0; i < a.n_rrs && rec.failed < 0; i++) text(L(wdns_rr_to_str(&a.rrs[i], k)), "wdns_rr_to_str"); }
		else for (int i = 0; i < a.n_rrsets && rec.failed < 0; i++) {
			auto &t = a.rrsets[i]; static uint8_t buf[4096]; size_t sz = 0;
			wdns_res q = L(wdns_downcase_rrset(&t)); if (!step(q == wdns_res_success, hset(t), "wdns_downcase_rrset")) break;
			q = L(wdns_sort_rrset(&t)); if (!step(q == wdns_res_success, hset(t), "wdns_sort_rrset")) break;
			if (!text(L(wdns_rrset_to_str(&t, k)), "wdns_rrset_to_str")) break;
			q = L(wdns_serialize_rrset(&t, nullptr, &sz)); if (!step(q == wdns_res_success, sz, "wdns_serialize_rrset(size)")) break;
			q = L(wdns_serialize_rrset(&t, buf, &sz)); if (!step(q == wdns_res_success, hbytes(5, buf, sz), "wdns_serialize_rrset")) break;
			wdns_rrset_t back; q = L(wdns_deserialize_rrset(&back, buf, sz)); if (!step(q == wdns_res_success, q ? 0 : hset(back), "wdns_deserialize_rrset")) break;
			V(wdns_clear_rrset(&back));
		}
	}
	V(wdns_clear_message(&msg));
}
static void name_cb(wdns_name_t *n, void *) { Outside o; step(true, hbytes(2, n->data, n->len), "name"); free(n->data); }
static void load_op(const char *p) { wdns_res r = L(wdns_file_load_names(p, name_cb, nullptr)); step(r == wdns_res_success, r, "wdns_file_load_names"); }
static void vec_op(const vops &o, int n) {
	void *v = L(o.init(2)); if (!step(v != nullptr, 1, "init")) return;
	for (int i = 0; i < n; i++) V(o.add(v, i)); step(true, L(o.size(v)), "add");
	V(o.append(v, 100, 9)); V(o.reserve(v, 5 * n)); void *w = L(o.init(1)); V(o.extend(w, v)); V(o.extend(v, w)); V(o.add(w, 5));
	uint64_t h = L(o.size(v)); for (size_t i = 0, e = h; i < e; i++) h = mix(h, L(o.value(v, i))); step(true, h, "contents"); V(o.destroy(&w));
	size_t k = 0; void *d = L(o.detach(v, &k)); h = k; for (size_t i = 0; i < k; i++) h = mix(h, L(o.at(d, i))); step(d != nullptr, h, "detach"); free(d);
	V(o.add(v, 1)); step(true, L(o.value(v, 0)), "after detach"); V(o.destroy(&v));
}
static void ubuf_op(const char *s) {
	void *u = L(s_ubuf_dup_cstr(s)); V(s_ubuf_add_cstr(u, s)); V(s_ubuf_fmt_d(u, 42, s)); V(s_ubuf_lit(u)); V(s_ubuf_append_cstr(u, s, strlen(s))); V(s_ubuf_rstrip(u, 'x')); V(s_ubuf_fmt_0(u)); V(s_ubuf_fmt_s(u, s));
	step(true, hs(L(s_ubuf_cstr(u))), "text"); V(u8_ops.destroy(&u));
	u = L(s_ubuf_new()); V(s_ubuf_fmt_s(u, s)); V(s_ubuf_cterm(u)); size_t n; char *t = (char *)L(u8_ops.detach(u, &n)); step(t != nullptr, hs(t), "detach"); free(t); V(u8_ops.destroy(&u));
}
static int cells[400]; static int hcmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void heap_op(int n) {
	struct heap *h = L(heap_init(hcmp)); if (!step(h != nullptr, 1, "heap_init")) return;
	for (int i = 0; i < n; i++) { cells[i] = i * 7 % n; V(heap_push(h, &cells[i])); step(true, L(heap_size(h)), "heap_push"); }
	uint64_t x = 0; while (int *p = (int *)L(heap_pop(h))) x = mix(x, *p); step(true, x, "heap_pop"); V(heap_destroy(&h));
}
static void queue_op(const my_queue_ops &o, unsigned n, unsigned sz) {
	struct my_queue *q = L(o.init(n, sz)); if (!step(q != nullptr, 1, "init")) return;
	uint64_t h = 0; unsigned sp = 0, k = 0; char e[64] = {};
	for (unsigned i = 0; i < n + 1; i++) { e[0] = i; bool r = L(o.insert(q, e, &sp)); h = mix(h, r * 1000 + sp); }
	for (unsigned i = 0; i < n + 1; i++) { memset(e, 0, sizeof e); bool r = L(o.remove(q, e, &k)); h = mix(h, (r * 1000 + k) * 256 + (r ? e[0] : 0)); }
	step(true, h, "insert and remove"); V(o.destroy(&q));
}
static int objects; static void *fs_load(struct my_fileset *, const char *f) { Outside o; objects++; return (void *)(uintptr_t)(f[strlen(f) - 1]); }
static void fs_unload(struct my_fileset *, const char *, void *) { Outside o; objects--; }
static void put(const char *path, const char *text) { FILE *f = __real_fopen(path, "w"); fputs(text, f); __real_fclose(f); struct timespec t[2] = { { 1000000000, 0 }, { 1000000000 + (long)strlen(text), 0 } }; utimensat(AT_FDCWD, path, t, 0); }
static uint64_t fs_content(struct my_fileset *fs) { const char *f; void *p; uint64_t h = 9; for (size_t i = 0; L(my_fileset_get(fs, i, &f, &p)); i++) h = mix(hstr(h, f), (uintptr_t)p); return h; }
static void fileset_op(const char *dir, const char *list1, const char *list2) {
	char p[300]; snprintf(p, sizeof p, "%s/set", dir); put(p, list1); objects = 0;
	struct my_fileset *fs = L(my_fileset_init(p, fs_load, fs_unload, nullptr)); if (!step(fs != nullptr, 1, "my_fileset_init")) return;
	bool quiet = fired; uint64_t empty = fs_content(fs);
	V(my_fileset_reload(fs)); uint64_t a = fs_content(fs);
	// the failure to open or read the set file leaves the old contents (there is nothing to report it with)
	if (fired && !quiet && a == empty) step(false, 0, "my_fileset_reload"); else step(true, a, "my_fileset_reload");
	if (rec.failed < 0) { put(p, list2); quiet = fired; V(my_fileset_reload(fs)); uint64_t b = fs_content(fs); if (fired && !quiet && b == a) step(false, 0, "second my_fileset_reload"); else step(true, b, "second my_fileset_reload"); }
	V(my_fileset_destroy(&fs)); MC_CHECK(objects == 0, "%d objects are loaded after my_fileset_destroy()", objects);
}
static void spool_op(const char *dir) {
	static char p[300], q[400]; snprintf(p, sizeof p, "%s/spool", dir);
	for (const char *s : { "", "/incoming", "/active" }) { snprintf(q, sizeof q, "%s%s", p, s); mkdir(q, 0755); }
	for (const char *n : { "a", "b", "c" }) { snprintf(q, sizeof q, "%s/active/%s", p, n); unlink(q); snprintf(q, sizeof q, "%s/incoming/%s", p, n); put(q, n); }
	struct spooldir *s = L(spooldir_init(p)); if (!step(s != nullptr, 1, "spooldir_init")) return;
	uint64_t h = 0; int got = 0;
	while (char *f = L(spooldir_next(s))) { got++; h += hs(strrchr(f, '/')); struct stat st; MC_CHECK(stat(f, &st) == 0, "spooldir_next() returns '%s', which does not exist", f); unlink(f); free(f); }
	step(got == 3, h, "spooldir_next"); V(spooldir_destroy(&s));
}
static int argv_errors;
static void argv_op(int which) {
	static char arr[64]; (void)arr;
	static char b; static char *s; static int i; static argv_array_t ai, as; static char *rest; static argv_array_t all;
	b = 0; s = rest = nullptr; i = 0; ai = as = all = argv_array_t();
	argv_t t[] = { { 'b', "bool", ARGV_BOOL, &b, nullptr, nullptr }, { 's', "str", ARGV_CHAR_P, &s, nullptr, nullptr }, { 'i', "int", ARGV_INT, &i, nullptr, nullptr },
		{ 'a', "ints", ARGV_INT | ARGV_FLAG_ARRAY, &ai, nullptr, nullptr }, { 'A', "strs", ARGV_CHAR_P | ARGV_FLAG_ARRAY, &as, nullptr, nullptr },
		{ ARGV_MAYBE, nullptr, ARGV_CHAR_P | ARGV_FLAG_ARRAY, &all, nullptr, nullptr }, { ARGV_LAST, nullptr, 0, nullptr, nullptr, nullptr } };
	static char a0[] = "prog", x1[] = "-b", x2[] = "-s", x3[] = "hello", x4[] = "--int=5", x5[] = "-a", x6[] = "1", x7[] = "-A", x8[] = "st", x9[] = "rest", xf[300], xa[] = "argv-file", xd[] = "--argv-file";
	char *v1[] = { a0, x1, x2, x3, x4, x5, x6, x5, x6, x7, x8, x7, x3, x9, x8, nullptr }; int n1 = 15;
	char *v2[] = { a0, xd, xf, x1, x9, nullptr }; int n2 = 5;
	char *v3[] = { a0, x1, nullptr }; int n3 = 2; (void)xa;
	snprintf(xf, sizeof xf, "%s/args%s", wdir(), which == 6 ? "-many" : "");
	char *v5[80] = { a0 }; int n5 = 1; while (n5 < 70) { v5[n5++] = x5; v5[n5++] = x6; v5[n5++] = x7; v5[n5++] = x8; }     // more of each than an array grows at a time
	static char xn[] = "-7"; char *v8[80] = { a0 }; int n8 = 1; while (n8 < 30) { v8[n8++] = x5; v8[n8++] = xn; }     // negative numbers
	char *v6[80] = { a0 }; int n6 = 1; while (n6 < 18) v6[n6++] = x5; while (n6 < 36) v6[n6++] = x6;                    // many options waiting for their values

	argv_interactive = 0; argv_error_stream = printed; argv_help_string = nullptr; argv_version_string = nullptr; argv_env_after_b = 0;
	if (which == 2 || which == 3) { setenv("ARGV_prog", "-s word -a 4 more", 1); setenv("ARGV_PROG", "-s word -a 4 more", 1); } else { unsetenv("ARGV_prog"); unsetenv("ARGV_PROG"); }
	int r = which == 0 ? L(argv_process(t, n1, v1)) : which == 1 ? L(argv_process(t, n2, v2)) : which == 2 ? L(argv_process(t, n3, v3)) : which == 3 ? L(argv_process(t, n1, v1)) : which == 4 ? L(argv_process_no_env(t, n1, v1)) : which == 5 ? L(argv_process(t, n5, v5)) : which == 6 ? L(argv_process(t, n2, v2)) : which == 7 ? L(argv_process(t, n6, v6)) : L(argv_process(t, n8, v8));
	uint64_t h = b + 2 * i; 
	if (r == 0) { h = mix(h, hs(s)); h = mix(h, ai.aa_entry_n); for (int k = 0; k < ai.aa_entry_n; k++) h = mix(h, ((int *)ai.aa_entries)[k]); for (auto *z : { &as, &all }) { h = mix(h, z->aa_entry_n); for (int k = 0; k < z->aa_entry_n; k++) h = mix(h, hs(((char **)z->aa_entries)[k])); } }
	if (step(r == 0, h, "argv_process")) { char c[200] = {}; V(argv_copy_args(c, sizeof c)); step(true, hs(c), "argv_copy_args"); }
	V(argv_cleanup(t)); unsetenv("ARGV_prog"); unsetenv("ARGV_PROG");
}

static Bytes packet(int v) {
	Bytes q = B({3, 'w', 'w', 'w', 7, 'E', 'x', 'a', 'm', 'p', 'l', 'e', 3, 'c', 'o', 'm', 0}), ptr = B({0xc0, 12});
	if (v == 0) return cat({B({0x12, 0x34, 0x81, 0x80, 0, 1, 0, 4, 0, 1, 0, 2}), q, be16(1), be16(1),
		ptr, be16(1), be16(1), be32(300), be16(4), B({192, 0, 2, 9}), ptr, be16(1), be16(1), be32(300), be16(4), B({192, 0, 2, 1}),
		ptr, be16(16), be16(1), be32(60), be16(6), B({5, 'h', 'e', 'l', 'l', 'o'}), ptr, be16(48), be16(1), be32(60), be16(7), B({1, 1, 3, 8, 1, 2, 3}),
		B({0xc0, 16}), be16(2), be16(1), be32(3600), be16(5), B({2, 'n', 's', 0xc0, 16}),
		B({2, 'n', 's', 0xc0, 16}), be16(28), be16(1), be32(3600), be16(16), B({0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}),
		B({0}), be16(41), be16(4096), B({1, 0, 0x80, 0}), be16(20), be16(3), be16(3), S("abc"), be16(0x8001), be16(1), S("x"), be16(8), be16(4), B({0, 1, 0, 0})});
	if (v == 1) return cat({B({0xab, 0xcd, 0x84, 3, 0, 1, 0, 0, 0, 1, 0, 0}), B({1, 'x', 0}), be16(255), be16(255),
		B({0}), be16(6), be16(1), be32(86400), be16(28), B({1, 'm', 0, 1, 'r', 1, 'x', 0}), be32(1), be32(2), be32(3), be32(4), be32(5)});
	return cat({B({0, 1, 0x28, 0, 0, 1, 0, 1, 0, 0, 0, 1}), B({1, 'z', 0}), be16(6), be16(1), B({0xc0, 12}), be16(64), be16(1), be32(5), be16(17), be16(1), B({0}), be16(1), be16(3), B({2, 'h', '2'}), be16(5), be16(3), S("abc"),
		B({0}), be16(41), be16(512), B({0, 0, 0, 0}), be16(16), be16(0x8002), be16(2), S("yz"), be16(15), be16(2), be16(22), be16(10), be16(0)});
}
static void setup_ops() {
	if (!ops.empty()) return;
	auto add = [](Str n, std::function<void()> f) { ops.push_back({ n, f }); };
	static const struct { int type, cls; const char *t; } rd[] = {
#include "rdatas.inc"
	};
	for (auto &r : rd) { auto *p = &r; add("rdata " + std::to_string(r.type) + " " + Str(r.t).substr(0, 20), [p] { rdata_op(p->t, p->type, p->cls); }); }
	// results that outgrow what is allocated first
	auto big = [&](int ty, Str t) { Str *p = new Str(t); add("rdata " + std::to_string(ty) + " long", [p, ty] { rdata_op(p->c_str(), ty, 1); }); };
	{ Str t; for (int k = 0; k < 6; k++) t += "\"" + Str(100, 'a' + k) + "\" "; big(16, t); t = "a. "; for (int k = 1; k < 60; k++) t += "TYPE" + std::to_string(k * 97) + " "; big(47, t);
	  big(48, "257 3 8 " + Str(400, 'A')); big(43, "1 5 2 " + Str(300, 'a')); big(64, "1 . alpn=\"" + Str(200, 'h') + ",h2\" ech=" + Str(120, 'Q') + " key9=" + Str(150, 'z')); big(61, Str(800, 'B')); Str h; for (int k = 0; k < 500; k++) h += "f0"; big(65280, "\\# 500 " + h); }
	for (const char *n : { "www.Example.COM.", ".", "a\\.b.\\000\\255x", "x..y" }) for (bool keep : { false, true }) add(Str("name ") + n, [n, keep] { name_op(n, keep); });
	for (int v = 0; v < 3; v++) for (int w = 0; w < 4; w++) { Bytes *p = new Bytes(packet(v)); add("message " + std::to_string(v) + "/" + std::to_string(w), [p, w] { message_op(*p, w); }); }
	for (int w : { 0, 2, 3 }) {      // one RRset of many records, and many RRsets
		Bytes *p = new Bytes(B({ 0, 1, 0x80, 0, 0, 0, 0, 12, 0, 12, 0, 0 }));
		for (int k = 0; k < 24; k++) app(*p, cat({ B({ 1, k < 12 ? 'a' : 'a' + k, 0 }), be16(16), be16(1), be32(60), be16(6), B({ 5, 'h', 'e', 'l', 'l', 'a' + 23 - k }) }));
		add("large message/" + std::to_string(w), [p, w] { message_op(*p, w); });
	}
	{ Bytes *p = new Bytes(packet(0)); p->resize(p->size() - 5); add("message cut", [p] { message_op(*p, 0); }); }
	static Str dir = wdir(); printed = tmpfile();
	for (int f = 0; f < 2; f++) {
		Str *p = new Str(dir + "/names" + std::to_string(f)); put(p->c_str(), f ? "b.org.\nx\\.y.z\n" : "# comment\nexample.com\n.net\n\nwww.Example.org.\na.name.that.does.not.fit.the.first.buffer.of.getline.example.com.\n");
		add("load_names " + std::to_string(f), [p] { load_op(p->c_str()); });
	}
	for (int k = 0; k < 4; k++) add("vector " + std::to_string(k), [k] { vec_op(*(const vops *[]){ &u8_ops, &u32_ops, &s12_ops, &ptr_ops }[k], 9); });
	for (const char *s : { "", "short", "a text which does not fit into the first allocation of sixty-four octets, so that it grows" }) add("ubuf", [s] { ubuf_op(s); });
	for (int n : { 0, 1, 20, 300 }) add("heap " + std::to_string(n), [n] { heap_op(n); });
	for (int i = 0; i < 2; i++) add("queue " + std::to_string(i), [i] { queue_op(i ? my_queue_mutex_ops : my_queue_mb_ops, 4, 3); });
	add("rate", [] { struct my_rate *r = L(my_rate_init(1000, 10)); if (!step(r != nullptr, 1, "my_rate_init")) return; V(my_rate_destroy(&r)); });
	add("hex_decode", [] { uint8_t *p = nullptr; size_t n = 0; bool r = L(s_hex_decode("00aAfF7b", &p, &n)); step(r, r ? hbytes(n, p, n) : 0, "hex_decode"); free(p); });
	for (const char *o : { "zz", "b" }) add("string_replace", [o] { char *s = L(s_string_replace("abcabcabc", o, "a longer text to put in its place")); text(s, "string_replace"); });
	add("fileset", [] { fileset_op(dir.c_str(), "a\nb\nc\n", "b\nd\na.file.with.a.longer.name\n"); });
	{ static Str m1, m2; for (int k = 0; k < 40; k++) { m1 += "file" + std::to_string(k) + "\n"; m2 += "file" + std::to_string(k * 3) + "\n"; } add("fileset of many", [] { fileset_op(dir.c_str(), m1.c_str(), m2.c_str()); }); }
	add("fileset without a file", [] { fileset_op(dir.c_str(), "", "b\n"); });
	add("spooldir", [] { spool_op(dir.c_str()); });
	put((dir + "/args").c_str(), "-b\n-s\nfrom a file\n-A\none\n-A\ntwo\n--int=7\n");
	{ Str m; for (int k = 0; k < 30; k++) m += k % 2 ? "value\n" : "-A\n"; put((dir + "/args-many").c_str(), m.c_str()); }
	for (int k = 0; k < 9; k++) add("argv " + std::to_string(k), [k] { argv_op(k); });
}

// ---- one execution ------------------------------------------------------------------------------------------
enum { RETURNED, STOPPED, LEFT };
static int execute(size_t i) {
	count = 0; fired = false; stopped = nullptr; rec.n = 0; rec.failed = -1; nheld = 0;
	volatile int how = RETURNED;
	int j = sigsetjmp(stop, 0);
	if (j == 0) ops[i].f(); else { in_lib = false; how = j == 2 ? LEFT : STOPPED; }
	return how;
}
static int last_how, last_count;
static void judge(size_t i) {
	static char pl[200]; pl[0] = 0; for (int k = 0; k < nplan; k++) snprintf(pl + strlen(pl), sizeof pl - strlen(pl), " %d%s", plan[k] & 65535, plan[k] >= 65536 ? " and all after it" : "");
	int how = execute(i), n = count; bool f = fired; last_how = how; last_count = n;
	uint64_t h = hstr(how, ops[i].name.c_str());
	if (how != RETURNED) {
		MC_CHECK(f, "'%s' ended by %s although no allocation failed", ops[i].name.c_str(), stopped);
		MC_CHECK(how == STOPPED, "'%s' with failing allocation%s: the process ends successfully (%s)", ops[i].name.c_str(), pl, stopped);
		h = hstr(h, stopped); drop_all();
	} else {
		int left = nheld; drop_all();
		for (int k = 0; k < rec.n; k++) {
			MC_CHECK(k < base_rec.n, "'%s' with failing allocation%s: %s succeeds, which fails when there is memory", ops[i].name.c_str(), pl, rec.txt[k]);
			MC_CHECK(rec.h[k] == base_rec.h[k], "'%s' with failing allocation%s: %s gives another result than with enough memory, and reports success", ops[i].name.c_str(), pl, rec.txt[k]);
			h = mix(h, rec.h[k]);
		}
		MC_CHECK(rec.failed >= 0 || (rec.n == base_rec.n && base_rec.failed < 0), "'%s' with failing allocation%s: success after %d of %d steps", ops[i].name.c_str(), pl, rec.n, base_rec.n);
		MC_CHECK(left == 0, "'%s' with failing allocation%s: %d block(s) or file(s) are kept although the call %s", ops[i].name.c_str(), pl, left, rec.failed >= 0 ? "failed" : "succeeded and its result was released");
		h = mix(h, rec.failed + 2);
	}
	state(h); valid(); count = n; fired = f;
}
static int baseline(size_t i) {
	nplan = 0; int how = execute(i); int n = count;
	if (how != RETURNED) mc::fail("'%s' ended by %s although no allocation failed", ops[i].name.c_str(), stopped);
	int left = nheld; drop_all(); if (left) mc::fail("'%s' keeps %d block(s) or file(s)", ops[i].name.c_str(), left);
	return n;
}
void mc::check(const Case &c) {
	setup_ops(); size_t i = getnum(c.b[0]); int p[8], np = 0; for (size_t k = 0; k + 2 < c.b[1].size() + 0u && np < 8; k += 3) p[np++] = c.b[1][k] << 16 | c.b[1][k + 1] << 8 | c.b[1][k + 2];
	baseline(i); base_rec = rec;
	nplan = np; memcpy(plan, p, sizeof p); judge(i); note("'%s': %s%s", ops[i].name.c_str(), fired ? "" : "(no failure reached) ", stopped ? stopped : rec.failed >= 0 ? "failure reported" : "same result");
	// and the next call is none the worse for it
	nplan = 0; execute(i); bool same = !stopped && rec.n == base_rec.n && rec.failed == base_rec.failed && !memcmp(rec.h, base_rec.h, rec.n * sizeof *rec.h); int left = nheld; drop_all();
	MC_CHECK(same && !left, "'%s' gives another result after a run in which an allocation failed", ops[i].name.c_str());
}
static Bytes enc(const std::vector<int> &p) { Bytes b; for (int x : p) { b.push_back(x >> 16); b.push_back(x >> 8 & 255); b.push_back(x & 255); } return b; }
// how many allocations an operation makes; in a child, as the operation may crash (then its first case reports it)
static int allocations(size_t i) {
	int fd[2]; if (pipe(fd)) return 0;
	pid_t p = fork();
	if (p == 0) { close(fd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); nplan = 0; execute(i); int n = count; if (write(fd[1], &n, sizeof n) < 0) {} _exit(0); }
	close(fd[1]); int n = 0; if (read(fd[0], &n, sizeof n) != sizeof n) n = 0; close(fd[0]); int st; waitpid(p, &st, 0); return n;
}
static void explore(size_t i, std::vector<int> p, int n, int depth) {
	for (int k = p.back() + 1; k < n && !out_of_time(); k++) {
		p.push_back(65536 + k); run_owned(K_OOM, { num(i), enc(p) }); p.back() = k; run_owned(K_OOM, { num(i), enc(p) });
		if (depth > 1 && last_how == RETURNED) explore(i, p, last_count, depth - 1);
		p.pop_back();
	}
}
void mc::enumerate() {
	setup_ops(); std::vector<int> n(ops.size()); int depth = mc::thorough ? 6 : 2;
	for (size_t i = 0; i < ops.size(); i++) { run(K_OOM, { num(i), Bytes() }); n[i] = allocations(i); }
	if (worker_id == 0) { uint64_t t = 0; for (int x : n) t += x; info("operations", ops.size()); info("allocations", t); }
	for (size_t i = 0; i < ops.size(); i++) for (int k = 0; k < n[i]; k++) { run(K_OOM, { num(i), enc({ 65536 + k }) }); run(K_OOM, { num(i), enc({ k }) }); }
	for (int d = 2; d <= depth; d++) for (size_t i = 0; i < ops.size(); i++) for (int k = 0; k < n[i]; k++) if (unit()) {
		run_owned(K_OOM, { num(i), enc({ k }) }); if (last_how == RETURNED) explore(i, { k }, last_count, d - 1);
	}
}
