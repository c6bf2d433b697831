// C40 zone files: every sequence of lines up to a depth, read to the end and beyond, with stream errors at every offset and
// every way of opening a file, on libmy/zonefile.c and a stand-in for ldns (fakeldns/ldns/ldns.h, implemented here).
#include "mc.hpp"
#include <string>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern "C" {
#include "zonefile.h"
}
using namespace mc;
typedef std::string Str;
enum { K_TEXT, K_FAULT, K_NAME, K_CUTGZ };
const char *mc::kind_names[] = { "zone(text, open as, calls that look)", "zone(text, stream fails after)", "zone(file name, kind of file)", "zone(text, gzip file cut to)" };

// ------------------------------------------------------------------- ldns stand-in
struct ldns_struct_rdf { Str s; uint32_t v; };
struct ldns_struct_rr { ldns_rdf *owner; ldns_rr_type type; uint32_t ttl, num; ldns_rdf *rd[3]; int nrd; };
static ldns_rdf *mkrdf(const Str &s, uint32_t v) { ldns_rdf *r = new ldns_rdf; r->s = s; r->v = v; return r; }
static Str full(const Str &n, const ldns_rdf *origin, const ldns_rdf *prev) {
	if (n.empty()) return prev ? prev->s : origin ? origin->s : ".";
	if (n == "@") return origin ? origin->s : ".";
	if (n.back() == '.') return n;
	return n + "." + (origin ? (origin->s == "." ? "" : origin->s) : "");
}
static bool parseline(const Str &l, char &k, Str &name, uint32_t &v) {
	k = l[0]; size_t sp = l.find(' ');
	if (k == 'O') { name = l.substr(1); return !name.empty(); }
	if (k == 'T') { name = ""; v = 0; if (l.size() < 2) return false; for (size_t i = 1; i < l.size(); i++) { if (l[i] < '0' || l[i] > '9') return false; v = v * 10 + (l[i] - '0'); } return true; }
	if ((k != 'S' && k != 'R') || sp == Str::npos || sp + 1 >= l.size()) return false;
	name = l.substr(1, sp - 1); v = 0;
	for (size_t i = sp + 1; i < l.size(); i++) { if (l[i] < '0' || l[i] > '9') return false; v = v * 10 + (l[i] - '0'); }
	return true;
}
extern "C" {
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line) {
	Str l; int c;
	while ((c = getc(fp)) != EOF && c != '\n') l.push_back(c);
	if (line) ++*line;
	if (l.empty() || l[0] == ';') return LDNS_STATUS_SYNTAX_EMPTY;
	char k; Str nm; uint32_t v;
	if (!parseline(l, k, nm, v)) return LDNS_STATUS_SYNTAX_ERR;
	if (k == 'O') { Str f = full(nm, origin ? *origin : nullptr, nullptr); if (origin) { ldns_rdf_deep_free(*origin); *origin = mkrdf(f, 0); } return LDNS_STATUS_SYNTAX_ORIGIN; }
	if (k == 'T') { if (ttl) *ttl = v; return LDNS_STATUS_SYNTAX_TTL; }
	ldns_rr *r = new ldns_rr(); r->type = k == 'S' ? LDNS_RR_TYPE_SOA : LDNS_RR_TYPE_TXT; r->num = v; r->ttl = ttl ? *ttl : 0;
	r->owner = mkrdf(full(nm, origin ? *origin : nullptr, prev ? *prev : nullptr), 0);
	if (k == 'S') { r->nrd = 3; r->rd[0] = mkrdf("m.", 0); r->rd[1] = mkrdf("r.", 0); r->rd[2] = mkrdf("", v); } else { r->nrd = 1; r->rd[0] = mkrdf("", v); }
	if (prev) { ldns_rdf_deep_free(*prev); *prev = ldns_rdf_clone(r->owner); }
	if (rr) *rr = r; else ldns_rr_free(r);
	return LDNS_STATUS_OK;
}
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **o, ldns_rdf **p) { return ldns_rr_new_frm_fp_l(rr, fp, ttl, o, p, nullptr); }
ldns_rr_type ldns_rr_get_type(const ldns_rr *r) { return r->type; }
ldns_rdf *ldns_rr_owner(const ldns_rr *r) { return r->owner; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *r, size_t i) { return r && (int)i < r->nrd ? r->rd[i] : nullptr; }
uint32_t ldns_rr_ttl(const ldns_rr *r) { return r->ttl; }
ldns_rr_class ldns_rr_get_class(const ldns_rr *) { return LDNS_RR_CLASS_IN; }
size_t ldns_rr_rd_count(const ldns_rr *r) { return r->nrd; }
int ldns_rdf_compare(const ldns_rdf *a, const ldns_rdf *b) { return a->s < b->s ? -1 : a->s > b->s ? 1 : a->v < b->v ? -1 : a->v > b->v; }
int ldns_dname_compare(const ldns_rdf *a, const ldns_rdf *b) { return a->s < b->s ? -1 : a->s > b->s; }
const char *ldns_get_errorstr_by_id(ldns_status s) { return s == LDNS_STATUS_OK ? "All OK" : "error"; }
void ldns_rr_free(ldns_rr *r) { if (!r) return; ldns_rdf_deep_free(r->owner); for (int i = 0; i < r->nrd; i++) ldns_rdf_deep_free(r->rd[i]); delete r; }
ldns_rr *ldns_rr_clone(const ldns_rr *r) { if (!r) return nullptr; ldns_rr *n = new ldns_rr(*r); n->owner = ldns_rdf_clone(r->owner); for (int i = 0; i < r->nrd; i++) n->rd[i] = ldns_rdf_clone(r->rd[i]); return n; }
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r) { return r ? new ldns_rdf(*r) : nullptr; }
void ldns_rdf_deep_free(ldns_rdf *r) { delete r; }
void ldns_rdf_free(ldns_rdf *r) { delete r; }
uint32_t ldns_rdf2native_int32(const ldns_rdf *r) { return r->v; }
uint8_t *ldns_rdf_data(const ldns_rdf *r) { return (uint8_t *)r->s.data(); }
size_t ldns_rdf_size(const ldns_rdf *r) { return r->s.size(); }
}

// ------------------------------------------------------------------- streams that fail
static long fail_after = -1;
static int open_streams;
struct Ck { int fd; long left; };
static ssize_t ck_read(void *c, char *b, size_t n) { Ck *k = (Ck *)c; if (k->left <= 0) { errno = EIO; return -1; } if (n > (size_t)k->left) n = k->left; ssize_t r = ::read(k->fd, b, n); if (r == 0) { errno = EIO; return -1; } if (r > 0) k->left -= r; return r; }
static int ck_close(void *c) { Ck *k = (Ck *)c; close(k->fd); delete k; return 0; }
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_popen(const char *, const char *); int __real_fclose(FILE *); int __real_pclose(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) {
	FILE *f;
	if (fail_after >= 0) { int fd = open(p, O_RDONLY); if (fd < 0) return nullptr; cookie_io_functions_t io = {}; io.read = ck_read; io.close = ck_close; f = fopencookie(new Ck{fd, fail_after}, "r", io); }
	else f = __real_fopen(p, m);
	if (f) open_streams++;
	return f;
}
FILE *__wrap_popen(const char *p, const char *m) { FILE *f = __real_popen(p, m); if (f) open_streams++; return f; }
int __wrap_fclose(FILE *f) { open_streams--; return __real_fclose(f); }
int __wrap_pclose(FILE *f) { open_streams--; return __real_pclose(f); }
}

// ------------------------------------------------------------------- reference model
struct Ev { bool rec, soa; Str owner; uint32_t ttl, num; };          // one thing that reading reports: a record or an error
struct Model {
	bool ok = false; Str domain; uint32_t serial = 0; std::vector<Ev> ev;
	// `whole' lines only; what a partial last line of a failing stream gives is unspecified
	explicit Model(const Str &t) {
		Str origin = ""; bool haveo = false; Str prev = ""; bool havep = false; uint32_t ttl = 0;
		size_t i = 0;
		while (i < t.size()) {
			size_t e = t.find('\n', i); if (e == Str::npos) e = t.size();
			Str l = t.substr(i, e - i); i = e + 1;
			if (l.empty() || l[0] == ';') continue;
			char k; Str nm; uint32_t v = 0;
			if (!parseline(l, k, nm, v)) { if (!ok) return; ev.push_back({false, false, "", 0, 0}); continue; }
			auto abs = [&](const Str &n) { if (n.empty()) return havep ? prev : haveo ? origin : Str("."); if (n == "@") return haveo ? origin : Str("."); if (n.back() == '.') return n; return n + "." + (haveo && origin != "." ? origin : ""); };
			if (k == 'O') { if (nm.empty()) { continue; } Str f = abs(nm); origin = f; haveo = true; continue; }
			if (k == 'T') { ttl = v; continue; }
			Str o = abs(nm); prev = o; havep = true;
			if (k == 'S') {
				if (ok) return;                                     // the SOA that closes the zone
				ok = true; domain = o; serial = v; if (!haveo) { origin = o; haveo = true; }
				ev.push_back({true, true, o, ttl, v});
			} else { if (!ok) return; ev.push_back({true, false, o, ttl, v}); }
		}
	}
};

static void put_file(const Str &p, const void *d, size_t n) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, d, n) != (ssize_t)n) { fprintf(stderr, "mc: cannot write %s\n", p.c_str()); _exit(97); } close(fd); }
static Str gz(const Str &t) {          // gzip file with one stored block
	Str o("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03", 10); auto le = [&](uint32_t v, int n) { while (n--) { o.push_back(v & 255); v >>= 8; } };
	o.push_back(1); le(t.size(), 2); le(~t.size() & 0xffff, 2); o += t;
	uint32_t c = ~0u; for (unsigned char ch : t) { c ^= ch; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; }
	le(~c, 4); le(t.size(), 4); return o;
}
static void look(struct zonefile *z, const Model &m, size_t recs) {
	const ldns_rdf *d = zonefile_get_domain(z);
	MC_CHECK(d && d->s == m.domain, "domain is `%s', expected `%s'", d ? d->s.c_str() : "(null)", m.domain.c_str());
	MC_CHECK(zonefile_get_count(z) == recs, "count is %zu, expected %zu", zonefile_get_count(z), recs);
	MC_CHECK(zonefile_get_serial(z) == m.serial, "serial is %u, expected %u", zonefile_get_serial(z), m.serial);
	tr(3);
}
// mask: 1 look after opening, 2 after the SOA was read, 4 at the end, 8 destroy half-way, 16 keep the records until the file is closed
static void session(const Str &path, const Model &m, int mask, bool cut) {
	int64_t before = live_blocks; int streams = open_streams; uint64_t h = 3;
	{
		struct zonefile *z = zonefile_init_fname(path.c_str()); tr();
		if (!m.ok) { if (!cut) MC_CHECK(z == nullptr, "a file whose first record is no SOA was opened"); if (z) zonefile_destroy(&z); }
		else {
			MC_CHECK(z != nullptr, "a zone file with an SOA was not opened");
			std::vector<ldns_rr *> kept;
			if (mask & 1) look(z, m, 1);
			size_t recs = 0, stop = mask & 8 ? (m.ev.size() + 1) / 2 : m.ev.size(); bool errored = false;
			for (size_t i = 0; i < stop; i++) {
				auto &e = m.ev[i]; ldns_rr *rr = (ldns_rr *)16;
				ldns_status s = zonefile_read(z, &rr); tr();
				if (!e.rec) { MC_CHECK(s != LDNS_STATUS_OK, "line %zu is an error, but reading reported success", i); h = mix(h, 9); continue; }
				MC_CHECK(s == LDNS_STATUS_OK, "record %zu: status %d", i, s);
				MC_CHECK(rr != nullptr && rr != (ldns_rr *)16, "record %zu: end of zone reported instead of `%s'", i, e.owner.c_str());
				MC_CHECK((rr->type == LDNS_RR_TYPE_SOA) == e.soa && rr->owner->s == e.owner && rr->ttl == e.ttl && rr->num == e.num, "record %zu is `%s' ttl %u number %u type %d, expected `%s' ttl %u number %u", i, rr->owner->s.c_str(), rr->ttl, rr->num, rr->type, e.owner.c_str(), e.ttl, e.num);
				h = hbytes(mix(h, e.ttl), e.owner.data(), e.owner.size());
				recs++;
				if (mask & 16) kept.push_back(rr); else ldns_rr_free(rr);
				if (mask & 2 && i == 0) look(z, m, 1);
				if (mask & 2 && i) look(z, m, recs);
			}
			if (!(mask & 8)) for (int k = 0; k < 3; k++) {
				ldns_rr *rr = (ldns_rr *)16; ldns_status s = zonefile_read(z, &rr); tr();
				if (cut) { if (s == LDNS_STATUS_OK && rr && rr != (ldns_rr *)16 && !k) { ldns_rr_free(rr); continue; } if (s != LDNS_STATUS_OK) { errored = true; continue; } MC_CHECK(errored && rr == nullptr, "a stream error was reported as the end of the zone"); }
				else MC_CHECK(s == LDNS_STATUS_OK && rr == nullptr, "read %d after the end: status %d, record %s", k, s, rr && rr != (ldns_rr *)16 ? rr->owner->s.c_str() : rr ? "untouched" : "none");
			}
			if (mask & 4 && !cut && !(mask & 8)) look(z, m, recs);
			zonefile_destroy(&z); tr();
			MC_CHECK(z == nullptr, "destroy left the pointer");
			zonefile_destroy(&z);
			for (auto r : kept) { h = hbytes(h, r->owner->s.data(), r->owner->s.size()); ldns_rr_free(r); }
		}
	}
	MC_CHECK(live_blocks == before, "%lld blocks leaked", (long long)(live_blocks - before));
	MC_CHECK(open_streams == streams, "%d streams were left open", open_streams - streams);
	{ int st; pid_t c = waitpid(-1, &st, WNOHANG); MC_CHECK(c == -1, "a process was left behind"); }
	state(h); valid();
	note("%s", m.ok ? "zone" : "not opened");
}

void mc::check(const Case &c) {
	Str w = wdir();
	if (c.kind == K_TEXT || c.kind == K_FAULT) {
		Str t(c.b[0].begin(), c.b[0].end()); uint64_t a = getnum(c.b[1]);
		if (c.kind == K_TEXT) {
			Str p = w + (a & 32 ? "/z.gz" : "/z"); Str g = a & 32 ? gz(t) : t; put_file(p, g.data(), g.size());
			session(p, Model(t), a & 31, false);
		} else {
			put_file(w + "/z", t.data(), t.size());
			size_t cutn = a; if (cutn > t.size()) cutn = t.size();
			size_t e = cutn ? t.rfind('\n', cutn - 1) : Str::npos; Str whole = e == Str::npos ? "" : t.substr(0, e + 1);
			Model m(whole), mf(t);
			bool closed = false; { Model x(whole + "Rprobe. 7\n"); closed = x.ok && x.ev.size() == m.ev.size(); Model y(t.substr(0, cutn) + "\nRprobe. 7\n"); closed = closed || (y.ok && m.ok && y.ev.size() == m.ev.size()); }
			fail_after = a;
			if (!m.ok && mf.ok && cutn > whole.size()) { struct zonefile *z = zonefile_init_fname((w + "/z").c_str()); if (z) zonefile_destroy(&z); tr(); }   // part of the SOA line
			else { if (closed) session(w + "/z", m, 16, false); else session(w + "/z", m, 16, true); }
			fail_after = -1;
		}
	} else {
		// how files are opened: names of any kind, things that are no files
		Str n(c.b[0].begin(), c.b[0].end()); int kind = (int)getnum(c.b[1]);
		Str d = w + "/d"; mkdir(d.c_str(), 0755); Str canary = d + "/pwned";
		if (chdir(d.c_str())) _exit(97);
		Str t = "Sz. 5\nRa 1\n"; Str p = kind & 8 ? n : d + "/" + n; bool isgz = n.size() >= 3 && n.substr(n.size() - 3) == ".gz";
		switch (kind & 7) {
		case 0: put_file(p, t.data(), t.size()); break;
		case 1: { Str g = gz(t); put_file(p, g.data(), g.size()); break; }
		case 2: break;
		case 3: mkdir(p.c_str(), 0755); break;
		case 4: put_file(p, "", 0); break;
		}
		// plain text behind a .gz name: zcat refuses it; compressed text behind a plain name: no zone
		bool good = (kind & 7) == 0 ? !isgz : (kind & 7) == 1 ? isgz : false;
		int err = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
		session(p, Model(good ? t : Str()), 7, false);
		dup2(err, 2); close(err); close(nul);
		MC_CHECK(access(canary.c_str(), F_OK) != 0, "part of the file name was run as a command");
		if ((kind & 7) == 3) rmdir(p.c_str()); else unlink(p.c_str());
		if (chdir(w.c_str())) _exit(97);
	}
}

void mc::enumerate() {
	const char *L[] = { "Sz. 7\n", "Sy 4294967295\n", "R@ 1\n", "Rw 2\n", "R 3\n", "Rq.x. 4\n", "Oo.\n", "Op\n", "T30\n", "\n", ";c\n", "!bad\n" };
	const int n = sizeof L / sizeof *L, depth = deepest ? 7 : thorough ? 6 : 5;
	for (int len = 0; len <= depth; len++) {
		size_t total = 1; for (int i = 0; i < len; i++) total *= n;
		for (size_t k = 0; k < total; k++) {
			Str t; size_t q = k; bool soa = false, rec = false;
			for (int i = 0; i < len; i++) { int x = q % n; q /= n; t += L[x]; if (x < 2) soa = true; if (x >= 2 && x < 6 && !soa) rec = true; }
			if (len == depth && (!soa || rec)) continue;       // nothing new behind a failed open
			int mask = (int)(k % 5 == 0 ? 7 : k % 5 == 1 ? 16 | 4 : k % 5 == 2 ? 8 | 1 : k % 5 == 3 ? 0 : 2 | 4);
			if (len <= 3) { for (int m = 0; m < 32; m++) run(K_TEXT, { S(t.c_str()), num(m) }); if (len && t.back() == '\n') for (int m : {0, 7, 16}) run(K_TEXT, { S(t.substr(0, t.size() - 1).c_str()), num(m) }); }
			else run(K_TEXT, { S(t.c_str()), num(mask) });
			if (len && len <= (deepest ? 5 : thorough ? 4 : 3)) for (size_t f = 0; f <= t.size(); f++) run(K_FAULT, { S(t.c_str()), num(f) });
			if (len == 2 || (thorough && len == 3 && soa && !rec)) for (int m : {7, 24}) run(K_TEXT, { S(t.c_str()), num(32 | m) });
		}
	}
	for (int many : {100, 5000}) { Str t = "T5\nSz. 1\n"; for (int i = 0; i < many; i++) t += "Rn" + std::to_string(i % 7) + " " + std::to_string(i) + "\n"; for (int m : {0, 7, 8, 16, 32}) if (m < 32 || t.size() < 65000) { run(K_TEXT, { S(t.c_str()), num(m) }); run(K_TEXT, { S((t + "Sz. 1\nRx 1\n").c_str()), num(m) }); } }
	for (const char *nm : { "a", "a.gz", ".gz", "a.g", "agz", "gz", "a.gz.x", "a b.gz", "a'b.gz", "'.gz", "a\"b.gz", "a$(touch pwned).gz", "`touch pwned`.gz", "a;touch pwned;.gz", "a|touch pwned|.gz", "a>pwned.gz", "a\\b.gz", "a\nb.gz", "*.gz", "-d.gz", "-.gz", "--help.gz", "a b", "a&touch pwned&.gz", "#x.gz", "~.gz", "a.GZ", "''.gz", "\xff.gz", "'$(touch pwned)'.gz", "'; touch pwned; '.gz" })
		for (int kind : {0, 1, 2, 3, 4, 8, 9, 10}) run(K_NAME, { S(nm), num(kind) });
}
