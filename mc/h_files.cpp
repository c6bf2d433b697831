// C27 file set reloads, C28 spool directory (single thread): histories of directory changes, faults and
// calls, executed on real files in a scratch directory of the worker.
#include "mc.hpp"
#include <map>
#include <set>
#include <string>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
extern "C" {
#include "my_fileset.h"
#include "spooldir.h"
}
using namespace mc;
typedef std::string Str;

enum { K_FS, K_FSNAMES, K_FSBIG, K_SPOOL, K_SPOOLNAME, K_SPOOLMANY, K_SPOOLKIND };
const char *mc::kind_names[] = { "fileset-history", "fileset-names", "fileset-large", "spool-history", "spool-name", "spool-many", "spool-file-kinds(size, mode, time, links, owner, files in front)" };

// ------------------------------------------------------------------------- environment hooks
// armed only while the code under test runs; each wrapped call asks the current case what happens there
static bool armed;
static int hook_no;                       // index of wrapped calls in this library call
enum Fault { F_NONE, F_FAIL, F_SHORT };
static void (*on_hook)(const char *what, const char *path, bool after);
static bool (*want_fail)(const char *what, const char *path, int *err);
static long short_read = -1;              // fopen gives a stream failing after this many octets
static bool fopen_fired;

struct Off { bool a; Off() : a(armed) { armed = false; } ~Off() { armed = a; } };

static ssize_t ck_read(void *c, char *b, size_t n) {
	long *s = (long *)c; int fd = (int)s[0];
	if (s[1] <= 0) { errno = EIO; return -1; }
	if (n > (size_t)s[1]) n = s[1];
	ssize_t r = ::read(fd, b, n);
	if (r == 0) { errno = EIO; return -1; }
	s[1] -= r; return r;
}
static int ck_close(void *c) { long *s = (long *)c; ::close((int)s[0]); free(c); return 0; }

extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
	if (!armed) return __real_fopen(p, m);
	Off o; int e;
	fopen_fired = true;
	if (on_hook) on_hook("fopen", p, false);
	if (want_fail && want_fail("fopen", p, &e)) { errno = e; return nullptr; }
	FILE *f;
	if (short_read >= 0) {
		int fd = open(p, O_RDONLY); if (fd < 0) return nullptr;
		long *c = (long *)malloc(16); c[0] = fd; c[1] = short_read;
		cookie_io_functions_t io = {}; io.read = ck_read; io.close = ck_close;
		f = fopencookie(c, "r", io);
		f->_fileno = fd;            // so that fileno() works as on an ordinary stream
	} else f = __real_fopen(p, m);
	if (on_hook) on_hook("fopen", p, true);
	return f;
}
#define WRAP(ret, name, params, args, path) \
	ret __real_##name params; \
	ret __wrap_##name params { \
		if (!armed) return __real_##name args; \
		int e = 0; \
		{ Off o; if (on_hook) on_hook(#name, path, false); \
		  if (want_fail && want_fail(#name, path, &e)) { errno = e; return (ret)-1; } } \
		ret r = __real_##name args; \
		{ Off o; int s = errno; if (on_hook) on_hook(#name, path, true); errno = s; } \
		return r; }
WRAP(int, stat, (const char *p, struct stat *s), (p, s), p)
WRAP(int, fstatat, (int fd, const char *p, struct stat *s, int f), (fd, p, s, f), p)
WRAP(int, rename, (const char *a, const char *b), (a, b), a)
struct dirent *__real_readdir(DIR *);
struct dirent *__wrap_readdir(DIR *d) {
	if (!armed) return __real_readdir(d);
	{ Off o; if (on_hook) on_hook("readdir", "", false); }
	return __real_readdir(d);
}
// sleeping takes no time here: it is one more place where the environment may act
int __wrap_usleep(useconds_t) { if (armed) { Off o; if (on_hook) on_hook("usleep", "", false); } return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { return __wrap_usleep(0); }
unsigned __wrap_sleep(unsigned) { return __wrap_usleep(0); }
}

static void write_file(const Str &p, const Str &data) {
	int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0) { fprintf(stderr, "mc: cannot create %s: %s\n", p.c_str(), strerror(errno)); _exit(97); }
	if (!data.empty() && write(fd, data.data(), data.size()) != (ssize_t)data.size()) { fprintf(stderr, "mc: short write\n"); _exit(97); }
	close(fd);
}
static bool read_file(const Str &p, Str &out) {
	int fd = open(p.c_str(), O_RDONLY | O_NONBLOCK); if (fd < 0) return false;
	char b[4096]; ssize_t n; out.clear();
	while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n);
	close(fd); return true;
}
static bool exists(const Str &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
// removes a tree below the worker's own scratch directory, nothing else
static void wipe(const Str &p) {
	if (p.compare(0, strlen(wdir()), wdir()) != 0 || p.size() <= strlen(wdir())) return;
	DIR *d = opendir(p.c_str());
	if (d) {
		while (struct dirent *e = readdir(d)) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			Str q = p + "/" + e->d_name; struct stat s;
			if (lstat(q.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) wipe(q); else unlink(q.c_str());
		}
		closedir(d);
	}
	rmdir(p.c_str());
}

// ========================================================================= C27
static const char *LISTS[] = { "", "a\n", "b\na\n", "a\nb", "c\n", "b\nb\n\nc\n", "\n\nc\na" };
enum { NL = 7 };
static Str fsdir;
static long cur_mtime;
static void set_mtime(const Str &p, long t) { struct timespec ts[2] = { { t, 0 }, { t, 0 } }; utimensat(AT_FDCWD, p.c_str(), ts, 0); }
static void list_inplace(const Str &data) { write_file(fsdir + "/list", data); set_mtime(fsdir + "/list", ++cur_mtime); }
static void list_replace(const Str &data, long t) {
	write_file(fsdir + "/list.new", data); set_mtime(fsdir + "/list.new", t);
	rename((fsdir + "/list.new").c_str(), (fsdir + "/list").c_str());
}
static std::set<Str> parse_list(const Str &data) {
	std::set<Str> r; size_t i = 0;
	while (i < data.size()) {
		size_t e = data.find('\n', i); if (e == Str::npos) e = data.size();
		if (e > i) r.insert(data.substr(i, e - i));
		i = e + 1;
	}
	return r;
}

struct Ev { bool load; Str name; void *obj; };
static std::vector<Ev> evlog;
static uintptr_t next_obj; static struct my_fileset *cur_fs; static int cb_config; static void *fs_user_expected; static Str prefix;
static Str strip(const char *f) {
	if (!f) return "(null)";
	Str s = f;
	if (s.compare(0, prefix.size(), prefix) == 0) return s.substr(prefix.size());
	return "?" + s;
}
static void *load_cb(struct my_fileset *fs, const char *f) {
	Off o;
	MC_CHECK(!cur_fs || fs == cur_fs, "load callback got another file set");
	MC_CHECK(my_fileset_user(fs) == fs_user_expected, "my_fileset_user() inside the load callback gives another pointer");
	Str n = strip(f);
	void *p = (cb_config & 1) && n == "b" ? nullptr : (void *)(0x1000 + 16 * ++next_obj);
	evlog.push_back({ true, n, p });
	return p;
}
static void unload_cb(struct my_fileset *fs, const char *f, void *p) {
	Off o;
	MC_CHECK(my_fileset_user(fs) == fs_user_expected, "my_fileset_user() inside the unload callback gives another pointer");
	evlog.push_back({ false, strip(f), p });
}

struct FsModel {
	std::map<Str, void *> set;
	bool have = false; ino_t ino = 0; time_t mtime = 0;     // the list file as last loaded
	bool maybe = false;                                      // the next reload may or may not read the list again
	bool log = true;
	// does the observed callback log and content fit this target set?
	bool fits(const std::set<Str> &target, const std::map<Str, void *> &now, Str *why) const {
		std::map<Str, int> loads, unloads; std::map<Str, void *> lobj, uobj;
		for (auto &e : evlog) { if (e.load) { loads[e.name]++; lobj[e.name] = e.obj; } else { unloads[e.name]++; uobj[e.name] = e.obj; } }
		for (auto &n : target) if (!now.count(n)) { *why = "listed file '" + n + "' is not in the set"; return false; }
		for (auto &p : now) if (!target.count(p.first)) { *why = "'" + p.first + "' is in the set but should not be"; return false; }
		if (!log) return true;
		for (auto &p : now) {
			auto it = set.find(p.first);
			if (it != set.end()) {
				if (p.second != it->second) { *why = "'" + p.first + "' stayed listed but its object changed"; return false; }
				if (loads.count(p.first)) { *why = "'" + p.first + "' stayed listed but was loaded again"; return false; }
				if (unloads.count(p.first)) { *why = "'" + p.first + "' stayed listed but was unloaded"; return false; }
			} else {
				if (loads[p.first] != 1) { *why = "'" + p.first + "' appeared but was loaded " + std::to_string(loads[p.first]) + " times"; return false; }
				if (p.second != lobj[p.first]) { *why = "'" + p.first + "' does not carry the object its load returned"; return false; }
				if (unloads.count(p.first)) { *why = "'" + p.first + "' appeared and was unloaded"; return false; }
			}
		}
		for (auto &p : set) if (!now.count(p.first)) {
			if (unloads[p.first] != 1) { *why = "'" + p.first + "' dropped out but was unloaded " + std::to_string(unloads[p.first]) + " times"; return false; }
			if (uobj[p.first] != p.second) { *why = "'" + p.first + "' was unloaded with another object"; return false; }
			if (loads.count(p.first)) { *why = "'" + p.first + "' dropped out but was loaded"; return false; }
		}
		for (auto &l : loads) if (l.second && !now.count(l.first)) { *why = "'" + l.first + "' was loaded but is not in the set"; return false; }
		for (auto &l : unloads) if (l.second && !set.count(l.first)) { *why = "'" + l.first + "' was unloaded but was not in the set"; return false; }
		return true;
	}
	std::set<Str> names() const { std::set<Str> s; for (auto &p : set) s.insert(p.first); return s; }
};
static std::map<Str, void *> content(struct my_fileset *fs) {
	std::map<Str, void *> m; const char *f; void *p; Str last; size_t i;
	for (i = 0;; i++) {
		f = (const char *)1; p = (void *)1;
		if (!my_fileset_get(fs, i, &f, &p)) break;
		tr();
		Str n = strip(f);
		MC_CHECK(n[0] != '?', "entry %zu has the name '%s', not '<directory of the list>/<line>'", i, f);
		MC_CHECK(i == 0 || strcmp(last.c_str(), f) < 0, "entries are not sorted by name: '%s' before '%s'", last.c_str(), f);
		last = f; m[n] = p;
		MC_CHECK(i < 100000, "endless set");
	}
	for (size_t k : { i + 1, i + 7, (size_t)-1 }) MC_CHECK(!my_fileset_get(fs, k, &f, &p), "my_fileset_get(%zu) succeeds on a set of %zu", k, i);
	return m;
}
enum { R_NONE, R_PLAIN, R_NOOPEN, R_ERR0, R_ERR3, R_SWAP_BEFORE, R_SWAP_AFTER, NR };
static int rmode;
static void fs_hook(const char *what, const char *path, bool after) {
	if (strcmp(what, "fopen")) return;
	if (rmode == R_SWAP_BEFORE && !after) list_replace("a\nb", cur_mtime);
	if (rmode == R_SWAP_AFTER && after) list_replace("b\na\n", ++cur_mtime);
}
static bool fs_fail(const char *what, const char *path, int *e) {
	if (rmode == R_NOOPEN && !strcmp(what, "fopen")) { *e = EMFILE; return true; }
	return false;
}
static void fs_reload(struct my_fileset *fs, FsModel &m, int mode, const char *step) {
	Str lp = fsdir + "/list", data; struct stat s;
	bool there = stat(lp.c_str(), &s) == 0, isdir = there && S_ISDIR(s.st_mode);
	bool changed = there && (!m.have || m.ino != s.st_ino || m.mtime != s.st_mtime);
	if (there && !isdir) read_file(lp, data);
	evlog.clear(); fopen_fired = false; rmode = mode; on_hook = fs_hook; want_fail = fs_fail;
	short_read = mode == R_ERR0 ? 0 : mode == R_ERR3 ? 3 : -1;
	armed = true; my_fileset_reload(fs); armed = false; tr();
	on_hook = nullptr; want_fail = nullptr; short_read = -1;
	auto live = [&](const Str &d) { std::set<Str> r; for (auto &n : parse_list(d)) { struct stat q; if (stat((fsdir + "/" + n).c_str(), &q) == 0) r.insert(n); } return r; };
	std::map<Str, void *> now = content(fs);
	std::vector<std::set<Str>> cand; std::vector<int> newrec; // acceptable results, 1: this list counts as loaded
	bool fired = fopen_fired;
	bool failed = isdir || (fired && (mode == R_NOOPEN || mode == R_ERR0 || mode == R_ERR3));
	bool maybe = false;
	if (!there || !changed || failed) {
		cand.push_back(m.names());
		if (there && !isdir && !failed && m.maybe) cand.push_back(live(data));
		if (there && !failed) m.maybe = false; else maybe = m.maybe;
	} else {
		if (mode == R_SWAP_BEFORE && fired) { cand.push_back(live("a\nb")); maybe = true; }
		else if (mode == R_SWAP_AFTER && fired) { cand.push_back(live(data)); cand.push_back(live("b\na\n")); }
		else cand.push_back(live(data));
		m.have = true; m.ino = s.st_ino; m.mtime = s.st_mtime;
		if (mode == R_SWAP_BEFORE && fired) { stat(lp.c_str(), &s); m.ino = s.st_ino; m.mtime = s.st_mtime; }
	}
	m.maybe = maybe;
	Str why, first;
	for (auto &c : cand) {
		if (m.fits(c, now, &why)) { m.set = now; valid(); return; }
		if (first.empty()) first = why;
	}
	fail("after %s (%s%s): %s", step, !there ? "list file missing" : !changed ? "list file unchanged" : "list file changed", failed ? ", read failed" : "", first.c_str());
}

static const char *mut_names[] = { "nothing", "inplace", "replace-same-mtime", "replace-older", "toggle-a", "toggle-b", "remove-list", "touch", "list-is-directory" };
enum { M_NONE, M_INPLACE, M_RSAME, M_ROLD, M_TA, M_TB, M_RM, M_TOUCH, M_DIR };
static void toggle(const char *n) { Str p = fsdir + "/" + n; if (exists(p)) unlink(p.c_str()); else write_file(p, n); }

static void do_mut(int mut, int arg) {
	Str lp = fsdir + "/list"; struct stat s;
	bool isdir = stat(lp.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
	if (isdir && mut != M_NONE && mut != M_TA && mut != M_TB) rmdir(lp.c_str());
	switch (mut) {
	case M_NONE: break;
	case M_INPLACE: list_inplace(LISTS[arg]); break;
	case M_RSAME: list_replace(LISTS[arg], cur_mtime); break;
	case M_ROLD: list_replace(LISTS[arg], cur_mtime - 1000); break;
	case M_TA: toggle("a"); break;
	case M_TB: toggle("b"); break;
	case M_RM: unlink(lp.c_str()); break;
	case M_TOUCH: if (!exists(lp)) list_inplace(""); set_mtime(lp, ++cur_mtime); break;
	case M_DIR: unlink(lp.c_str()); mkdir(lp.c_str(), 0755); break;
	}
}
static struct my_fileset *fs_open(int cfg) {
	Str p = (cfg & 2) ? "list" : fsdir + "/list";
	prefix = (cfg & 2) ? "./" : fsdir + "/";
	cb_config = cfg; fs_user_expected = (void *)(uintptr_t)(0x77 + cfg);
	char *copy = strdup(p.c_str());
	struct my_fileset *fs = my_fileset_init(copy, (cfg & 4) ? nullptr : load_cb, (cfg & 8) ? nullptr : unload_cb, fs_user_expected);
	tr();
	memset(copy, 'X', strlen(copy)); free(copy);       // the set must not depend on the caller's string
	MC_CHECK(fs != nullptr, "my_fileset_init() returned NULL");
	MC_CHECK(my_fileset_user(fs) == fs_user_expected, "my_fileset_user() does not return the pointer given");
	cur_fs = fs;
	return fs;
}
static void fs_close(struct my_fileset *fs, FsModel &m) {
	evlog.clear(); cur_fs = fs;
	armed = true; my_fileset_destroy(&fs); armed = false; tr();
	MC_CHECK(fs == nullptr, "my_fileset_destroy() left the pointer set");
	if (m.log) {
		Str why; std::map<Str, void *> none;
		if (!m.fits({}, none, &why)) fail("destroying the set: %s", why.c_str());
	}
	my_fileset_destroy(&fs); tr();
}

// case: config, then (mutation, argument, reload mode) triples
static void check_fs(const Case &c) {
	int cfg = c.b[0][0]; next_obj = 0; cur_mtime = 1000000;
	for (const char *n : { "a", "b" }) { Str p = fsdir + "/" + n; if ((cfg >> (n[0] == 'a' ? 4 : 5)) & 1) { if (!exists(p)) write_file(p, n); } else unlink(p.c_str()); }
	{ Str lp = fsdir + "/list"; rmdir(lp.c_str()); }
	list_replace(LISTS[c.b[0][1]], cur_mtime);
	struct my_fileset *fs = fs_open(cfg);
	FsModel m; m.log = !(cfg & 12);
	MC_CHECK(content(fs).empty(), "a new set is not empty");
	const Bytes &s = c.b[1]; char step[80]; uint64_t h = 17;
	for (size_t i = 0; i + 2 < s.size(); i += 3) {
		do_mut(s[i], s[i + 1]);
		snprintf(step, sizeof step, "step %zu: %s list %d, reload mode %d", i / 3, mut_names[s[i]], s[i + 1], s[i + 2]);
		if (s[i + 2] != R_NONE) fs_reload(fs, m, s[i + 2], step);
		else { evlog.clear(); auto now = content(fs); Str why; if (!m.fits(m.names(), now, &why)) fail("without a reload: %s", why.c_str()); }
		uint64_t n = 0; for (auto &p : m.set) n = n * 3 + (p.first == "a" ? 1 : 2);
		h = mix(h, n * 100 + s[i] * 10 + s[i + 2]); state(h);
		note("%zu entr%s after %s; ", m.set.size(), m.set.size() == 1 ? "y" : "ies", step);
	}
	fs_close(fs, m);
}
static void check_fsnames(const Case &c) {       // config, then lists of names, each list one reload
	int cfg = c.b[0][0]; next_obj = 0; cur_mtime = 1000000;
	Str lp = fsdir + "/list"; rmdir(lp.c_str());
	mkdir((fsdir + "/sub").c_str(), 0755);
	std::set<Str> made;
	list_replace("", cur_mtime);
	struct my_fileset *fs = fs_open(cfg); FsModel m; m.log = !(cfg & 12);
	for (size_t k = 1; k < c.b.size(); k++) {
		Str data(c.b[k].begin(), c.b[k].end());
		for (auto &n : parse_list(data)) if (n.size() <= 255 && made.insert(n).second) write_file(fsdir + "/" + n, n);
		if (k & 1) list_inplace(data); else list_replace(data, cur_mtime);
		char step[60]; snprintf(step, sizeof step, "reload %zu", k);
		fs_reload(fs, m, R_PLAIN, step);
		for (auto &n : parse_list(data)) MC_CHECK(n.size() > 255 || m.set.count(n), "'%s' missing", n.c_str());
		state(mix(hbytes(5, data.data(), data.size()), m.set.size()));
		note("%zu entries; ", m.set.size());
	}
	fs_close(fs, m);
	for (auto &n : made) unlink((fsdir + "/" + n).c_str());
}
static void check_fsbig(const Case &c) {
	size_t n = getnum(c.b[0]), step = getnum(c.b[1]); 
	Str all, some; char b[40];
	for (size_t i = n; i-- > 0;) { snprintf(b, sizeof b, "n%zu\n", (i * 7919) % (n ? n : 1)); all += b; if (i % step == 0) some += b; }
	Case d; d.kind = K_FSNAMES; d.b = { B({0x30}), S(all.c_str()), S(some.c_str()), S(all.c_str()), S("") };
	check_fsnames(d);
}

// ========================================================================= C28
static Str spdir, spoolpath;
struct Incoming { Str data; };
static std::map<Str, Str> inc;            // regular, visible files waiting
static std::map<Str, Str> act;            // files in active
static int content_no;
static const char *NAMES[] = { "f1", "f2", "zz" };
enum { P_PLAIN, P_RENAMEFAIL, P_STATFAIL, P_VANISH, P_ARRIVE0 /* + hook index */ };
static int pmode; static Str parrive; static bool pfired, parrived, phandled; static Str pvanished;
static Str renamed;      // file a failing rename was asked to move
static void arrive(const Str &name) {
	Str data = name + " #" + std::to_string(++content_no);
	if (content_no % 3 == 0) data += Str(5000, 'x');
	write_file(spoolpath + "/staging", data);
	rename((spoolpath + "/staging").c_str(), (spoolpath + "/incoming/" + name).c_str());
	inc[name] = data;
}
static void sp_hook(const char *what, const char *path, bool after) {
	if (after) return;
	if (pmode >= P_ARRIVE0) {
		if (hook_no == pmode - P_ARRIVE0) { arrive(parrive); parrived = true; }
	}
	if (pmode == P_VANISH && !strcmp(what, "rename")) {
		const char *b = strrchr(path, '/'); pvanished = b ? b + 1 : path;
		unlink((spoolpath + "/incoming/" + pvanished).c_str()); inc.erase(pvanished); pfired = true;
	}
	hook_no++;
}
static bool sp_fail(const char *what, const char *path, int *e) {
	if (pmode == P_RENAMEFAIL && !strcmp(what, "rename")) { const char *b = strrchr(path, '/'); renamed = b ? b + 1 : path; pfired = true; *e = EXDEV; return true; }
	if (pmode == P_STATFAIL && !strcmp(what, "fstatat") && !pfired) { pfired = true; *e = EACCES; return true; }
	return false;
}
static int idle;         // fault-free polls in a row that found nothing although files were waiting
static void verify_dirs(const char *when) {
	Str d;
	for (auto &p : inc) { MC_CHECK(read_file(spoolpath + "/incoming/" + p.first, d), "%s: waiting file '%s' disappeared from incoming", when, p.first.c_str());
		MC_CHECK(d == p.second, "%s: content of waiting file '%s' changed", when, p.first.c_str()); }
	for (auto &p : act) { MC_CHECK(read_file(spoolpath + "/active/" + p.first, d), "%s: '%s' disappeared from active", when, p.first.c_str());
		MC_CHECK(d == p.second, "%s: content of '%s' in active changed", when, p.first.c_str()); }
}
static size_t count_entries(const Str &p) { size_t n = 0; DIR *d = opendir(p.c_str()); if (!d) return 0; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n++; closedir(d); return n; }
static size_t others;    // entries of incoming that must never be handed out
static bool poll1(struct spooldir *sp, int mode, const Str &arr, bool consume, const char *step, Str *got = nullptr) {
	std::map<Str, Str> before = inc;
	pmode = mode; parrive = arr; pfired = parrived = false; pvanished.clear(); renamed.clear(); hook_no = 0; on_hook = sp_hook; want_fail = sp_fail;
	armed = true; char *r = spooldir_next(sp); armed = false; tr();
	on_hook = nullptr; want_fail = nullptr;
	bool fault = pfired;
	// an older file of the same name that was handed out before makes way for the one being moved,
	// also when moving then fails
	for (auto &n : { renamed, pvanished }) if (!n.empty() && act.count(n) && !exists(spoolpath + "/active/" + n)) act.erase(n);
	if (r) {
		Str full = r, want = spoolpath + "/active/"; free(r);
		MC_CHECK(full.compare(0, want.size(), want) == 0, "%s: returned '%s', not a path in the active directory '%s'", step, full.c_str(), want.c_str());
		Str name = full.substr(want.size()), d;
		bool now_there = inc.count(name), was = before.count(name);
		MC_CHECK(now_there || was, "%s: returned '%s', which is not a waiting regular file", step, name.c_str());
		MC_CHECK(read_file(full, d), "%s: returned path '%s' does not exist", step, full.c_str());
		// a file of the same name may have arrived after this one was moved
		bool still = exists(spoolpath + "/incoming/" + name);
		if (still) {
			MC_CHECK(parrived && arr == name && was, "%s: '%s' was returned but is still in incoming", step, name.c_str());
			MC_CHECK(d == before[name], "%s: content of '%s' changed", step, name.c_str());
		} else {
			MC_CHECK(d == inc[name], "%s: content of '%s' changed", step, name.c_str());
			inc.erase(name);
		}
		act[name] = d;
		idle = 0;
		if (got) *got = name;
		verify_dirs(step);
		if (consume) { unlink(full.c_str()); act.erase(name); }
	} else {
		verify_dirs(step);
		if (fault || parrived) idle = 0;
		else if (!before.empty()) {
			idle++;
			MC_CHECK(idle < 2, "%s: nothing returned by two polls in a row although '%s' is waiting", step, before.begin()->first.c_str());
		} else idle = 0;
	}
	MC_CHECK(count_entries(spoolpath + "/incoming") == inc.size() + others, "%s: incoming holds %zu entries, expected %zu", step, count_entries(spoolpath + "/incoming"), inc.size() + others);
	MC_CHECK(count_entries(spoolpath + "/active") == act.size(), "%s: active holds %zu entries, expected %zu", step, count_entries(spoolpath + "/active"), act.size());
	valid();
	return r != nullptr;
}
static void clean_spool() {
	for (const char *sub : { "incoming", "active" }) {
		Str p = spoolpath + "/" + sub; DIR *d = opendir(p.c_str());
		if (!d) continue;
		std::vector<Str> v; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
		closedir(d);
		for (auto &n : v) { Str q = p + "/" + n; if (unlink(q.c_str()) != 0) wipe(q); }
	}
}
static struct spooldir *spool_open(int cfg) {
	// cfg&3: how the path is given; 4: files handed out stay in active
	inc.clear(); act.clear(); content_no = 0; idle = 0; others = 0;
	Str p;
	switch (cfg & 3) {
	case 0: p = spoolpath; break;
	case 1: p = "spool/../spool/"; break;                 // relative to the current directory
	case 2: p = spdir + "/link"; break;
	default: p = spoolpath + "//."; break;
	}
	char *cp = strdup(p.c_str());
	armed = true; on_hook = nullptr; want_fail = nullptr;
	struct spooldir *sp = spooldir_init(cp); armed = false; tr();
	memset(cp, 'X', strlen(cp)); free(cp);
	MC_CHECK(sp, "spooldir_init() returned NULL");
	MC_CHECK(exists(spoolpath + "/incoming") && exists(spoolpath + "/active"), "spooldir_init() did not create its directories");
	return sp;
}
static void drain(struct spooldir *sp, bool consume) {
	int polls = 0; size_t n = inc.size();
	while (!inc.empty()) { MC_CHECK(polls++ <= (int)(2 * n + 4), "waiting files are not handed out"); poll1(sp, P_PLAIN, "", consume, "draining"); }
	MC_CHECK(!poll1(sp, P_PLAIN, "", consume, "after draining"), "a file was returned although none is waiting");
	spooldir_destroy(&sp); tr();
	MC_CHECK(sp == nullptr, "spooldir_destroy() left the pointer set");
	spooldir_destroy(&sp);
	verify_dirs("after destroying");
}
enum { O_ARR = 0 /* +name index */, O_HID = 3, O_DIR, O_LINK, O_FIFO, O_LDIR, O_TAKE /* +name index: somebody removes it */, O_POLL = 11 /* +mode */ };
static void check_spool(const Case &c) {
	int cfg = c.b[0][0]; clean_spool();
	if (cfg & 8) { rmdir((spoolpath + "/incoming").c_str()); rmdir((spoolpath + "/active").c_str()); }
	if (cfg & 16) { mkdir((spoolpath + "/incoming").c_str(), 0755); }
	struct spooldir *sp = nullptr;
	if (!(cfg & 32)) sp = spool_open(cfg);
	else { inc.clear(); act.clear(); content_no = 0; others = 0; mkdir((spoolpath + "/incoming").c_str(), 0755); }
	bool consume = !(cfg & 4); uint64_t h = 3; bool sp_other[5] = {};
	for (size_t i = 0; i < c.b[1].size(); i++) {
		int op = c.b[1][i]; char step[60]; snprintf(step, sizeof step, "step %zu (op %d)", i, op);
		if (!sp && op >= O_POLL) { auto a = inc; size_t o = others; int cn = content_no; sp = spool_open(cfg); inc = a; others = o; content_no = cn; }
		if (op < 3) { arrive(NAMES[op]); idle = 0; }
		else if (op < O_TAKE) {
			int k = op - O_HID; Str in = spoolpath + "/incoming/";
			if (!sp_other[k]) {
				sp_other[k] = true; others++;
				if (op == O_HID) write_file(in + ".hid", "hidden"); else if (op == O_DIR) mkdir((in + "d0").c_str(), 0755);
				else if (op == O_LINK) { if (symlink("nowhere", (in + "ln").c_str())) {} } else if (op == O_FIFO) mkfifo((in + "ff").c_str(), 0644);
				else if (symlink(spdir.c_str(), (in + "ld").c_str())) {}
			}
		}
		else if (op < O_POLL) { const char *n = NAMES[op - O_TAKE]; unlink((spoolpath + "/incoming/" + n).c_str()); inc.erase(n); idle = 0; }
		else { int mode = op - O_POLL; Str got = "-"; poll1(sp, mode, mode >= P_ARRIVE0 ? NAMES[mode % 2] : "", consume, step, &got); note("%s -> %s; ", step, got.c_str()); h = hstr(h, got.c_str()); }
		h = mix(h, op * 64 + inc.size() * 8 + act.size()); state(h);
	}
	if (!sp) { auto a = inc; size_t o = others; int cn = content_no; sp = spool_open(cfg); inc = a; others = o; content_no = cn; }
	drain(sp, consume);
}
static void check_spoolname(const Case &c) {
	clean_spool(); struct spooldir *sp = spool_open(0);
	for (auto &n : c.b) arrive(Str(n.begin(), n.end()));
	drain(sp, true); state(hbytes(9, c.b[0].data(), c.b[0].size()));
}
static void check_spoolmany(const Case &c) {
	clean_spool(); size_t n = getnum(c.b[0]), at = getnum(c.b[1]);
	struct spooldir *sp = spool_open(0); char b[40];
	for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "file-%zu", i); arrive(b); }
	for (size_t i = 0; i < at && i < n; i++) poll1(sp, P_PLAIN, "", true, "poll");
	arrive("late"); idle = 0;
	drain(sp, true); state(mix(n, at)); 
}

// whatever its size, permissions, times, links and owner: a regular visible file is handed out
static const long long KSIZE[] = { 0, 1, 511, 4096, 65536, (1 << 20) + 1, 0x7fffffff, 0x80000000ll, 0x100000001ll };
static const int KMODE[] = { 0644, 0, 0200, 0444, 0111, 04755, 01777 };
static const long long KTIME[] = { 1000000, 0, -1, 4102444800ll, 0x80000000ll, 0x180000000ll };
static void check_spoolkind(const Case &c) {
	clean_spool(); struct spooldir *sp = spool_open(0); Str in = spoolpath + "/incoming/", st = spoolpath + "/staging";
	long long size = KSIZE[c.b[0][0]], t = KTIME[c.b[0][2]]; int front = c.b[0][5];
	for (int i = 0; i < front; i++) arrive("f" + std::to_string(i));
	int fd = open(st.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); MC_CHECK(fd >= 0 && ftruncate(fd, size) == 0, "mc: cannot make the file");
	if (c.b[0][4] && fchown(fd, 65534, 65534)) {}
	fchmod(fd, KMODE[c.b[0][1]]); struct timespec ts[2] = { { (time_t)t, 0 }, { (time_t)t, 1 } }; futimens(fd, ts);
	struct stat a, b; close(fd);
	for (int i = 0; i < c.b[0][3]; i++) if (link(st.c_str(), (spoolpath + "/other" + std::to_string(i)).c_str())) {}
	stat(st.c_str(), &a); rename(st.c_str(), (in + "it").c_str()); bool seen = false;
	for (int k = 0; k < 2 * front + 4 && !(seen && inc.empty()); k++) {
		armed = true; on_hook = nullptr; want_fail = nullptr; char *r = spooldir_next(sp); armed = false; tr(); if (!r) continue;
		Str n = r, want = spoolpath + "/active/"; free(r); MC_CHECK(n.compare(0, want.size(), want) == 0, "returned '%s'", n.c_str()); n = n.substr(want.size());
		if (n == "it") { MC_CHECK(!seen, "the file is handed out twice"); seen = true;
			MC_CHECK(stat((want + n).c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_size == b.st_size && a.st_mode == b.st_mode && a.st_nlink == b.st_nlink && a.st_uid == b.st_uid && a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec, "the file handed out is not the file that was waiting");
			MC_CHECK(!exists(in + n), "the file is still in incoming");
		} else { Str d; MC_CHECK(inc.count(n) && read_file(want + n, d) && d == inc[n], "'%s' is not a waiting file, or its content changed", n.c_str()); inc.erase(n); }
	}
	MC_CHECK(seen && inc.empty(), "a waiting file of %lld octets, mode %o, time %lld, %d more link(s), owner %u is not handed out", size, KMODE[c.b[0][1]], t, c.b[0][3], (unsigned)a.st_uid);
	armed = true; char *r = spooldir_next(sp); armed = false; MC_CHECK(!r, "a file is returned although none is waiting"); spooldir_destroy(&sp);
	for (int i = 0; i < c.b[0][3]; i++) unlink((spoolpath + "/other" + std::to_string(i)).c_str());
	unlink((spoolpath + "/active/it").c_str()); state(mix(hbytes(19, c.b[0].data(), c.b[0].size()), 1)); valid(); note("handed out");
}
// ========================================================================= enumeration
static void enum_c27() {
	Str cwd = wdir(); fsdir = cwd + "/fs"; mkdir(fsdir.c_str(), 0755);
	if (chdir(fsdir.c_str())) {}
	struct Step { int m, a, r; };
	std::vector<Step> full, red, tiny;
	for (int r = 0; r < NR; r++) {
		for (int m = 0; m <= M_DIR; m++) {
			bool withlist = m >= M_INPLACE && m <= M_ROLD;
			for (int a = 0; a < (withlist ? NL : 1); a++) {
				if (m == M_NONE && r == R_NONE) continue;
				full.push_back({ m, a, r });
				bool keep = !withlist || (thorough ? (a == 1 || a == 2 || a == 5) && (m != M_ROLD || a == 2) : m == M_INPLACE ? a == 1 || a == 5 : a == 2);
				if (keep && (r != R_ERR0 || m == M_INPLACE)) red.push_back({ m, a, r });
				if ((r == R_PLAIN || r == R_NOOPEN || r == R_SWAP_AFTER) && (m == M_NONE || m == M_TA || m == M_RM || (m == M_INPLACE && (a == 1 || a == 2)) || (m == M_RSAME && a == 4))) tiny.push_back({ m, a, r });
			}
		}
	}
	auto seqs = [&](const std::vector<Step> &al, int depth, int cfg, int first) {
		std::vector<size_t> ix(depth, 0);
		for (;;) {
			Bytes s; for (int i = 0; i < depth; i++) { s.push_back(al[ix[i]].m); s.push_back(al[ix[i]].a); s.push_back(al[ix[i]].r); }
			run(K_FS, { B({ cfg, first }), s });
			int k = depth - 1; while (k >= 0 && ++ix[k] == al.size()) ix[k--] = 0;
			if (k < 0) break;
		}
	};
	for (int cfg : { 0x30, 0x00, 0x10, 0x20, 0x31, 0x32, 0x34, 0x38, 0x3c, 0x13 }) for (int first : { 0, 2, 5 }) seqs(full, 1, cfg, first);
	for (int cfg : { 0x30, 0x21, 0x3e }) seqs(full, 2, cfg, 2);
	seqs(red, 3, 0x30, thorough ? 1 : 2);
	seqs(tiny, 4, 0x31, 1);
	if (thorough) { seqs(red, 3, 0x10, 0); seqs(full, 3, 0x30, 3); seqs(tiny, 5, 0x30, 2); }
	// names
	std::vector<Bytes> pool = { S("a"), S("aa"), S("B"), S("a-b"), S("sub/a"), S("sub"), B({ 0xff, 'x' }), S(".hidden"), S("two words"), S("%s%n"), rep('l', 200), rep('m', 255), rep('n', 256), S(" lead"), S("tab\tx"), S("#c") };
	pool.erase(pool.begin() + 5);
	auto join = [](const std::vector<Bytes> &v, bool nl) { Bytes r; for (size_t i = 0; i < v.size(); i++) { app(r, v[i]); if (nl || i + 1 < v.size()) r.push_back('\n'); } return r; };
	for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < pool.size(); j++) for (size_t k = 0; k < pool.size(); k++) {
		if (i == j || j == k || i == k) continue;
		run(K_FSNAMES, { B({ 0x30 }), join({ pool[i], pool[j], pool[k] }, true), join({ pool[k], pool[i] }, false), join({ pool[j], pool[i] }, true) });
	}
	for (int cfg : { 0x30, 0x32, 0x3c }) for (auto &n : pool) run(K_FSNAMES, { B({ cfg }), n, S(""), cat({ n, S("\n") }) });
	for (size_t n : { 255, 256, 257, 512, 999, 1000, 1001, 1024, 1025, 2049, 4096, 4097 }) for (size_t st : { 2, 3 }) run(K_FSBIG, { num(n), num(st) });
	if (thorough) run(K_FSBIG, { num(70000), num(2) });
	// long lines: detours that end at a file, and lines no path can be as long as
	for (size_t l : { 250, 254, 255, 256, 257, 500, 510, 511, 512, 513, 514, 600, 1000, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 3000, 3600, 4095, 4096, 5000, 8192, 70000 }) for (int last = 0; last < 2; last++) {
		Bytes d; while (d.size() + 7 < l) app(d, S("sub/../")); while (d.size() + 2 < l) app(d, S("./")); if (d.size() + 1 < l) d.push_back('/'); d.push_back('a'); if (l % 2 && d[d.size() - 2] == '/' && d[0] == '/') continue;
		Bytes two = last ? cat({ S("a\nz\n"), d }) : cat({ d, S("\nz\na\n") }); run(K_FSNAMES, { B({ 0x30 }), two, S("a\n"), two, cat({ d, S("\n"), d }), S("a\nz\n") }); run(K_FSNAMES, { B({ 0x32 }), two, S("z\na\n"), S("a") });
	}
	for (size_t n = 0; n <= (thorough ? 700 : 130); n++) for (size_t st : { 1, 2, 5 }) if (n < 40 || st == 2) run(K_FSBIG, { num(n), num(st) });
}
static void enum_c28() {
	spdir = wdir(); spoolpath = spdir + "/spool"; mkdir(spoolpath.c_str(), 0755);
	if (symlink("spool", (spdir + "/link").c_str())) {}
	char *rp = realpath(spoolpath.c_str(), nullptr); spoolpath = rp; free(rp);
	if (chdir(spdir.c_str())) {}
	std::vector<int> ops, red;
	for (int i = 0; i < O_POLL + P_ARRIVE0; i++) ops.push_back(i);
	for (int i = 0; i < 14; i++) ops.push_back(O_POLL + P_ARRIVE0 + i);
	red = { 0, 1, O_HID, O_DIR, O_LINK, O_TAKE, O_POLL + P_PLAIN, O_POLL + P_RENAMEFAIL, O_POLL + P_STATFAIL, O_POLL + P_VANISH, O_POLL + P_ARRIVE0 + 2, O_POLL + P_ARRIVE0 + 5 };
	auto seqs = [&](const std::vector<int> &al, int depth, int cfg) {
		std::vector<size_t> ix(depth, 0);
		for (;;) {
			Bytes s; for (int i = 0; i < depth; i++) s.push_back(al[ix[i]]);
			run(K_SPOOL, { B({ cfg }), s });
			int k = depth - 1; while (k >= 0 && ++ix[k] == al.size()) ix[k--] = 0;
			if (k < 0) break;
		}
	};
	for (int cfg = 0; cfg < 64; cfg++) seqs(ops, 1, cfg);
	for (int cfg : { 0, 5, 8, 10, 32, 39 }) seqs(ops, 2, cfg);
	for (int cfg : { 0, 4 }) seqs(ops, 3, cfg);
	for (int cfg : { 0 }) seqs(red, thorough ? 5 : 4, cfg);
	if (thorough) { seqs(red, 4, 4); seqs(red, 4, 32); seqs(ops, 4, 0); }
	std::vector<Bytes> names = { S("a"), S("-"), S("%s%n%d"), S("two words"), S("a.b"), S("~"), S("x\ny"), B({ 0xff, 0xfe }), S("#") };
	for (size_t l = 1; l <= 255; l++) names.push_back(rep('q', l));
	for (auto &n : names) run(K_SPOOLNAME, { n });
	for (auto &n : names) run(K_SPOOLNAME, { n, S("b1"), S("b2") });
	for (int z = 0; z < 9; z++) for (int m = 0; m < 7; m++) for (int t = 0; t < 6; t++) for (int l : { 0, 1, 3 }) for (int o = 0; o < 2; o++) for (int f : { 0, 1, 3 }) run(K_SPOOLKIND, { B({ z, m, t, l, o, f }) });
	for (size_t n = 1; n <= (thorough ? 2000 : 400); n += n < 10 ? 1 : n < 100 ? 30 : 150) for (size_t at : { (size_t)0, (size_t)1, n / 2, n }) run(K_SPOOLMANY, { num(n), num(at) });
}
static void setup_dirs() {
	static bool done; if (done) return; done = true;
	if (!strcmp(property, "C27")) { fsdir = Str(wdir()) + "/fs"; mkdir(fsdir.c_str(), 0755); if (chdir(fsdir.c_str())) {} }
	else { spdir = wdir(); spoolpath = spdir + "/spool"; mkdir(spoolpath.c_str(), 0755); if (symlink("spool", (spdir + "/link").c_str())) {}
		char *rp = realpath(spoolpath.c_str(), nullptr); spoolpath = rp; free(rp); if (chdir(spdir.c_str())) {} }
}
void mc::enumerate() { if (!strcmp(property, "C27")) enum_c27(); else enum_c28(); }
void mc::check(const Case &c) {
	setup_dirs();
	switch (c.kind) {
	case K_FS: check_fs(c); break;
	case K_FSNAMES: check_fsnames(c); break;
	case K_FSBIG: check_fsbig(c); break;
	case K_SPOOL: check_spool(c); break;
	case K_SPOOLNAME: check_spoolname(c); break;
	case K_SPOOLMANY: check_spoolmany(c); break;
	case K_SPOOLKIND: check_spoolkind(c); break;
	}
}
