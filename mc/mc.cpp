#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define HAVE_ASAN 1
# endif
#endif
#ifdef HAVE_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char *__asan_default_options() {
	return "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
	       "hard_rss_limit_mb=3000:max_malloc_fill_size=65536:malloc_fill_byte=190:"
	       "detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=1:symbolize=1:print_legend=0";
}
#endif

namespace mc {

bool thorough, deepest; unsigned lead; uint64_t seed = 1; const char *property = "?"; bool sampling;
volatile int64_t live_blocks; int nworkers = 8, worker_id = -1; const char *scratch_dir = "/tmp";

enum { CASEBUF = 1 << 20, NSAMPLE = 12, SAMPLELEN = 600, NINFO = 16, TABLE_BITS = 21 };
struct Worker {
	volatile uint64_t seq;          // heartbeat: cases started
	volatile uint64_t units;
	uint64_t cases, transitions, validated, nstates, states_dropped;
	volatile int has_case; int kind; uint32_t clen; uint64_t cidx;
	int failed, finished, notexh, timedout;
	char msg[4096];
	char why[200];
	int nsample; char sample[NSAMPLE][SAMPLELEN];
	char ikey[NINFO][48]; uint64_t ival[NINFO];
	uint8_t cbuf[CASEBUF];
};
static Worker *W;                     // shared array
static Worker *me; static Worker dummy_static;
static uint64_t *table;               // this worker's state table (shared mapping)
static uint64_t **tables;
uint64_t *transitions = &dummy_static.transitions, *validated = &dummy_static.validated;
static uint64_t case_counter;         // enumeration index
static uint64_t unit_counter;
static uint64_t stop_after = UINT64_MAX; // prefix replay: stop after executing this many cases
static char notebuf[SAMPLELEN]; static char sampled_kinds[256];
static double t_start, deadline;
static bool leakcheck = true;

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

#ifdef HAVE_ASAN
static void on_malloc(const volatile void *, size_t) { __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p) __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); }
#endif

void hex_append(char *out, size_t cap, const void *p, size_t n) {
	size_t l = strlen(out); const uint8_t *b = (const uint8_t *)p;
	size_t i;
	for (i = 0; i < n && l + 20 < cap; i++) { snprintf(out + l, cap - l, "%02x", b[i]); l += 2; }
	if (i < n) snprintf(out + l, cap - l, "..[%zu]", n);
}
void Esc::init(const char *t, size_t n) {
	size_t l = 0; if (!t) { strcpy(s, "(null)"); return; }
	size_t i;
	for (i = 0; i < n && l + 24 < sizeof s; i++) {
		unsigned char c = t[i];
		if (c >= 32 && c < 127 && c != '`') s[l++] = c;
		else l += snprintf(s + l, 8, "`%02x", c);
	}
	s[l] = 0;
	if (i < n) snprintf(s + l, sizeof s - l, "..[%zu]", n);
}

void fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
	me->failed = 1;
	_exit(3);
}
void note(const char *fmt, ...) {
	if (!sampling) return;
	va_list ap; va_start(ap, fmt);
	size_t l = strlen(notebuf);
	vsnprintf(notebuf + l, sizeof notebuf - l, fmt, ap); va_end(ap);
}
bool state(uint64_t h) {
	if (!table) return true;
	if (h == 0) h = 1;
	uint64_t mask = (1ULL << TABLE_BITS) - 1, i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - TABLE_BITS);
	for (int k = 0;; k++, i = (i + 1) & mask) {
		if (table[i] == h) return false;
		if (table[i] == 0) break;
		if (k > 64) { me->states_dropped++; return true; }
	}
	if (me->nstates > mask * 3 / 4) { me->states_dropped++; return true; }
	table[i] = h; me->nstates++;
	return true;
}
void add_cases(uint64_t n) { me->cases += n; me->seq++; }
void not_exhaustive(const char *why) { me->notexh = 1; snprintf(me->why, sizeof me->why, "%s", why); }
void info(const char *key, uint64_t v) {
	for (int i = 0; i < NINFO; i++) {
		if (!me->ikey[i][0]) snprintf(me->ikey[i], sizeof me->ikey[i], "%s", key);
		if (!strcmp(me->ikey[i], key)) { me->ival[i] += v; return; }
	}
}
bool out_of_time() { if (deadline && now() > deadline) { me->timedout = 1; return true; } return false; }

const char *wdir() {
	static char buf[300]; static int made = -2;
	if (made != worker_id) {
		snprintf(buf, sizeof buf, "%s/w%d", scratch_dir, worker_id);
		mkdir(buf, 0755); made = worker_id;
	}
	return buf;
}

static void put(const Case &c) {
	me->has_case = 0;
	uint32_t o = 0;
	auto w = [&](const void *p, uint32_t n) { if (o + n <= CASEBUF) memcpy(me->cbuf + o, p, n); o += n; };
	uint32_t nb = c.b.size(); w(&nb, 4);
	for (auto &x : c.b) { uint32_t n = x.size(); w(&n, 4); w(x.data(), n); }
	if (o > CASEBUF) { fprintf(stderr, "mc: case too large\n"); _exit(98); }
	me->kind = c.kind; me->clen = o; me->has_case = 1;
}
static Case get(const Worker &w) {
	Case c; c.kind = w.kind; uint32_t o = 0, nb;
	memcpy(&nb, w.cbuf, 4); o = 4;
	for (uint32_t i = 0; i < nb; i++) { uint32_t n; memcpy(&n, w.cbuf + o, 4); o += 4; c.b.emplace_back(w.cbuf + o, w.cbuf + o + n); o += n; }
	return c;
}

static void exec(const Case &c) {
	put(c);
	me->cidx = me->cases;
	me->seq++; me->cases++;
	bool first = c.kind >= 0 && c.kind < 256 && !sampled_kinds[c.kind];
	sampling = worker_id == 0 && me->nsample < NSAMPLE && first;
	if (sampling) notebuf[0] = 0;
	int64_t before = live_blocks;
	// whatever earlier calls left in errno must not matter
	static const int stale[] = { ERANGE, 0, EINTR, EINVAL, EAGAIN, ENOMEM, ENOENT };
	uint64_t h = hbytes(c.kind, me->cbuf, me->clen < 256 ? me->clen : 256);
	int left = stale[h % 7];
	lead = (h >> 32) & 7;
	errno = left;
	check(c);
	if (leakcheck && live_blocks != before) {
		// first-call allocations inside libc are not leaks: only growth that repeats is
		int64_t b1 = live_blocks; errno = left; check(c); int64_t b2 = live_blocks; errno = left; check(c); int64_t b3 = live_blocks;
		if (b2 > b1 && b3 > b2) fail("memory leaked: %lld block(s) per execution", (long long)(b3 - b2));
	}
	if (sampling) {
		sampled_kinds[c.kind] = 1;
		char *s = me->sample[me->nsample];
		int l = snprintf(s, SAMPLELEN, "%s", kind_names[c.kind]);
		for (auto &x : c.b) {
			if (l > SAMPLELEN / 2) break;
			Hex h(x); if (strlen(h.s) > 120) strcpy(h.s + 110, "..");
			l += snprintf(s + l, SAMPLELEN - l, " %s", h.s[0] ? h.s : "-");
		}
		if (notebuf[0]) snprintf(s + l, SAMPLELEN - l, " => %s", notebuf);
		me->nsample++;
		sampling = false;
	}
	if (me->cases >= stop_after) { me->finished = 1; _exit(0); }
}
static const uint64_t CHUNK = 16;
void run(int kind, std::vector<Bytes> blobs) {
	uint64_t i = case_counter++;
	if ((i / CHUNK) % nworkers != (uint64_t)worker_id) return;
	if ((i & 1023) == 0 && out_of_time()) { me->finished = 1; _exit(0); }
	Case c{kind, std::move(blobs)};
	exec(c);
}
bool unit() {
	uint64_t i = unit_counter++;
	return i % nworkers == (uint64_t)worker_id;
}
void run_owned(int kind, std::vector<Bytes> blobs) {
	if ((me->cases & 1023) == 0 && out_of_time()) { me->finished = 1; _exit(0); }
	Case c{kind, std::move(blobs)};
	exec(c);
}

static void child_setup(int w, const char *errfile) {
	worker_id = w; me = &W[w]; table = tables ? tables[w] : nullptr;
	transitions = &me->transitions; validated = &me->validated;
	int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
#ifdef HAVE_ASAN
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
}

static void esc_json(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static void tail(const char *file, char *out, size_t cap) {
	out[0] = 0;
	FILE *f = fopen(file, "r"); if (!f) return;
	char line[1024]; size_t l = 0; int n = 0;
	while (fgets(line, sizeof line, f) && n < 40) {
		bool interesting = strstr(line, "ERROR") || strstr(line, "SUMMARY") || strstr(line, "runtime error") || strstr(line, "Assertion") || strstr(line, "    #") || strstr(line, "READ of") || strstr(line, "WRITE of") || strstr(line, "mc:");
		if (!interesting) continue;
		n++;
		size_t k = strlen(line);
		if (l + k + 1 >= cap) break;
		memcpy(out + l, line, k); l += k; out[l] = 0;
	}
	fclose(f);
}

// replay file: property, kind, then one hex line per blob
static void write_replay(const char *path, const Case &c, const char *why, int w, uint64_t prefix) {
	FILE *f = fopen(path, "w"); if (!f) return;
	fprintf(f, "property %s\nharness-kind %d %s\nworker %d of %d prefix %llu tier %s seed %llu\n", property, c.kind, kind_names[c.kind], w, nworkers,
	    (unsigned long long)prefix, thorough ? "thorough" : "quick", (unsigned long long)seed);
	fprintf(f, "blobs %zu\n", c.b.size());
	for (auto &x : c.b) { fputs("hex ", f); for (uint8_t v : x) fprintf(f, "%02x", v); fputc('\n', f); }
	for (auto &x : c.b) { Esc e(x); fprintf(f, "# text %s\n", e.s); }
	fprintf(f, "why\n%s\n", why);
	fclose(f);
}

// run f in a fresh process; returns 0 ok, 1 failed (message in out), 2 hang
template <class F> static int isolated(F f, double limit, char *out, size_t cap, const char *errfile) {
	Worker *w = &W[nworkers];
	memset((void *)w, 0, offsetof(Worker, cbuf));
	pid_t p = fork();
	if (p == 0) { child_setup(nworkers, errfile); table = nullptr; setpgid(0, 0); f(); me->finished = 1; _exit(0); }
	setpgid(p, p);
	double t0 = now(); uint64_t lastseq = 0;
	for (;;) {
		int st; pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) {
			kill(-p, SIGKILL);
			if (w->failed) { snprintf(out, cap, "%s", w->msg); return 1; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w->finished) return 0;
			char buf[3000]; tail(errfile, buf, sizeof buf);
			snprintf(out, cap, "crash (%s %d)\n%s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), buf);
			return 1;
		}
		if (w->seq != lastseq) { lastseq = w->seq; t0 = now(); }
		if (now() - t0 > limit) { kill(-p, SIGKILL); waitpid(p, &st, 0); snprintf(out, cap, "does not terminate (no result after %.0f s)", limit); return 2; }
		usleep(2000);
	}
}

static int cmp64(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }

static int main_(int argc, char **argv) {
	const char *evidence = nullptr, *replaydir = nullptr, *replay = nullptr; double limit = 0, hang = 20;
	for (int i = 1; i < argc; i++) {
		auto val = [&](const char *n) -> const char * { size_t l = strlen(n); return !strncmp(argv[i], n, l) ? argv[i] + l : nullptr; };
		const char *v;
		if ((v = val("--property="))) property = v;
		else if ((v = val("--out="))) evidence = v;
		else if ((v = val("--replaydir="))) replaydir = v;
		else if ((v = val("--replay="))) replay = v;
		else if ((v = val("--scratch="))) scratch_dir = v;
		else if ((v = val("--limit="))) limit = atof(v);
		else if ((v = val("--workers="))) nworkers = atoi(v);
		else if ((v = val("--seed="))) seed = strtoull(v, 0, 10);
		else if ((v = val("--hang="))) hang = atof(v);
		else if (!strcmp(argv[i], "--thorough")) thorough = true;
		else if (!strcmp(argv[i], "--deepest")) thorough = deepest = true;
		else if (!strcmp(argv[i], "--noleak")) leakcheck = false;
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
	}
	t_start = now(); if (limit) deadline = t_start + limit;
	auto shm = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
	W = (Worker *)shm(sizeof(Worker) * (nworkers + 2));
	me = &W[nworkers + 1];
	char err[400]; static char why[6000];
	if (replay) {
		Case c; c.kind = 0; char *line = (char *)malloc(4 << 20); FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
		unsigned long long prefix = 0; int w = 0, nw = nworkers;
		while (fgets(line, 4 << 20, f)) {
			if (!strncmp(line, "harness-kind ", 13)) c.kind = atoi(line + 13);
			else if (!strncmp(line, "worker ", 7)) sscanf(line, "worker %d of %d prefix %llu", &w, &nw, &prefix);
			else if (!strncmp(line, "hex ", 4)) { Bytes b; for (char *p = line + 4; p[0] > ' ' && p[1] > ' '; p += 2) { unsigned x; sscanf(p, "%2x", &x); b.push_back(x); } c.b.push_back(b); }
			else if (!strncmp(line, "why", 3)) break;
		}
		fclose(f); free(line);
		snprintf(err, sizeof err, "%s/replay.err", scratch_dir);
		int r = isolated([&] {
			if (prefix) { nworkers = nw; worker_id = w; stop_after = prefix; enumerate(); }
			else exec(c); }, 60, why, sizeof why, err);
		printf("%s\n", r ? why : "no violation");
		return r ? 1 : 0;
	}
	tables = (uint64_t **)calloc(nworkers + 2, sizeof *tables);
	for (int i = 0; i < nworkers; i++) tables[i] = (uint64_t *)shm(sizeof(uint64_t) << TABLE_BITS);
	fflush(stdout);
	std::vector<pid_t> pid(nworkers); std::vector<uint64_t> lastseq(nworkers, 0); std::vector<double> lastt(nworkers, now()); std::vector<int> st(nworkers, -1);
	auto errname = [&](int i) { snprintf(err, sizeof err, "%s/worker%d.err", scratch_dir, i); return err; };
	for (int i = 0; i < nworkers; i++) {
		pid[i] = fork();
		if (pid[i] == 0) { setpgid(0, 0); child_setup(i, errname(i)); enumerate(); me->finished = 1; _exit(0); }
		setpgid(pid[i], pid[i]);
	}
	int running = nworkers, bad = -1; bool hung = false;
	while (running) {
		for (int i = 0; i < nworkers && bad < 0; i++) {
			if (!pid[i]) continue;
			int s; pid_t r = waitpid(pid[i], &s, WNOHANG);
			if (r == pid[i]) {
				kill(-pid[i], SIGKILL);
				pid[i] = 0; running--; st[i] = s;
				if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0 && W[i].finished) && bad < 0) bad = i;
				continue;
			}
			if (W[i].seq != lastseq[i]) { lastseq[i] = W[i].seq; lastt[i] = now(); }
			else if (now() - lastt[i] > hang && W[i].has_case) {
				// re-run alone with a longer limit before calling it a hang
				Case c = get(W[i]);
				kill(pid[i], SIGSTOP);
				char e2[400]; snprintf(e2, sizeof e2, "%s/hang.err", scratch_dir);
				int r2 = isolated([&] { exec(c); }, hang * 2, why, sizeof why, e2);
				kill(pid[i], SIGCONT);
				if (r2) { bad = i; hung = true; }
				else { lastt[i] = now() + hang * 3; }
			}
		}
		if (bad >= 0) break;
		usleep(3000);
	}
	if (bad >= 0) for (int i = 0; i < nworkers; i++) if (pid[i]) { kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL); int s; waitpid(pid[i], &s, 0); }
	int rc = 0; char rpath[500] = "";
	if (bad >= 0) {
		Worker &w = W[bad];
		int s = st[bad];
		if (!hung && WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL && !w.failed) { fprintf(stderr, "worker %d killed from outside (memory?)\n", bad); return 2; }
		if (!w.has_case) { char buf[3000]; tail(errname(bad), buf, sizeof buf); fprintf(stderr, "worker %d died outside any case (status %x)\n%s\n%s\n", bad, s, buf, w.msg); return 2; }
		Case c = get(w); uint64_t prefix = 0;
		if (!hung) {
			char e2[400]; snprintf(e2, sizeof e2, "%s/confirm.err", scratch_dir);
			int r = isolated([&] { exec(c); }, 60, why, sizeof why, e2);
			if (!r) {
				// depends on earlier calls: replay the deterministic prefix of that worker
				prefix = w.cidx + 1;
				char first[3500]; if (w.failed) snprintf(first, sizeof first, "%s", w.msg); else tail(errname(bad), first, sizeof first);
				int wb = bad;
				r = isolated([&] { worker_id = wb; stop_after = prefix; deadline = 0; enumerate(); }, 120, why, sizeof why, e2);
				if (!r) { snprintf(why, sizeof why, "seen once, not reproduced by replay (status %x): %s", s, first); fprintf(stderr, "%s\n", why);
					FILE *f = fopen(errname(bad), "r"); if (f) { char l[500]; int n = 0; while (n++ < 60 && fgets(l, sizeof l, f)) fputs(l, stderr); fclose(f); }
					return 2; }
				char tmp[6000]; snprintf(tmp, sizeof tmp, "(depends on earlier calls in the same process) %s", why); snprintf(why, sizeof why, "%s", tmp);
			}
		}
		snprintf(rpath, sizeof rpath, "%s/%s.replay", replaydir ? replaydir : scratch_dir, property);
		write_replay(rpath, c, why, bad, prefix);
		fprintf(stderr, "case: %s", kind_names[c.kind]);
		for (auto &x : c.b) fprintf(stderr, " %s", Hex(x).s);
		fprintf(stderr, "\n%s\n", why);
		rc = 1;
	}
	uint64_t cases = 0, trn = 0, val = 0, dropped = 0; bool notexh = false; const char *whynot = "";
	std::vector<uint64_t> all;
	for (int i = 0; i < nworkers; i++) {
		cases += W[i].cases; trn += W[i].transitions; val += W[i].validated; dropped += W[i].states_dropped;
		if (W[i].notexh) { notexh = true; whynot = W[i].why; }
		if (W[i].timedout) { notexh = true; whynot = "time limit reached"; }
		for (uint64_t k = 0; k < (1ULL << TABLE_BITS); k++) if (tables[i][k]) all.push_back(tables[i][k]);
	}
	qsort(all.data(), all.size(), 8, cmp64);
	uint64_t distinct = 0; for (size_t k = 0; k < all.size(); k++) if (!k || all[k] != all[k - 1]) distinct++;
	if (evidence) {
		FILE *f = fopen(evidence, "w"); if (!f) { perror(evidence); return 2; }
		fprintf(f, "{\"property\":\"%s\",\"cases\":%llu,\"states\":%llu,\"states_not_stored\":%llu,\"transitions\":%llu,\"validated\":%llu,\"exhaustive\":%s,\"why_not\":", property,
		    (unsigned long long)cases, (unsigned long long)distinct, (unsigned long long)dropped, (unsigned long long)trn, (unsigned long long)val, notexh ? "false" : "true");
		esc_json(f, whynot);
		fprintf(f, ",\"violations\":%d,\"replay\":", rc); esc_json(f, rpath);
		fprintf(f, ",\"wall\":%.2f,\"info\":{", now() - t_start);
		bool first = true; char seen[NINFO * 8][48]; int ns = 0;
		for (int i = 0; i < nworkers; i++) for (int k = 0; k < NINFO; k++) {
			const char *key = W[i].ikey[k]; if (!key[0]) continue; bool dup = false;
			for (int q = 0; q < ns; q++) if (!strcmp(seen[q], key)) dup = true;
			if (dup) continue;
			uint64_t v = 0; for (int j = 0; j < nworkers; j++) for (int q = 0; q < NINFO; q++) if (!strcmp(W[j].ikey[q], key)) v += W[j].ival[q];
			if (ns < NINFO * 8) strcpy(seen[ns++], key);
			fprintf(f, "%s", first ? "" : ","); esc_json(f, key); fprintf(f, ":%llu", (unsigned long long)v); first = false;
		}
		fprintf(f, "},\"samples\":["); first = true;
		for (int i = 0; i < nworkers; i++) for (int k = 0; k < W[i].nsample; k++) { fprintf(f, "%s", first ? "" : ","); esc_json(f, W[i].sample[k]); first = false; }
		fprintf(f, "]}\n"); fclose(f);
	}
	return rc;
}
} // namespace mc

int main(int argc, char **argv) { return mc::main_(argc, argv); }
