// C38 command-line options: argument vectors against a reference interpreter of the documented rules
#include "mc.hpp"
#include <string>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "argv.h"
using namespace mc;
typedef std::string Str;
enum { K_ARGS, K_FILE, K_FRESH, K_VALUE, K_COPY, K_TYPE };
const char *mc::kind_names[] = {
	"arguments([table, settings, environment, argv[0]], environment text, argument file, arguments...)",
	"arguments with an argument file([table, settings, environment, argv[0]], environment text, argument file, arguments...)",
	"first call in a process([table, settings, entry, argv[0]], environment text, global settings, arguments...)",
	"value as text(type, value, array length, buffer size)", "arguments as text(buffer size, arguments...)", "type information(type)" };

// ---- option tables ----------------------------------------------------------------------------
static const char MAND = ARGV_MAND, MAYBE = ARGV_MAYBE, OR = ARGV_OR, XOR = ARGV_XOR;
static const unsigned ARR = ARGV_FLAG_ARRAY, MUST = ARGV_FLAG_MAND;
struct E { char sh; const char *lo; unsigned ty; };
typedef std::vector<E> Table;
static const Table T[] = {
	/* 0 flags */ { { 'b', "bool", ARGV_BOOL }, { 'n', "neg", ARGV_BOOL_NEG }, { 'a', "barg", ARGV_BOOL_ARG }, { 'B', "bint", ARGV_BOOL_INT }, { 'N', "nint", ARGV_BOOL_INT_NEG }, { 'G', "gint", ARGV_BOOL_INT_ARG }, { 'x', "incr", ARGV_INCR } },
	/* 1 values */ { { 'c', "chr", ARGV_CHAR }, { 's', "str", ARGV_CHAR_P }, { 'h', "short", ARGV_SHORT }, { 'H', "ushort", ARGV_U_SHORT }, { 'i', "int", ARGV_INT }, { 'I', "uint", ARGV_U_INT }, { 'l', "long", ARGV_LONG }, { 'L', "ulong", ARGV_U_LONG } },
	/* 2 values */ { { 'f', "float", ARGV_FLOAT }, { 'd', "double", ARGV_DOUBLE }, { 'b', "bin", ARGV_BIN }, { 'o', "oct", ARGV_OCT }, { 'x', "hex", ARGV_HEX }, { 'z', "size", ARGV_SIZE }, { 'Z', "usize", ARGV_U_SIZE } },
	/* 3 arrays */ { { 'v', "verb", ARGV_BOOL }, { 'i', "int", ARGV_INT | ARR }, { 's', "str", ARGV_CHAR_P | ARR }, { 'c', nullptr, ARGV_CHAR | ARR }, { 0, "long", ARGV_LONG | ARR } },
	/* 4 positional */ { { MAND, nullptr, ARGV_INT }, { 'v', "verb", ARGV_BOOL }, { 's', "str", ARGV_CHAR_P }, { MAND, nullptr, ARGV_CHAR_P | ARR } },
	/* 5 positional */ { { MAND, nullptr, ARGV_CHAR_P }, { 'i', "int", ARGV_INT }, { MAYBE, nullptr, ARGV_INT }, { MAYBE, nullptr, ARGV_CHAR_P | ARR } },
	/* 6 exclusive */ { { 'a', "aa", ARGV_BOOL }, { OR, nullptr, 0 }, { 'b', "bb", ARGV_INT }, { OR, nullptr, 0 }, { 'c', nullptr, ARGV_BOOL }, { 'm', "must", ARGV_INT | MUST }, { 'd', "dd", ARGV_BOOL }, { OR, nullptr, 0 }, { 'e', "ee", ARGV_CHAR_P } },
	/* 7 one of */ { { 'a', "aa", ARGV_BOOL }, { XOR, nullptr, 0 }, { 'b', "bb", ARGV_INT }, { XOR, nullptr, 0 }, { 'c', nullptr, ARGV_BOOL }, { 'v', nullptr, ARGV_BOOL }, { 'd', "dd", ARGV_BOOL }, { XOR, nullptr, 0 }, { 'e', nullptr, ARGV_CHAR_P } },
	/* 8 long names */ { { 's', "size", ARGV_INT }, { 't', "size-max", ARGV_INT }, { 0, "sin", ARGV_BOOL }, { 'h', "hello", ARGV_BOOL }, { 'v', "argv-fish", ARGV_BOOL }, { 'u', "usage-x", ARGV_BOOL }, { 'q', nullptr, ARGV_BOOL } },
	/* 9 digits as options */ { { '5', "five", ARGV_BOOL }, { 'i', "int", ARGV_INT }, { 'I', "uint", ARGV_U_INT }, { 'd', "double", ARGV_DOUBLE }, { 'a', "arr", ARGV_INT | ARR }, { '?', nullptr, ARGV_INCR } },
	/* 10 empty */ { },
	/* 11 one */ { { 'v', "verx", ARGV_BOOL } },
	/* 12 optional only */ { { MAYBE, nullptr, ARGV_CHAR_P }, { 'v', nullptr, ARGV_BOOL } },
	/* 13 positional values */ { { MAND, nullptr, ARGV_SIZE }, { MAND, nullptr, ARGV_HEX }, { MAND, nullptr, ARGV_BOOL_INT_ARG }, { 'x', nullptr, ARGV_INCR } },
	/* 14 mixed */ { { 'i', "int", ARGV_INT }, { 's', "str", ARGV_CHAR_P }, { 'v', "verb", ARGV_BOOL }, { 'x', "xinc", ARGV_INCR }, { 'a', "arr", ARGV_CHAR_P | ARR }, { MAYBE, nullptr, ARGV_CHAR_P | ARR } },
	/* 15.. wrong tables */
	{ { MAND, nullptr, ARGV_INT | ARR }, { MAND, nullptr, ARGV_INT } },
	{ { MAYBE, nullptr, ARGV_INT }, { MAND, nullptr, ARGV_INT } },
	{ { MAND, nullptr, ARGV_INT | ARR }, { MAYBE, nullptr, ARGV_INT } },
	{ { MAYBE, nullptr, ARGV_INT | ARR }, { MAYBE, nullptr, ARGV_INT } },
	{ { 'b', "bool", ARGV_BOOL | ARR } },
	{ { 'x', "incr", ARGV_INCR | ARR } },
	{ { OR, nullptr, 0 }, { 'b', "bool", ARGV_BOOL } },
	{ { 'b', "bool", ARGV_BOOL }, { XOR, nullptr, 0 } },
	{ { 'b', "bool", ARGV_BOOL }, { OR, nullptr, 0 }, { XOR, nullptr, 0 }, { 'c', nullptr, ARGV_BOOL } },
	/* 24: a variable is missing */ { { 'b', "bool", ARGV_BOOL }, { 'c', "nil", ARGV_INT } },
};
static const int NT = sizeof T / sizeof *T, NGOOD = 15;
static size_t tsize(unsigned ty) {
	switch (ARGV_TYPE(ty)) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1;
	case ARGV_CHAR_P: return sizeof(char *); case ARGV_SHORT: case ARGV_U_SHORT: return 2;
	case ARGV_LONG: case ARGV_U_LONG: case ARGV_DOUBLE: case ARGV_SIZE: case ARGV_U_SIZE: return 8;
	case 0: return 1; default: return 4;
	}
}
static bool flagtype(unsigned ty) { ty = ARGV_TYPE(ty); return ty == ARGV_BOOL || ty == ARGV_BOOL_NEG || ty == ARGV_BOOL_INT || ty == ARGV_BOOL_INT_NEG || ty == ARGV_INCR; }
static bool special(char c) { return c == MAND || c == MAYBE || c == OR || c == XOR; }

// ---- reference ------------------------------------------------------------------------------
struct Val { bool unspec = false; Str s; long long n = 0; double d = 0; };      // s: strings, n: integers, d: floats
static bool truth(const Str &s) { return !s.empty() && strchr("tTyY1", s[0]); }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static long long dec(const Str &s, bool &over) {
	size_t i = 0; while (i < s.size() && sp(s[i])) i++;
	bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	__int128 v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && v < ((__int128)1 << 100)) v = v * 10 + (s[i++] - '0');
	if (neg) v = -v; over = v > INT64_MAX || v < INT64_MIN; return (long long)v;
}
static Val based(const Str &s, int base) {
	Val r; size_t i = 0; while (i < s.size() && sp(s[i])) i++;
	if (base == 16 && i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
	unsigned __int128 v = 0;
	for (; i < s.size(); i++) {
		int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
		if (d >= base) break; v = v * base + d; if (v > 0x7fffffff) { r.unspec = true; v = 0; }
	}
	r.n = (long long)v; return r;
}
static Val conv(unsigned ty, const Str *arg, const Val &old) {
	Val r; bool over = false;
	switch (ARGV_TYPE(ty)) {
	case ARGV_BOOL: case ARGV_BOOL_INT: r.n = arg ? truth(*arg) : 1; break;
	case ARGV_BOOL_NEG: case ARGV_BOOL_INT_NEG: r.n = arg ? truth(*arg) : 0; break;
	case ARGV_BOOL_ARG: case ARGV_BOOL_INT_ARG: r.n = truth(*arg); break;
	case ARGV_CHAR: r.n = arg->empty() ? 0 : (*arg)[0]; break;
	case ARGV_CHAR_P: r.s = *arg; break;
	case ARGV_SHORT: r.n = dec(*arg, over); r.unspec = over || r.n > 32767 || r.n < -32768; break;
	case ARGV_U_SHORT: r.n = dec(*arg, over); r.unspec = over || r.n > 65535 || r.n < 0; break;
	case ARGV_INT: r.n = dec(*arg, over); r.unspec = over || r.n != (int)r.n; break;
	case ARGV_U_INT: r.n = dec(*arg, over); r.unspec = over || r.n != (unsigned)r.n || r.n > INT32_MAX; break;   // read with atoi
	case ARGV_LONG: case ARGV_U_LONG: r.n = dec(*arg, over); r.unspec = over || (ARGV_TYPE(ty) == ARGV_U_LONG && r.n < 0); break;
	case ARGV_FLOAT: case ARGV_DOUBLE: { char *e; r.d = ARGV_TYPE(ty) == ARGV_FLOAT ? strtof(arg->c_str(), &e) : strtod(arg->c_str(), &e); r.unspec = e == arg->c_str() || *e; break; }
	case ARGV_BIN: r = based(*arg, 2); break; case ARGV_OCT: r = based(*arg, 8); break; case ARGV_HEX: r = based(*arg, 16); break;
	case ARGV_INCR: if (arg) { r.n = dec(*arg, over); r.unspec = over || r.n != (int)r.n; } else { r = old; r.n++; } break;
	case ARGV_SIZE: case ARGV_U_SIZE: {
		r.n = dec(*arg, over); size_t i = arg->find_first_not_of(" +-0123456789"); char c = i == Str::npos ? 0 : (*arg)[i] | 32;
		__int128 v = (__int128)r.n * (c == 'k' ? 1LL << 10 : c == 'm' ? 1LL << 20 : c == 'g' ? 1LL << 30 : 1);
		r.unspec = over || v > INT64_MAX || v < INT64_MIN || (ARGV_TYPE(ty) == ARGV_U_SIZE && v < 0); r.n = (long long)v; break; }
	}
	return r;
}
struct Set { bool close, toggle, multi, interactive; };
struct Model {
	const Table &t; Set set; std::vector<bool> used; std::vector<Val> val; std::vector<std::vector<Val>> arr; std::vector<int> queue; size_t qt = 0; bool ok = true;
	bool exited = false; Str shown; const Str *file = nullptr;      // interactive: what was printed
	Model(const Table &t_, Set s) : t(t_), set(s), used(t_.size()), val(t_.size()), arr(t_.size()) {}
	void assign(int e, const Str *v) { if (t[e].ty & ARR) arr[e].push_back(conv(t[e].ty, v, Val())); else val[e] = conv(t[e].ty, v, val[e]); }
	void use(int e, const Str *v) {
		if (!set.multi && used[e] && !(t[e].ty & ARR) && ARGV_TYPE(t[e].ty) != ARGV_INCR) ok = false;
		used[e] = true;
		if (v) assign(e, v); else if (flagtype(t[e].ty)) assign(e, nullptr); else queue.push_back(e);
	}
	void quit(const char *what) { if (set.interactive) { exited = true; shown = what; } }
	void readfile(const Str &name, int depth) {
		if (name == "-") return;                     // standard input: /dev/null here
		if (name != "F" || !file) { ok = false; quit("error"); return; }
		std::vector<Str> l; Str cur; for (char c : *file) if (c == '\n') { l.push_back(cur); cur.clear(); } else cur += c; l.push_back(cur);
		std::vector<Str> l2; for (auto &x : l) if (!x.empty()) l2.push_back(x);
		list(l2, depth + 1);
	}
	static bool pre(const Str &a, const char *full) { return !strncmp(a.c_str(), full, a.size()); }
	void list(const std::vector<Str> &a, int depth) {
		bool last = false;
		for (auto &tok : a) {
			if (exited) return;
			if (tok == "--" && !(last && !set.toggle)) { last = !last; continue; }
			if (!last && tok.size() > 1 && tok[0] == '-') {
				size_t eq = set.close ? tok.find('=') : Str::npos; Str v, name = tok.substr(0, eq); bool hasv = eq != Str::npos; if (hasv) v = tok.substr(eq + 1);
				if (name.size() >= 2 && name[1] == '-') {
					name = name.substr(2); if (name.empty()) { ok = false; continue; }
					std::vector<int> m; int exact = -1;
					for (size_t e = 0; e < t.size(); e++) if (t[e].lo && pre(name, t[e].lo)) { m.push_back(e); if (name == t[e].lo) exact = e; }
					if (exact >= 0) use(exact, hasv ? &v : nullptr);
					else if (m.size() > 1) ok = false;
					else if (m.size() == 1) use(m[0], hasv ? &v : nullptr);
					else if (pre(name, "argv-file")) { if (hasv) readfile(v, depth); else queue.push_back(-1); }
					else if (pre(name, "usage") || pre(name, "help")) quit("usage");
					else if (pre(name, "usage-short")) quit("short"); else if (pre(name, "usage-long")) quit("long"); else if (pre(name, "usage-all")) quit("all");
					else if (pre(name, "version")) quit("version"); else if (pre(name, "argv-display")) quit("display");
					else ok = false;
					continue;
				}
				name = name.substr(1); if (name.empty()) { ok = false; continue; }
				for (size_t i = 0; i < name.size(); i++) {
					int e = -1; for (size_t k = 0; k < t.size(); k++) if (t[k].sh == name[i] && !special(t[k].sh)) { e = k; break; }
					if (e >= 0) { use(e, hasv ? &v : nullptr); continue; }
					if (name[i] == '?') { quit("usage"); if (exited) return; continue; }
					if (i == 0 && name.find_first_not_of("0123456789+-.") == Str::npos && qt < queue.size() && queue[qt] >= 0) {
						unsigned ty = ARGV_TYPE(t[queue[qt]].ty); Str n = "-" + name;
						if (ty == ARGV_SHORT || ty == ARGV_INT || ty == ARGV_LONG || ty == ARGV_FLOAT || ty == ARGV_DOUBLE) { assign(queue[qt++], &n); break; }
					}
					ok = false;
				}
				continue;
			}
			if (qt < queue.size() && !t.empty()) { int e = queue[qt++]; if (e < 0) readfile(tok, depth); else assign(e, &tok); continue; }
			int e = -1;
			for (char kind : { MAND, MAYBE }) for (size_t k = 0; k < t.size() && e < 0; k++) if (t[k].sh == kind && (!used[k] || (t[k].ty & ARR))) e = k;
			if (e >= 0) { assign(e, &tok); used[e] = true; } else ok = false;
		}
	}
	void end() {
		if (exited) return;
		for (size_t e = 0; e < t.size(); e++) if (!used[e] && (t[e].sh == MAND || (t[e].ty & MUST))) ok = false;
		if (qt < queue.size()) ok = false;
		for (size_t e = 1; e + 1 < t.size(); e++) if (t[e].sh == OR || t[e].sh == XOR) {       // a chain of alternatives
			size_t k = e; int n = used[e - 1]; for (; k + 1 < t.size() && (t[k].sh == OR || t[k].sh == XOR); k += 2) n += used[k + 1];
			if (n > 1 || (n == 0 && t[e].sh == XOR)) ok = false;
			e = k;
		}
		if (!ok) quit("error");
	}
};

// ---- running the code -----------------------------------------------------------------------
static Str out; static FILE *stream;
static ssize_t wr(void *, const char *b, size_t n) { out.append(b, n); return n; }
static void open_stream() { if (stream) return; out.reserve(1 << 20); cookie_io_functions_t io = {}; io.write = wr; stream = fopencookie(nullptr, "w", io); setvbuf(stream, nullptr, _IONBF, 0); }
static char dflt[] = "default";
struct Run {
	const Table &t; argv_t *args; std::vector<void *> var; std::vector<Val> init;
	std::vector<char *> store; char **argv; int argc; std::vector<Str> words;
	Run(const Table &t_, const std::vector<Str> &w, bool nilvar) : t(t_), words(w) {
		args = (argv_t *)malloc(sizeof(argv_t) * (t.size() + 1));
		for (size_t i = 0; i < t.size(); i++) {
			argv_t &a = args[i]; a.ar_short_arg = t[i].sh; a.ar_long_arg = t[i].lo; a.ar_type = t[i].ty; a.ar_var_label = i & 1 ? "label" : nullptr; a.ar_comment = i & 2 ? "comment" : nullptr;
			void *p = nullptr; Val v;
			if (t[i].sh != OR && t[i].sh != XOR && !(nilvar && i == 1)) {
				if (t[i].ty & ARR) p = calloc(1, sizeof(argv_array_t));
				else { p = malloc(tsize(t[i].ty)); v = put(p, t[i].ty, i); }
			}
			var.push_back(p); init.push_back(v); a.ar_variable = p;
		}
		memset(&args[t.size()], 0, sizeof(argv_t)); args[t.size()].ar_short_arg = ARGV_LAST;
		argc = w.size(); argv = (char **)malloc(sizeof(char *) * (argc + 1));
		for (int i = 0; i < argc; i++) argv[i] = strdup(w[i].c_str()); argv[argc] = nullptr;
		store.assign(argv, argv + argc);
	}
	static Val put(void *p, unsigned ty, size_t i) {      // a value that shows when it is touched
		Val v; v.n = tsize(ty) == 1 ? 3 + i : tsize(ty) == 2 ? 0x1203 + i : tsize(ty) == 4 ? 0x12340003 + i : 0x1234567800000003 + i;
		switch (ARGV_TYPE(ty)) {
		case ARGV_CHAR_P: *(char **)p = dflt; v.s = dflt; break;
		case ARGV_FLOAT: *(float *)p = v.d = 9.25; break; case ARGV_DOUBLE: *(double *)p = v.d = 9.25; break;
		default: switch (tsize(ty)) { case 1: *(char *)p = v.n; break; case 2: *(short *)p = v.n; break; case 4: *(int *)p = v.n; break; case 8: *(long *)p = v.n; break; }
		}
		return v;
	}
	~Run() { for (char *p : store) free(p); free(argv); for (void *p : var) free(p); free(args); }
	static void same(const char *name, unsigned ty, const void *p, const Val &v) {
		if (v.unspec) return;
		switch (ARGV_TYPE(ty)) {
		case ARGV_CHAR_P: MC_CHECK(*(char **)p && v.s == *(char **)p, "%s: string is \"%s\", expected \"%s\"", name, Esc(*(char **)p).s, Esc(v.s.c_str()).s); return;
		case ARGV_FLOAT: MC_CHECK(*(float *)p == (float)v.d, "%s: %g, expected %g", name, *(float *)p, v.d); return;
		case ARGV_DOUBLE: MC_CHECK(*(double *)p == v.d, "%s: %g, expected %g", name, *(double *)p, v.d); return;
		}
		long long g = 0;
		switch (tsize(ty)) { case 1: g = *(char *)p; break; case 2: g = ARGV_TYPE(ty) == ARGV_SHORT ? *(short *)p : *(unsigned short *)p; break; case 4: g = *(int *)p; break; case 8: g = *(long *)p; break; }
		MC_CHECK(g == (tsize(ty) == 4 ? (long long)(int)v.n : v.n), "%s: value %lld, expected %lld", name, g, v.n);
	}
	void compare(const Model &m) {
		for (size_t i = 0; i < t.size(); i++) {
			if (t[i].sh == OR || t[i].sh == XOR) continue;
			char name[60]; snprintf(name, sizeof name, "option %zu (-%c --%s)", i, special(t[i].sh) ? '#' : t[i].sh ? t[i].sh : ' ', t[i].lo ? t[i].lo : "");
			if (t[i].ty & ARR) {
				argv_array_t *a = (argv_array_t *)var[i];
				MC_CHECK(ARGV_ARRAY_COUNT(*a) == (int)m.arr[i].size(), "%s: %d array entries, expected %zu", name, ARGV_ARRAY_COUNT(*a), m.arr[i].size());
				for (size_t k = 0; k < m.arr[i].size(); k++) same(name, t[i].ty, (char *)a->aa_entries + k * tsize(t[i].ty), m.arr[i][k]);
			} else same(name, t[i].ty, var[i], m.val[i]);
			MC_CHECK(argv_entry_was_used(&args[i]) == (int)m.used[i], "%s: argv_entry_was_used = %d", name, argv_entry_was_used(&args[i]));
			if (t[i].sh && !special(t[i].sh)) MC_CHECK(argv_was_used(args, t[i].sh) == (int)m.used[i], "%s: argv_was_used = %d", name, argv_was_used(args, t[i].sh));
			if (t[i].lo) { char *copy = strdup(t[i].lo); int r = argv_long_was_used(args, copy); free(copy); MC_CHECK(r == (int)m.used[i], "%s: argv_long_was_used = %d, expected %d", name, r, (int)m.used[i]); }
		}
		MC_CHECK(argv_was_used(args, '~') == 0 && argv_long_was_used(args, "nonesuch") == 0, "an option that is not in the table was used");
	}
	void untouched() {
		for (int i = 0; i < argc; i++) { MC_CHECK(argv[i] == store[i], "argv[%d] was replaced", i); MC_CHECK(words[i] == argv[i], "argv[%d] was modified: \"%s\"", i, Esc(argv[i]).s); }
		MC_CHECK(!argv[argc], "argv[argc] was modified");
		MC_CHECK(argv_argv == argv && argv_argc == argc, "argv_argv or argv_argc is not what was given");
		Str p = argc ? words[0] : ""; size_t k = p.rfind('/'); if (k != Str::npos) p = p.substr(k + 1);
		MC_CHECK(p.substr(0, 256) == argv_program, "program name \"%s\", expected \"%s\"", argv_program, p.c_str());
	}
};
static std::vector<Str> split(const Str &s) { std::vector<Str> r; Str c; for (char x : s + " ") if (x == ' ' || x == '\t') { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; return r; }
static const char *ARGV0[] = { "prog", "/usr/bin/prog", "a/b/", "./Pr-og2", "", nullptr };
static Str str(const Bytes &b) { return Str(b.begin(), b.end()); }
static Str envname(const Str &a0) { Str p = a0; size_t k = p.rfind('/'); if (k != Str::npos) p = p.substr(k + 1); p = "ARGV_" + p; for (char &c : p) if (c >= 'a' && c <= 'z') c -= 32; return p; }
enum { S_CLOSE = 1, S_TOGGLE = 2, S_MULTI = 4, S_STREAM = 8 };
static void here() { static bool done; if (!done) { done = true; if (chdir(wdir())) fail("chdir"); unsetenv("GLOBAL_ARGV"); open_stream(); getc(stdin); } }
static void put_file(const Str *s) { unlink("F"); if (!s) return; int fd = open("F", O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0 || write(fd, s->data(), s->size()) != (ssize_t)s->size()) fail("scratch file"); close(fd); }
static Table wrong() { return Table(); }

static void c_args(const Case &c) {
	here();
	int ti = c.b[0][0], s = c.b[0][1], em = c.b[0][2]; const char *a0p = ARGV0[c.b[0][3]]; Str a0 = a0p ? a0p : "", env = str(c.b[1]), file = str(c.b[2]);
	std::vector<Str> w; if (a0p) w.push_back(a0); for (size_t i = 3; i < c.b.size(); i++) w.push_back(str(c.b[i]));
	const Table &t = T[ti]; Set set{ (s & S_CLOSE) != 0, (s & S_TOGGLE) != 0, (s & S_MULTI) != 0, false };
	bool havefile = c.kind == K_FILE; if (havefile) put_file(&file);
	Str en = envname(a0); if (em) setenv(en.c_str(), env.c_str(), 1); else if (getenv(en.c_str())) unsetenv(en.c_str());
	argv_interactive = 0; argv_close_enable_b = set.close; argv_last_toggle_b = set.toggle; argv_multi_accept_b = set.multi;
	argv_process_env_b = em != 3; argv_env_after_b = em == 2; argv_error_stream = s & S_STREAM ? stream : nullptr; out.clear();
	argv_error_type = ARGV_USAGE_LONG; argv_usage_type = ARGV_USAGE_LONG; argv_error_code = 1;
	Model m(t, set); if (havefile) m.file = &file;
	int64_t before;
	{
		Run r(t, w, ti == 24); m.val = r.init;
		if (ti < NGOOD) {
			std::vector<Str> e = em ? split(env) : std::vector<Str>(), a(w.begin() + !!a0p, w.end());
			if (em == 1) m.list(e, 0); m.list(a, 0); if (em == 2) m.list(e, 0); m.end();
		} else m.ok = false;
		before = live_blocks;
		int rc = argv_process(r.args, r.argc, r.argv); tr();
		if (c.kind == K_FILE) { Str cont = "?"; (void)cont; }
		MC_CHECK(rc == (m.ok ? 0 : -1), "result %d, expected %d; message: %s", rc, m.ok ? 0 : -1, Esc(out.c_str()).s);
		r.untouched();
		if (m.ok) { r.compare(m); MC_CHECK(out.empty(), "success, but a message: %s", Esc(out.c_str()).s); }
		else if (s & S_STREAM) MC_CHECK(!out.empty(), "failure without a message");
		state(hstr(hstr(mix(ti, rc), out.c_str()), m.ok ? "ok" : "")); uint64_t h = mix(ti, rc); if (m.ok) for (size_t i = 0; i < t.size(); i++) { h = mix(h, m.val[i].n); h = hstr(h, m.val[i].s.c_str()); for (auto &x : m.arr[i]) h = hstr(mix(h, x.n), x.s.c_str()); } state(h);
		argv_cleanup(r.args);
		MC_CHECK(live_blocks <= before, "%lld block(s) still allocated after argv_cleanup", (long long)(live_blocks - before));
		MC_CHECK(!strcmp(dflt, "default"), "the default string was modified");
		if (sampling) note("result %d", rc);
	}
	valid();
}

// ---- a fresh process: defaults, global settings, interactive use --------------------------------
struct Shared { volatile int stage; int rc; int glob[6]; };
static Shared *shared; static const char VERS[] = "1.2.3 of today", HELP[] = "helpful words";
static Str valtext(unsigned ty, const Val &v);
enum { A_PROCESS, A_NOENV, A_USAGE };
static void c_fresh(const Case &c) {
	here();
	int ti = c.b[0][0], s = c.b[0][1], api = c.b[0][2] & 3, inter = c.b[0][2] >> 2 & 1, how = c.b[0][2] >> 3 & 1, setver = c.b[0][2] >> 4 & 1; Str a0 = ARGV0[c.b[0][3]], env = str(c.b[1]), glob = str(c.b[2]);
	std::vector<Str> w{ a0 }; for (size_t i = 3; i < c.b.size(); i++) w.push_back(str(c.b[i]));
	if (!shared) shared = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void *)shared, 0, sizeof *shared); put_file(nullptr);
	// reference
	struct { int close = 1, last = 0, envb = 1, after = 0, multi = 1, err = ARGV_USAGE_LONG, usage = ARGV_USAGE_LONG; } g; bool complain = false;
	argv_error_type = g.err;
	if (api != A_NOENV) {
		Str cur; for (char x : glob + " ") if (strchr(" \t,:", x)) {
			if (!cur.empty()) {
				Str t2 = cur; cur.clear(); size_t eq = t2.find('='); Str k = eq == Str::npos ? "" : t2.substr(0, eq), v = eq == Str::npos ? "" : t2.substr(eq + 1);
				int onoff = v == "disable" || v == "off" || v == "no" || v == "0" ? 0 : v == "enable" || v == "on" || v == "yes" || v == "1" ? 1 : -1, u = v == "short" ? ARGV_USAGE_SHORT : v == "shortrem" ? ARGV_USAGE_SHORT_REM : v == "long" ? ARGV_USAGE_LONG : v == "all" ? ARGV_USAGE_ALL : -1;
				int e2 = v == "none" ? ARGV_USAGE_NONE : v == "see" ? ARGV_USAGE_SEE : u;
				if (k == "close" && onoff >= 0) g.close = onoff; else if (k == "lasttog" && onoff >= 0) g.last = onoff;
				else if (k == "env" && v == "none") g.envb = g.after = 0; else if (k == "env" && v == "before") g.envb = 1, g.after = 0; else if (k == "env" && v == "after") g.envb = g.after = 1;
				else if (k == "error" && e2 >= 0) g.err = e2; else if (k == "usage" && u >= 0) g.usage = u;
				else if (k == "multi" && (v == "reject" || v == "accept")) g.multi = v == "accept"; else complain = true;
			}
		} else cur += x;
	}
	const Table &t = T[ti]; Model m(t, Set{ g.close != 0, g.last != 0, g.multi != 0, inter != 0 });
	Str en = envname(a0); std::vector<Str> e = split(env), a(w.begin() + 1, w.end());
	unlink("err");
	pid_t p = fork();
	Run r(t, w, ti == 24); m.val = r.init;
	if (p == 0) {
		int fd = open("err", O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600); dup2(fd, 2); dup2(fd, 1);
		if (!env.empty()) setenv(en.c_str(), env.c_str(), 1); else unsetenv(en.c_str());
		if (!glob.empty()) setenv("GLOBAL_ARGV", glob.c_str(), 1); else unsetenv("GLOBAL_ARGV");
		argv_interactive = inter; if (how) argv_error_stream = nullptr; if (setver) { argv_version_string = (char *)VERS; argv_help_string = (char *)HELP; argv_error_code = 7; }
		shared->stage = 1;
		argv_t *args = ti == 10 && (s & 1) ? nullptr : r.args;
		if (api == A_USAGE) { snprintf(argv_program, 20, "prog"); shared->rc = argv_usage(args, s >> 1); }
		else { shared->rc = api == A_NOENV ? argv_process_no_env(args, r.argc, r.argv) : argv_process(args, r.argc, r.argv); }
		int q[] = { argv_close_enable_b, argv_last_toggle_b, argv_process_env_b * 2 + argv_env_after_b, argv_multi_accept_b, argv_error_type, argv_usage_type }; memcpy(shared->glob, q, sizeof q);
		argv_cleanup(args); shared->stage = 2; _exit(99);
	}
	int st; waitpid(p, &st, 0); tr();
	Str o; { int fd = open("err", O_RDONLY); char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); }
	bool crash = !WIFEXITED(st) || (shared->stage != 2 && o.find("Sanitizer") != Str::npos) || o.find("runtime error") != Str::npos;
	MC_CHECK(!crash, "crash: %.2500s", o.c_str());
	auto usage = [&](int kind) {          // does the output hold this kind of usage?
		if (kind == ARGV_USAGE_NONE) return;
		if (kind == ARGV_USAGE_SEE) { MC_CHECK(o.find("--usage") != Str::npos, "no reference to --usage: %s", Esc(o.c_str()).s); return; }
		MC_CHECK(o.find(Str("Usage: ") + (api == A_USAGE ? "prog" : argv_program)) != Str::npos || api != A_USAGE, "no usage line: %s", Esc(o.c_str()).s);
		MC_CHECK(o.find("Usage: ") != Str::npos, "no usage line: %s", Esc(o.c_str()).s);
		for (size_t i = 0; i < t.size(); i++) {
			if (special(t[i].sh)) continue;
			if (t[i].sh) { Str pat = flagtype(t[i].ty) && kind != ARGV_USAGE_LONG && kind != ARGV_USAGE_ALL ? Str(1, t[i].sh) : Str("-") + t[i].sh; MC_CHECK(o.find(pat) != Str::npos, "usage does not mention %s: %s", pat.c_str(), Esc(o.c_str()).s); }
			if (t[i].lo && (kind == ARGV_USAGE_LONG || kind == ARGV_USAGE_ALL)) MC_CHECK(o.find(Str("--") + t[i].lo) != Str::npos, "usage does not mention --%s: %s", t[i].lo, Esc(o.c_str()).s);
			if (i & 1 && !flagtype(t[i].ty) && ARGV_TYPE(t[i].ty) != ARGV_BOOL_ARG && ARGV_TYPE(t[i].ty) != ARGV_BOOL_INT_ARG) MC_CHECK(o.find("label") != Str::npos, "usage lacks labels: %s", Esc(o.c_str()).s);
		}
		if (kind == ARGV_USAGE_ALL) MC_CHECK(o.find("--version") != Str::npos, "no list of built-in options: %s", Esc(o.c_str()).s);
		if (kind == ARGV_USAGE_SHORT_REM) MC_CHECK(o.find("--usage") != Str::npos, "no reminder: %s", Esc(o.c_str()).s);
	};
	auto globals = [&]() {
		int want[] = { g.close, g.last, g.envb * 2 + g.after, g.multi, g.err, g.usage }; static const char *nm[] = { "close", "lasttog", "env", "multi", "error", "usage" };
		for (int i = 0; i < 6; i++) MC_CHECK(shared->glob[i] == want[i], "setting %s is %d, expected %d", nm[i], shared->glob[i], want[i]);
		if (!how) MC_CHECK(!complain || o.find("GLOBAL_ARGV") != Str::npos, "a bad global setting was not reported");
	};
	if (api == A_USAGE) {
		MC_CHECK(shared->stage == 2 && shared->rc == 0, "argv_usage: result %d", shared->rc); globals(); int k = s >> 1;
		if (!how) usage(k == ARGV_USAGE_SHORT || k == ARGV_USAGE_LONG || k == ARGV_USAGE_ALL ? k : g.usage); else MC_CHECK(o.empty(), "output although the stream is NULL: %s", Esc(o.c_str()).s);
		state(hstr(ti, o.c_str())); valid(); return;
	}
	if (ti < NGOOD) { if (g.envb && !g.after) m.list(e, 0); m.list(a, 0); if (g.envb && g.after) m.list(e, 0); m.end(); } else { m.ok = false; m.quit("error"); }
	if (m.exited) {
		int code = m.shown != "error" ? 0 : setver ? 7 : 1;
		MC_CHECK(shared->stage == 1 && WEXITSTATUS(st) == code, "%s: expected the process to exit with %d; stage %d, status %d", m.shown.c_str(), code, shared->stage, WEXITSTATUS(st));
		if (how) MC_CHECK(o.empty(), "output although the stream is NULL: %s", Esc(o.c_str()).s);
		else if (m.shown == "error") MC_CHECK(!o.empty(), "error exit without a message");
		else if (m.shown == "usage") { if (!w.empty() && o.find(HELP) == Str::npos) usage(g.usage); } else if (m.shown == "short") usage(ARGV_USAGE_SHORT); else if (m.shown == "long") usage(ARGV_USAGE_LONG); else if (m.shown == "all") usage(ARGV_USAGE_ALL);
		else if (m.shown == "version") MC_CHECK(o.find(setver ? VERS : "no version information") != Str::npos, "version: %s", Esc(o.c_str()).s);
		else if (m.shown == "display") for (size_t i = 0; i < t.size(); i++) {
			if (t[i].sh == OR || t[i].sh == XOR) continue;
			if (!(t[i].ty & ARR)) { if (!m.val[i].unspec) MC_CHECK(o.find(valtext(t[i].ty, m.val[i])) != Str::npos, "display lacks the value %s: %s", valtext(t[i].ty, m.val[i]).c_str(), Esc(o.c_str()).s); continue; }
			Str l; for (size_t k = 0; k < m.arr[i].size(); k++) l += (k ? "," : "") + valtext(t[i].ty, m.arr[i][k]);
			if (m.arr[i].empty()) l = "no entries"; MC_CHECK(o.find(l) != Str::npos, "display lacks the values %s: %s", l.c_str(), Esc(o.c_str()).s);
		}
	} else {
		MC_CHECK(shared->stage == 2 && WEXITSTATUS(st) == 99, "the process exited with %d: %s", WEXITSTATUS(st), Esc(o.c_str()).s);
		MC_CHECK(shared->rc == (m.ok ? 0 : -1), "result %d, expected %d: %s", shared->rc, m.ok ? 0 : -1, Esc(o.c_str()).s);
		globals();
		if (how) MC_CHECK(o.empty(), "output although the stream is NULL: %s", Esc(o.c_str()).s); else if (!m.ok) { MC_CHECK(!o.empty(), "failure without a message"); if (ti < NGOOD) usage(g.err); } else MC_CHECK(complain || o.empty(), "success, but a message: %s", Esc(o.c_str()).s);
	}
	state(hstr(mix(ti, m.exited), o.c_str())); valid();
}

// ---- values as text ----------------------------------------------------------------------------
static std::vector<Str> pieces(const Str &s, bool one) {        // of a string, escapes kept whole
	std::vector<Str> r; size_t n = one ? 1 : s.size();
	for (size_t i = 0; i < n; i++) {
		unsigned char c = one && s.empty() ? 0 : s[i]; static const char from[] = "\033^\"'\\\n\r\t\b\f\007", to[] = "e^\"'\\nrtbfa";
		const char *p = c ? strchr(from, c) : nullptr; char b[8];
		if (p) snprintf(b, sizeof b, "\\%c", to[p - from]); else if (c >= 32 && c < 127) snprintf(b, sizeof b, "%c", c); else snprintf(b, sizeof b, "\\%03o", c);
		r.push_back(b);
	}
	return r;
}
static Str valtext(unsigned ty, const Val &v) {
	char b[200]; b[0] = 0; Str r;
	switch (ARGV_TYPE(ty)) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: return v.n ? "true (! 0)" : "false (0)";
	case ARGV_CHAR: for (auto &x : pieces(Str(1, (char)v.n), true)) r += x; return r;
	case ARGV_CHAR_P: if (v.n == -77) return "(null)"; for (auto &x : pieces(v.s, false)) r += x; return r;
	case ARGV_FLOAT: snprintf(b, sizeof b, "%f", (float)v.d); return b; case ARGV_DOUBLE: snprintf(b, sizeof b, "%f", v.d); return b;
	case ARGV_BIN: { if (!v.n) return "0"; unsigned u = v.n; Str d; for (int i = 31; i >= 0; i--) if (u >> i & 1 || !d.empty()) d += u >> i & 1 ? '1' : '0'; snprintf(b, sizeof b, " (%d)", (int)v.n); return "0b" + d + b; }
	case ARGV_OCT: if (!v.n) return "0"; snprintf(b, sizeof b, "0%o (%d)", (unsigned)v.n, (int)v.n); return b;
	case ARGV_HEX: if (!v.n) return "0"; snprintf(b, sizeof b, "0x%x (%d)", (unsigned)v.n, (int)v.n); return b;
	case ARGV_SIZE: case ARGV_U_SIZE: {
		bool sgn = ARGV_TYPE(ty) == ARGV_SIZE; __int128 x = sgn ? (__int128)v.n : (__int128)(unsigned long long)v.n;
		auto n = [&](__int128 y) { char q[40]; if (sgn) snprintf(q, sizeof q, "%lld", (long long)y); else snprintf(q, sizeof q, "%llu", (unsigned long long)y); return Str(q); };
		if (!x) return "0"; if (x % (1 << 30) == 0) return n(x / (1 << 30)) + "g (" + n(x) + ")"; if (x % (1 << 20) == 0) return n(x / (1 << 20)) + "m (" + n(x) + ")"; if (x % 1024 == 0) return n(x / 1024) + "k (" + n(x) + ")"; return n(x); }
	case ARGV_U_LONG: snprintf(b, sizeof b, "%llu", (unsigned long long)v.n); return b; case ARGV_U_INT: snprintf(b, sizeof b, "%u", (unsigned)v.n); return b; case ARGV_U_SHORT: snprintf(b, sizeof b, "%u", (unsigned short)v.n); return b;
	case ARGV_SHORT: snprintf(b, sizeof b, "%d", (short)v.n); return b; case ARGV_INT: case ARGV_INCR: snprintf(b, sizeof b, "%d", (int)v.n); return b; case ARGV_LONG: snprintf(b, sizeof b, "%lld", v.n); return b;
	}
	return "(unknown)";
}
static void c_value(const Case &c) {
	here();
	unsigned ty = c.b[0][0]; int n = c.b[2][0], size = getnum(c.b[3]); bool arr = n > 0; if (n == 255) { arr = true; n = 0; }
	Val v; v.s = str(c.b[1]); if (ARGV_TYPE(ty) == ARGV_CHAR_P) { if (c.b[1].size() == 1 && c.b[1][0] == 255) v.n = -77; } else if (ARGV_TYPE(ty) == ARGV_FLOAT || ARGV_TYPE(ty) == ARGV_DOUBLE) v.d = strtod(v.s.c_str(), nullptr); else v.n = getnum(c.b[1]);
	size_t es = tsize(ty); int cnt = arr ? n : 1; Bytes st(es * (cnt ? cnt : 1)); char *sp2 = v.n == -77 && ARGV_TYPE(ty) == ARGV_CHAR_P ? nullptr : strdup(v.s.c_str());
	Exact mem(st);
	for (int i = 0; i < cnt; i++) { void *p = mem.p + i * es;
		if (i) memset(p, 0, es); else if (ARGV_TYPE(ty) == ARGV_CHAR_P) *(char **)p = sp2; else if (ARGV_TYPE(ty) == ARGV_FLOAT) *(float *)p = v.d; else if (ARGV_TYPE(ty) == ARGV_DOUBLE) *(double *)p = v.d; else memcpy(p, &v.n, es); }
	argv_array_t a{ n, cnt ? mem.p : nullptr }; argv_t e{ 'x', "x", ty | (arr ? ARR : 0), arr ? (void *)&a : (void *)mem.p, nullptr, nullptr };
	Exact buf(size, 0xEE); int r = argv_value_string(&e, (char *)buf.p, size); tr();
	Str want = arr && n == 0 ? "0 array entries" : valtext(ty, v), tail; bool str_ = !(arr && n == 0) && (ARGV_TYPE(ty) == ARGV_CHAR || (ARGV_TYPE(ty) == ARGV_CHAR_P && v.n != -77));
	if (n > 1 && arr) { char b[50]; snprintf(b, sizeof b, " (1st of %d entries)", n); tail = b; }
	Str exp;
	if (str_) { for (auto &x : ARGV_TYPE(ty) == ARGV_CHAR ? pieces(Str(1, (char)v.n), true) : pieces(v.s, false)) { if ((int)(exp.size() + x.size()) >= size) break; exp += x; } }
	else exp = want.substr(0, size - 1);
	exp = (exp + tail).substr(0, size - 1);
	size_t z = 0; while ((int)z < size && buf.p[z]) z++;
	MC_CHECK((int)z < size, "type %u: no terminator within the %d octets of the buffer", ty, size);
	MC_CHECK(exp == (char *)buf.p && r == (int)exp.size(), "type %u into %d octets: \"%s\" (%d), expected \"%s\"", ty, size, Esc((char *)buf.p).s, r, Esc(exp.c_str()).s);
	free(sp2); state(hstr(ty, exp.c_str())); valid(); if (sampling) note("%s", exp.c_str());
}
static void c_copy(const Case &c) {
	here(); int size = getnum(c.b[0]); std::vector<char *> v; Str all; v.push_back((char *)"prog");
	for (size_t i = 1; i < c.b.size(); i++) { Str s = str(c.b[i]); v.push_back(strdup(s.c_str())); if (i > 1) all += ' '; all += s; }
	v.push_back(nullptr); argv_argv = v.data(); argv_argc = v.size() - 1;
	Exact buf(size, 0xEE); int r = argv_copy_args((char *)buf.p, size); tr(); MC_CHECK(r == 0, "result %d", r);
	if (size > 0) { size_t z = 0; while ((int)z < size && buf.p[z]) z++; MC_CHECK((int)z < size, "no terminator within %d octets", size); Str got = (char *)buf.p;
		Str want = all.substr(0, size - 1); MC_CHECK(got == want || (got + " " == want && (int)want.size() == size - 1), "copied \"%s\" into %d octets, expected \"%s\"", Esc(got.c_str()).s, size, Esc(want.c_str()).s); state(hstr(1, got.c_str())); }
	argv_argv = nullptr; argv_argc = 0; for (size_t i = 1; i + 1 < v.size(); i++) free(v[i]); valid();
}
static void c_type(const Case &c) {
	unsigned ty = getnum(c.b[0]), base = ty & 0x3f, size = 77; const char *desc = nullptr, *n = argv_type_info(ty, &size, &desc), *n2 = argv_type_info(ty, nullptr, nullptr); tr();
	MC_CHECK(n && desc && *n && *desc && !strcmp(n, n2), "type %u: no name or description", ty);
	bool known = base >= 1 && base <= 22; MC_CHECK(size == (known ? tsize(base) : 0), "type %u: size %u, expected %zu", ty, size, known ? tsize(base) : 0);
	MC_CHECK((strstr(n, "unknown") == nullptr) == known, "type %u: named \"%s\"", ty, n); state(hstr(size, n)); valid();
}
void mc::check(const Case &c) {
	switch (c.kind) { case K_ARGS: case K_FILE: c_args(c); break; case K_FRESH: c_fresh(c); break; case K_VALUE: c_value(c); break; case K_COPY: c_copy(c); break; case K_TYPE: c_type(c); break; }
}

// ---- enumeration ------------------------------------------------------------------------------
typedef std::vector<const char *> Words;
static void seqs(const Words &alpha, int len, const std::function<void(const std::vector<Bytes> &)> &f) {
	std::vector<size_t> ix(len, 0);
	for (;;) { std::vector<Bytes> v; for (size_t i : ix) v.push_back(S(alpha[i])); f(v); int k = len - 1; while (k >= 0 && ++ix[k] == alpha.size()) ix[k--] = 0; if (k < 0) break; }
}
static void args(int kind, int ti, int s, int em, int a0, const char *env, const Bytes &file, const std::vector<Bytes> &v) {
	std::vector<Bytes> b{ B({ ti, s, em, a0 }), S(env), file }; b.insert(b.end(), v.begin(), v.end()); run(kind, b);
}
void mc::enumerate() {
	const int ALL = S_CLOSE | S_MULTI | S_STREAM;
	// fresh processes: before this process has called the library
	auto fresh = [&](int ti, int s, int api, bool inter, bool nostream, bool ver, const char *env, const char *glob, std::vector<const char *> v) { std::vector<Bytes> b{ B({ ti, s, api | inter << 2 | nostream << 3 | ver << 4, 0 }), S(env), S(glob) }; for (auto x : v) b.push_back(S(x)); run(K_FRESH, b); };
	for (int ti = 0; ti < NT; ti++) for (int inter = 0; inter < 2; inter++) for (int no = 0; no < 2; no++) {
		for (int api : { A_PROCESS, A_NOENV }) { fresh(ti, 0, api, inter, no, 0, "", "", {}); fresh(ti, 1, api, inter, no, 1, "", "", { "-~" }); }
		for (int k = 0; k <= 6; k++) fresh(ti, k << 1 | 1, A_USAGE, inter, no, 0, "", "", {});
	}
	for (int inter = 0; inter < 2; inter++) for (int no = 0; no < 2; no++) for (int ver = 0; ver < 2; ver++) for (int ti : { 0, 1, 2, 3, 5, 6, 8, 14 }) for (const char *a : { "--usage", "--help", "--usage-short", "--usage-long", "--usage-all", "--version", "--argv-display", "-?", "--argv-file=nofile", "--xyz", "--h", "-x?", "--vers" }) for (const char *b : { "", "-i=7", "-s=a\nb", "--long=4" })
		for (int order = 0; order < 2; order++) { if (!*b && order) continue; std::vector<const char *> v; if (*b && !order) v.push_back(b); v.push_back(a); if (order) v.push_back(b); fresh(ti, 0, A_PROCESS, inter, no, ver, "", "", v); }
	static const char *GL[] = { "close=off", "close=no", "close=0", "close=disable", "close=on", "close=yes", "close=1", "close=enable", "close=x", "lasttog=off", "lasttog=on", "lasttog=1", "lasttog=no", "lasttog=enable", "lasttog=disable", "lasttog=yes", "lasttog=0", "lasttog=", "env=none", "env=before", "env=after", "env=x", "error=none", "error=see", "error=short", "error=shortrem", "error=long", "error=all", "error=x",
		"multi=reject", "multi=accept", "multi=x", "usage=short", "usage=shortrem", "usage=long", "usage=all", "usage=none", "other=1", "close", "=", "" };
	for (auto g1 : GL) for (auto g2 : GL) { static const char SEP[] = " \t,:"; Str g = g1; g += SEP[(strlen(g1) + strlen(g2)) & 3]; g += g2; int q = (strlen(g1) * 3 + strlen(g2)) & 3;
		if (!*g1 || !*g2 || !strncmp(g1, g2, 3) || thorough) for (int k = 0; k < 4; k++) { if (k != q && !thorough && *g2) continue; static const std::vector<std::vector<const char *>> av = { { "-i=3", "-v" }, { "-i", "4", "-i", "5" }, { "--", "a", "--", "-v" }, { "-q" } }; fresh(14, 0, A_PROCESS, 0, 0, 0, "-x --i=9", g.c_str(), av[k]); fresh(14, 0, A_USAGE, 0, 0, 0, "", g.c_str(), {}); } }
	// wrong tables, program names, empty vectors
	for (int ti = 0; ti < NT; ti++) for (int s : { ALL, 0 }) for (int a0 = 0; a0 < 5; a0++) for (const char *a : { (const char *)nullptr, "-b", "1", "--bool", "-\376", "-\375x", "-\374", "-\373=1", "-\377", "-\375=3", "-\376=3", "-\376", "-\375", "--", "-", "", "--=5", "-=5", "-?" })
		args(K_ARGS, ti, s, 0, a0, "", {}, a ? std::vector<Bytes>{ S(a) } : std::vector<Bytes>{});
	for (int ti = 0; ti < NGOOD; ti++) for (const char *a : { "-\376", "-\375", "-\374", "-\373", "-\376=4", "-\375=4", "-\374=4", "-\373=4" }) for (const char *b : { "3", "x", "-v", "--" }) for (const char *c2 : { "4", "-m" }) {
		args(K_ARGS, ti, ALL, 0, 0, "", {}, { S(a), S(b), S(c2) }); args(K_ARGS, ti, ALL, 0, 0, "", {}, { S(b), S(a), S(c2) }); args(K_ARGS, ti, ALL, 0, 0, "", {}, { S(a) }); args(K_ARGS, ti, ALL, 0, 0, "", {}, { S(a), S(c2) }); }
	for (int ti = 0; ti < NT; ti++) for (int em = 0; em < 4; em++) args(K_ARGS, ti, ALL, em, 5, "-v", {}, {});
	for (int a0 = 0; a0 < 5; a0++) for (int em = 0; em < 4; em++) for (const char *env : { "", " ", "\t \t", "-v", " -i\t5 ", "--str=x -v", "-i", "pos", "--", "-- -v", "-q", "-i=3 -i 4", "-iii" }) for (const char *a : { "-v", "7", "-i", "--", "-s", "--str=u" }) for (const char *b : { "", "8", "-i", "-x" })
		args(K_ARGS, 14, ALL, em, a0, env, {}, *b ? std::vector<Bytes>{ S(a), S(b) } : std::vector<Bytes>{ S(a) });
	// every type, every value, every way of giving it
	static const char *VAL[] = { "0", "1", "5", "-5", "+7", " 8", "\t-9", "12x", "x", "", "yes", "Yes", "true", "T", "no", "f", "Y1", "101", "0x1f", "0X1F", "ff", "FfZ", "x1", "777", "78", "12", "2b", "102", "32767", "-32768", "32768", "65535", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808",
		"3.5", "-2.5e1", ".5", "-.5", "1k", "2K", "3m", "4M", "5g", "6G", "7b", "8B", "-1k", "+2m", "1 k", "--5", "-", "--", "=", "a=b", "8388607g", "1kk", "0k", "08", "-0", "7fffffff", "11111111111111111111111111111", "'", "a b", "\303\251" };
	for (int ti : { 0, 1, 2, 3, 4, 5, 9, 13 }) for (size_t e = 0; e < T[ti].size(); e++) for (auto val : VAL) for (int s : { ALL, ALL & ~S_CLOSE, (int)S_CLOSE }) {
		const E &o = T[ti][e]; Str v = val;
		if (special(o.sh)) { for (const char *a2 : { "3", "9", "-v", "--" }) { args(K_ARGS, ti, s, 0, 0, "", {}, { S(val), S(a2) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S(a2), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S("1"), S(a2), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S("--"), S(a2), S(val) }); } continue; }
		if (o.sh) { Str f = Str("-") + o.sh; args(K_ARGS, ti, s, 0, 0, "", {}, { S(f.c_str()), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S((f + "=" + v).c_str()) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S(f.c_str()), S("--"), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S((f + o.sh).c_str()), S(val), S("1") }); args(K_ARGS, ti, s, 0, 0, "", {}, { S((f + o.sh + "=" + v).c_str()), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S(f.c_str()), S("2"), S(f.c_str()), S(val) }); }
		if (o.lo) { Str f = Str("--") + o.lo; args(K_ARGS, ti, s, 0, 0, "", {}, { S(f.c_str()), S(val) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S((f + "=" + v).c_str()) }); args(K_ARGS, ti, s, 0, 0, "", {}, { S((f.substr(0, 4) + "=" + v).c_str()), S((f + "=" + v).c_str()) }); }
		if (!v.empty() && v.find_first_of(" \t\n") == Str::npos && o.sh) { Str f = Str("-") + o.sh; for (int em : { 1, 2, 3 }) args(K_ARGS, ti, s, em, 0, (f + " " + v).c_str(), {}, { S("-?") }); args(K_FILE, ti, s, 0, 0, "", S((f + "\n" + v + "\n").c_str()), { S("--argv-file"), S("F") }); args(K_FILE, ti, s, 0, 0, "", S((f + "\n" + v).c_str()), { S("--argv-file=F") }); }
	}
	// long arrays, long clusters, long values
	for (int n : { 1, 9, 10, 11, 12, 19, 20, 21, 30, 31, 60, 200 }) {
		std::vector<Bytes> v, w, x; Bytes cl = S("-"), cl2 = S("-"), f, g;
		for (int i = 0; i < n; i++) { char q[20]; snprintf(q, sizeof q, "%d", i); v.push_back(S("-i")); v.push_back(S(q)); w.push_back(S((Str("--str=") + q).c_str())); x.push_back(S("-s")); cl.push_back('i'); cl2.push_back('s'); app(f, S((Str("--long=") + q + "\n").c_str())); app(g, S("-i\n")); }
		for (int i = 0; i < n; i++) { x.push_back(S("val")); }
		for (int s : { ALL, (int)S_CLOSE }) {
			args(K_ARGS, 3, s, 0, 0, "", {}, v); args(K_ARGS, 3, s, 0, 0, "", {}, w); args(K_ARGS, 3, s, 0, 0, "", {}, x);
			for (auto *c : { &cl, &cl2 }) { std::vector<Bytes> y{ *c }; args(K_ARGS, 3, s, 0, 0, "", {}, y); for (int i = 0; i < n; i++) y.push_back(S("4")); args(K_ARGS, 3, s, 0, 0, "", {}, y); args(K_ARGS, 3, s, 1, 0, str(*c).c_str(), {}, std::vector<Bytes>(y.begin() + 1, y.end())); }
			args(K_FILE, 3, s, 0, 0, "", f, { S("--argv-file=F") }); args(K_FILE, 3, s, 0, 0, "", g, { S("--argv-file=F") }); Bytes gg = g; for (int i = 0; i < n; i++) app(gg, S("5\n")); args(K_FILE, 3, s, 0, 0, "", gg, { S("--argv-file=F") });
			std::vector<Bytes> files(n, S("--argv-file=F")); if (n <= 31) args(K_FILE, 3, s, 0, 0, "", f, files);
			std::vector<Bytes> pos(n, S("p")); pos.insert(pos.begin(), S("3")); args(K_ARGS, 4, s, 0, 0, "", {}, pos); args(K_ARGS, 5, s, 0, 0, "", {}, pos); args(K_ARGS, 14, s, 0, 0, "", {}, pos);
			Bytes lv = cat({ S("--str="), rep('y', n * 5) }); args(K_ARGS, 1, s, 0, 0, "", {}, { lv }); args(K_FILE, 1, s, 0, 0, "", lv, { S("--argv-file=F") });
		}
	}
	// all vectors over an alphabet per table
	struct A { int ti; Words w; int len; };
	const int d = thorough ? 1 : 0;
	std::vector<A> as = {
		{ 0, { "-b", "-n", "-a", "-B", "-x", "-xx", "-bn", "-bax", "yes", "no", "--bool", "--b", "--incr=4", "-b=no", "--neg=yes", "--", "-q" }, 3 + d },
		{ 1, { "-c", "-s", "-i", "-h", "-hi", "-si", "--str", "--s", "--sh", "--int=4", "-i=5", "-5", "7", "txt", "--", "-" }, 4 + d },
		{ 3, { "-i", "-ii", "-s", "-c", "--long", "--long=3", "-s=a", "5", "-6", "--", "-v", "-vi" }, 4 + d },
		{ 4, { "-v", "-s", "--str=q", "3", "x", "", "-", "--", "-vs", "-7" }, 5 + d },
		{ 5, { "-i", "-i=2", "3", "x", "--", "-4", "--int" }, 5 + d },
		{ 6, { "-a", "-b", "-c", "-m", "-d", "-e", "--bb=3", "--must=1", "-ab", "-ee", "4" }, 4 + d },
		{ 7, { "-a", "-b", "-c", "-v", "-d", "-e", "--bb=3", "--dd", "-ad", "-ee", "4" }, 4 + d },
		{ 8, { "--size", "--size=3", "--siz", "--size-", "--size-max=4", "--si", "--sin", "--s", "--h", "--he", "--hel", "--hell", "--help", "--argv-f", "--argv-fi", "--argv-fil", "--a", "--argv-d", "--u", "--usage", "--usage-x", "--usage-s", "--v", "-q", "5", "--sizes", "--q", "--" }, 3 },
		{ 9, { "-5", "-55", "-i", "-I", "-d", "-a", "-6", "-6.5", "-.", "--int", "-5i", "-i5", "8", "-?", "--argv-file", "-6x" }, 4 },
		{ 10, { "-a", "--b", "x", "--", "--help", "-?", "--argv-file", "--version" }, 3 },
		{ 12, { "-v", "x", "--", "-", "y", "-vv" }, 4 },
		{ 14, { "-i", "-s", "-v", "-x", "-a", "-ia", "--arr=q", "--i=3", "3", "t", "-4", "--", "-=", "--xinc" }, 4 + d },
	};
	for (auto &a : as) for (int len = 1; len <= a.len; len++) seqs(a.w, len, [&](const std::vector<Bytes> &v) {
		args(K_ARGS, a.ti, ALL, 0, 0, "", {}, v);
		if (len <= (thorough ? 4 : 3)) { args(K_ARGS, a.ti, S_CLOSE | S_TOGGLE, 0, 0, "", {}, v); args(K_ARGS, a.ti, S_MULTI | S_TOGGLE | S_STREAM, 0, 0, "", {}, v); args(K_ARGS, a.ti, S_CLOSE, 0, 0, "", {}, v); }
		if (len <= 3) for (int cut = 1; cut <= len; cut++) for (int em : { 1, 2 }) {      // part of the vector comes from the environment
			Str e; bool okk = true; std::vector<Bytes> rest; for (int i = 0; i < len; i++) { bool in = em == 1 ? i < cut : i >= len - cut; if (in) { if (v[i].empty()) okk = false; e += (e.empty() ? "" : " ") + str(v[i]); } else rest.push_back(v[i]); }
			if (okk) args(K_ARGS, a.ti, ALL, em, 0, e.c_str(), {}, rest);
		}
		if (len <= (thorough ? 3 : 2)) { Bytes f; for (auto &x : v) { app(f, x); f.push_back('\n'); }
			args(K_FILE, a.ti, ALL, 0, 0, "", f, { S("--argv-file=F") }); args(K_FILE, a.ti, ALL, 0, 0, "", f, { S("--argv-file"), S("F"), v[0] }); args(K_FILE, a.ti, ALL, 0, 0, "", f, { v[0], S("--argv-f"), S("F") }); args(K_FILE, a.ti, ALL, 0, 0, "", f, { S("--argv-file=nofile"), v[0] }); args(K_FILE, a.ti, S_STREAM, 0, 0, "", f, { S("--argv-file"), v[0], S("F") }); args(K_FILE, a.ti, ALL, 1, 0, "--argv-file=F", f, v); }
	});
	// argv_value_string, argv_copy_args, argv_type_info
	for (unsigned ty = 0; ty <= 0x3f; ty++) { for (unsigned f : { 0u, ARR, MUST, 1u << 12 }) run(K_TYPE, { num(ty | f) }); }
	static const char *STR[] = { "", "a", "abc", "\n", "a\nb", "\033^\"'\\\n\r\t\b\f\007", "\001\177\200\377", "\001", "x\001", "long text that goes on and on" };
	static const int64_t NUM[] = { 0, 1, -1, 5, 127, -128, 255, 1023, 1024, 1025, 1 << 20, 1 << 30, 3LL << 30, -1024, 2147483647, -2147483648LL, INT64_MAX, INT64_MIN, 0x7fffffff00000000, 10, 34, 39, 92, 94 };
	for (unsigned ty = 1; ty <= 22; ty++) for (int n : { 0, 1, 2, 12, 255 }) for (int size = 1; size <= (thorough ? 90 : 60); size++) {
		if (ty == ARGV_CHAR_P) { for (auto s : STR) run(K_VALUE, { B({ (int)ty }), S(s), B({ n }), num(size) }); run(K_VALUE, { B({ (int)ty }), B({ 255 }), B({ n }), num(size) }); }
		else if (ty == ARGV_FLOAT || ty == ARGV_DOUBLE) for (const char *s : { "0", "1.5", "-2.25", "1e30", "-1e-3" }) run(K_VALUE, { B({ (int)ty }), S(s), B({ n }), num(size) });
		else for (int64_t v : NUM) { if (tsize(ty) == 1) v = (int8_t)v; if (tsize(ty) == 2) v = (int16_t)v; if (tsize(ty) == 4) v = (int32_t)v; run(K_VALUE, { B({ (int)ty }), num(v), B({ n }), num(size) }); }
	}
	Words cw = { "", "a", "bcd", "--x=5", "a b" };
	for (int len = 0; len <= (thorough ? 4 : 3); len++) seqs(cw, len, [&](const std::vector<Bytes> &v) { for (int size = 0; size <= 24; size++) { std::vector<Bytes> b{ num(size) }; b.insert(b.end(), v.begin(), v.end()); run(K_COPY, b); } });
}
