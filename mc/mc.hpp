// Explorer shared by all harnesses: exhaustive enumeration of cases (inputs, operation
// sequences, fault patterns, schedules) sharded over worker processes, each case executed
// against the real code, crashes / hangs / leaks / disagreements turned into replayable files.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <initializer_list>
#include <algorithm>

typedef std::vector<uint8_t> Bytes;

namespace mc {

struct Case {
	int kind;
	std::vector<Bytes> b;
};

extern bool thorough;          // the deeper bounds: VERIF_TIER=thorough, or a check that affords them on every change
extern bool deepest;           // the thorough tier of such a check
extern uint64_t seed;
extern const char *property;   // e.g. "C02"
extern bool sampling;          // true while the current case is to be described as a sample
extern volatile int64_t live_blocks;    // malloc'ed minus freed blocks (ASAN hooks)
extern unsigned lead;          // octets before an exact-size buffer: its misalignment in this case
extern int nworkers, worker_id;
extern const char *scratch_dir;   // scratch directory of this run (per worker sub-directory: see wdir())

// --- to be provided by the harness -------------------------------------------------------
void enumerate();                  // calls run() for every case, simplest first
void check(const Case &c);         // executes one case; calls fail() on a violation
extern const char *kind_names[];   // names of case kinds

// --- services ------------------------------------------------------------------------------
// one enumerated case: executed here if this worker owns it
void run(int kind, std::vector<Bytes> blobs);
// coarse sharding: true if this worker owns the next unit (then cases inside are all its own)
bool unit();
// inside a unit: execute unconditionally
void run_owned(int kind, std::vector<Bytes> blobs);
// fast path for very cheap cases: count only; on failure call fail_case()
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// assert-like
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
// record an observed outcome / state (hash) -> states
bool state(uint64_t h);
// count calls of the code under test / model transitions
extern uint64_t *transitions;
inline void tr(uint64_t n = 1) { *transitions += n; }
// count cases compared step by step with the reference model
extern uint64_t *validated;
inline void valid(uint64_t n = 1) { *validated += n; }
void add_cases(uint64_t n);        // cases executed inside one run() (batches)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // sample description
void not_exhaustive(const char *why);
void info(const char *key, uint64_t v); // additional counters (summed over workers)
bool out_of_time();                // soft deadline reached: enumeration must stop
const char *wdir();                // private scratch directory of this worker

// --- hashing -------------------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hbytes(uint64_t h, const void *p, size_t n) {
	const uint8_t *b = (const uint8_t *)p;
	h = mix(h, n);
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
	uint64_t v = 0; if (n) memcpy(&v, b, n);
	return mix(h, v);
}
inline uint64_t hstr(uint64_t h, const char *s) { return hbytes(h, s, strlen(s)); }

// --- exact-size buffers ----------------------------------------------------------------------
// heap copy whose first octet after the end is poisoned, also for length zero
struct Exact {
	uint8_t *base, *p; size_t n;
	explicit Exact(const Bytes &b) { init(b.data(), b.size()); }
	Exact(const void *d, size_t n_) { init(d, n_); }
	explicit Exact(size_t n_, uint8_t fill) { init(nullptr, n_); if (n_) memset(p, fill, n_); }
	void init(const void *d, size_t n_) {
		n = n_;
		if (n == 0) { base = (uint8_t *)malloc(8); p = base + 8; }
		else { base = (uint8_t *)malloc(lead + n); p = base + lead; if (d) memcpy(p, d, n); }
	}
	~Exact() { free(base); }
	Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete;
	uint8_t *end() { return p + n; }
};

// hex helpers
void hex_append(char *out, size_t cap, const void *p, size_t n); // appends
struct Hex { // printable hex for messages
	char s[400];
	Hex(const void *p, size_t n) { s[0] = 0; hex_append(s, sizeof s, p, n); }
	explicit Hex(const Bytes &b) { s[0] = 0; hex_append(s, sizeof s, b.data(), b.size()); }
};
struct Esc { // printable text for messages
	char s[400];
	explicit Esc(const char *t) { init(t, t ? strlen(t) : 0); }
	explicit Esc(const Bytes &b) { init((const char *)b.data(), b.size()); }
	void init(const char *t, size_t n);
};

inline Bytes B(std::initializer_list<int> l) { Bytes r; for (int x : l) r.push_back((uint8_t)x); return r; }
inline Bytes S(const char *s) { return Bytes(s, s + strlen(s)); }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes be16(unsigned v) { return B({(int)(v >> 8 & 255), (int)(v & 255)}); }
inline Bytes be32(uint32_t v) { return B({(int)(v >> 24), (int)(v >> 16 & 255), (int)(v >> 8 & 255), (int)(v & 255)}); }
inline Bytes rep(uint8_t c, size_t n) { return Bytes(n, c); }
inline Bytes sub(const Bytes &b, size_t off, size_t n) { return Bytes(b.begin() + off, b.begin() + off + n); }
inline Bytes num(uint64_t v) { Bytes r(8); memcpy(r.data(), &v, 8); return r; }
inline uint64_t getnum(const Bytes &b) { uint64_t v = 0; memcpy(&v, b.data(), b.size() < 8 ? b.size() : 8); return v; }

} // namespace mc
