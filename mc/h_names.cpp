// C02 compressed names, C10 name text, C11 uncompressed primitives, C12 label algebra
#include "refname.hpp"
#include <wdns/wdns.h>

enum { K_UNPACK, K_SKIP, K_NAME2TEXT, K_TEXT2NAME, K_UNAME, K_DOMAIN, K_LABELS, K_SUBDOM, K_REVERSE, K_CHOP };
const char *mc::kind_names[] = { "unpack(message, offset)", "skip(buffer)", "name-to-text-and-back(wire)", "text-to-name(text)", "len/copy_uname(buffer, offset)",
	"domain_to_str(octets)", "count_labels(octets)", "is_subdomain(name, name)", "reverse(octets)", "left_chop(octets)" };

static bool P(const char *id) { return !strcmp(mc::property, id); }

// ---------------------------------------------------------------------------------------- checks

static void do_unpack(const Bytes &m, size_t off) {
	Exact e(m);
	Bytes want; size_t next = 0;
	bool ok = ref_unpack(m.data(), m.size(), off, want, &next);
	for (int nul = 0; nul < 2; nul++) {
		uint8_t *dst = (uint8_t *)malloc(255);
		memset(dst, 0xEE, 255);
		size_t sz = 12345;
		wdns_res r = wdns_unpack_name(e.p, e.end(), e.p + off, dst, nul ? nullptr : &sz); tr();
		if (ok) {
			MC_CHECK(r == wdns_res_success, "unpack_name refused a valid name (res %d), expected %s", r, Hex(want).s);
			MC_CHECK(nul || sz == want.size(), "unpack_name length %zu, expected %zu", sz, want.size());
			MC_CHECK(!memcmp(dst, want.data(), want.size()), "unpack_name gave %s, expected %s", Hex(dst, want.size()).s, Hex(want).s);
			for (size_t i = want.size(); i < 255; i++) MC_CHECK(dst[i] == 0xEE, "unpack_name wrote octet %zu beyond the name", i);
		} else MC_CHECK(r != wdns_res_success, "unpack_name accepted a malformed name, gave %zu octets %s", sz, nul ? "" : Hex(dst, sz < 255 ? sz : 255).s);
		free(dst);
	}
	state(ok ? hbytes(1, want.data(), want.size()) : 2);
	valid();
	note("%s", ok ? Hex(want).s : "refused");
}

static void do_skip(const Bytes &m) {
	Exact e(m);
	const uint8_t *d = e.p;
	size_t r = wdns_skip_name(&d, e.end()); tr();
	MC_CHECK(d >= e.p && d <= e.end(), "skip_name left the buffer: %td of %zu", d - e.p, e.n);
	MC_CHECK(r == (size_t)(d - e.p), "skip_name returned %zu but advanced %td", r, d - e.p);
	long want = ref_skip(m.data(), m.size());
	MC_CHECK(want < 0 || (long)r == want, "skip_name advanced %zu, expected %ld", r, want);
	state(mix(3, r)); valid();
	note("%zu", r);
}

static void do_name2text(const Bytes &w) {
	Exact e(w);
	char *dst = (char *)malloc(WDNS_PRESLEN_NAME);
	size_t rd = wdns_domain_to_str(e.p, e.n, dst); tr();
	Bytes want = ref_name_text(w);
	MC_CHECK(strlen(dst) == want.size() && !memcmp(dst, want.data(), want.size()), "domain_to_str gave `%s', expected `%s'", Esc(dst).s, Esc(want).s);
	MC_CHECK(rd == w.size(), "domain_to_str reports %zu octets read of a %zu octet name", rd, w.size());
	Bytes folded = w; // unescaped upper-case letters
	for (size_t o = 0; w[o]; o += w[o] + 1) for (unsigned i = 1; i <= w[o]; i++) if (w[o + i] >= 'A' && w[o + i] <= 'Z') folded[o + i] += 32;
	for (int fold = 0; fold < 2; fold++) {
		Exact t(dst, strlen(dst) + 1);
		wdns_name_t nm; memset(&nm, 0x55, sizeof nm);
		wdns_res r = fold ? wdns_str_to_name((char *)t.p, &nm) : wdns_str_to_name_case((char *)t.p, &nm); tr();
		MC_CHECK(r == wdns_res_success, "text `%s' of a valid name was refused (res %d)", Esc(dst).s, r);
		const Bytes &x = fold ? folded : w;
		MC_CHECK(nm.len == x.size() && !memcmp(nm.data, x.data(), x.size()), "round trip of `%s' gave %s, expected %s", Esc(dst).s, Hex(nm.data, nm.len).s, Hex(x).s);
		free(nm.data);
	}
	state(hbytes(4, want.data(), want.size())); valid();
	note("`%s'", Esc(dst).s);
	free(dst);
}

static void do_text2name(const Bytes &t) {
	Bytes z = t; z.push_back(0);
	uint64_t h = 5;
	for (int fold = 0; fold < 2; fold++) {
		Exact e(z);
		Bytes want; bool ok = ref_text_name(t.data(), t.size(), fold, want);
		wdns_name_t nm; memset(&nm, 0x55, sizeof nm);
		wdns_res r = fold ? wdns_str_to_name((char *)e.p, &nm) : wdns_str_to_name_case((char *)e.p, &nm); tr();
		if (ok) {
			MC_CHECK(r == wdns_res_success, "valid name text refused (res %d), expected %s", r, Hex(want).s);
			MC_CHECK(nm.len == want.size() && !memcmp(nm.data, want.data(), want.size()), "name text gave %s, expected %s", Hex(nm.data, nm.len).s, Hex(want).s);
			free(nm.data);
			h = hbytes(h, want.data(), want.size());
		} else {
			if (r == wdns_res_success) MC_CHECK(0, "invalid name text accepted as %s", Hex(nm.data, nm.len).s);
			h = mix(h, 7);
		}
		if (fold) note("%s", ok ? Hex(want).s : "refused");
	}
	state(h); valid();
}

static void do_uname(const Bytes &m, size_t off) {
	Exact e(m);
	int want = ref_len_uname(m.data() + off, m.size() - off);
	size_t sz = 4711;
	wdns_res r = wdns_len_uname(e.p + off, e.end(), &sz); tr();
	if (want >= 0) MC_CHECK(r == wdns_res_success && sz == (size_t)want, "len_uname: res %d length %zu, expected %d", r, sz, want);
	else MC_CHECK(r != wdns_res_success, "len_uname accepted an incomplete or malformed name, length %zu of %zu octets", sz, m.size() - off);
	for (int nul = 0; nul < 2; nul++) {
		uint8_t *dst = (uint8_t *)malloc(255); memset(dst, 0xEE, 255);
		sz = 4711;
		r = wdns_copy_uname(e.p, e.end(), e.p + off, dst, nul ? nullptr : &sz); tr();
		if (want >= 0) {
			MC_CHECK(r == wdns_res_success && (nul || sz == (size_t)want), "copy_uname: res %d length %zu, expected %d", r, sz, want);
			MC_CHECK(!memcmp(dst, m.data() + off, want), "copy_uname copied %s", Hex(dst, want).s);
			for (int i = want; i < 255; i++) MC_CHECK(dst[i] == 0xEE, "copy_uname wrote octet %d beyond the name", i);
		} else MC_CHECK(r != wdns_res_success, "copy_uname accepted an incomplete or malformed name");
		free(dst);
	}
	// no octets at all, or a start outside the message
	if (!off) {
		uint8_t *dst = (uint8_t *)malloc(255);
		MC_CHECK(wdns_len_uname(e.end(), e.end(), &sz) != wdns_res_success, "len_uname found a name in no octets");
		MC_CHECK(wdns_copy_uname(e.p, e.end(), e.end(), dst, &sz) != wdns_res_success, "copy_uname found a name behind the message");
		MC_CHECK(wdns_copy_uname(e.end(), e.end(), e.end(), dst, &sz) != wdns_res_success, "copy_uname found a name in no octets");
		for (size_t i = 1; i <= m.size() && i <= 3; i++) MC_CHECK(wdns_copy_uname(e.p + i, e.end(), e.p + i - 1, dst, &sz) != wdns_res_success, "copy_uname found a name before the message");
		free(dst); tr();
	}
	state(mix(6, want)); valid();
	note("%d", want);
}

static void do_domain(const Bytes &m) {
	Exact e(m);
	char *dst = (char *)malloc(WDNS_PRESLEN_NAME); memset(dst, 0x7f, WDNS_PRESLEN_NAME);
	size_t rd = wdns_domain_to_str(e.p, e.n, dst); tr();
	size_t l = strnlen(dst, WDNS_PRESLEN_NAME);
	MC_CHECK(l < WDNS_PRESLEN_NAME, "domain_to_str did not terminate its text");
	if (!m.empty() && ref_len_uname(m.data(), m.size()) >= 0) {
		Bytes want; ref_name_text_append(want, m.data(), m.size());
		MC_CHECK(l == want.size() && !memcmp(dst, want.data(), l), "domain_to_str gave `%s', expected `%s'", Esc(dst).s, Esc(want).s);
		MC_CHECK((int)rd == ref_len_uname(m.data(), m.size()), "domain_to_str read %zu octets", rd);
	}
	state(hbytes(8, dst, l)); valid();
	note("`%s'", Esc(dst).s);
	free(dst);
}

static wdns_name_t nm(Exact &e) { wdns_name_t n; n.len = (uint8_t)e.n; n.data = e.p; return n; }
static void same(const Exact &e, const Bytes &b, const char *f) { MC_CHECK(e.n == b.size() && (!e.n || !memcmp(e.p, b.data(), e.n)), "%s changed its input", f); }

static void do_labels(const Bytes &w) {
	Exact e(w); wdns_name_t n = nm(e);
	size_t cnt = 999;
	wdns_res r = wdns_count_labels(&n, &cnt); tr();
	if (ref_valid_name(w)) {
		size_t want = ref_labels(w).size();
		MC_CHECK(r == wdns_res_success && cnt == want, "count_labels res %d count %zu, expected %zu", r, cnt, want);
	}
	same(e, w, "count_labels");
	state(mix(mix(9, r), cnt)); valid();
	note("res %d, %zu labels", r, cnt);
}

static void do_chop(const Bytes &w) {
	Exact e(w); wdns_name_t n = nm(e), c;
	c.len = 0x77; c.data = nullptr;
	wdns_res r = wdns_left_chop(&n, &c); tr();
	if (ref_valid_name(w)) {
		MC_CHECK(r == wdns_res_success, "left_chop refused a valid name");
		size_t k = w[0] ? w[0] + 1 : 0;
		MC_CHECK(c.len == w.size() - k && c.data == e.p + k, "left_chop gave offset %td length %d", c.data - e.p, c.len);
		// chopping repeatedly walks every suffix and ends at the root
		size_t steps = 0;
		while (c.len > 1) { wdns_name_t d; MC_CHECK(wdns_left_chop(&c, &d) == wdns_res_success && d.len < c.len, "left_chop chain stuck"); tr(); c = d; steps++; }
		MC_CHECK(c.len == 1 && c.data[0] == 0 && c.data + 1 == e.end(), "left_chop chain does not end at the root");
		MC_CHECK(n.len == w.size() && n.data == e.p, "left_chop changed the name it was given");
		// the usual loop of a caller: the result goes over the argument
		c = n; size_t at = 0;
		for (size_t i = 0; i <= steps + 2; i++) {
			size_t l = w[at] ? w[at] + 1 : 0; at += l;
			MC_CHECK(wdns_left_chop(&c, &c) == wdns_res_success && c.data == e.p + at && c.len == w.size() - at, "left_chop in place, step %zu: offset %td length %d, expected offset %zu", i, c.data - e.p, c.len, at); tr();
		}
	} else if (r == wdns_res_success) {
		MC_CHECK(c.data >= e.p && c.data + c.len <= e.end(), "left_chop of malformed octets leaves the buffer: offset %td length %d of %zu", c.data - e.p, c.len, e.n);
	}
	same(e, w, "left_chop");
	state(mix(mix(10, r), c.len)); valid();
	note("res %d, %d octets left", r, c.len);
}

static void do_subdom(const Bytes &a, const Bytes &b) {
	Exact ea(a), eb(b); wdns_name_t na = nm(ea), nb = nm(eb);
	bool sub_ = true;
	wdns_res r = wdns_is_subdomain(&na, &nb, &sub_); tr();
	if (ref_valid_name(a) && ref_valid_name(b)) {
		auto la = ref_labels(a), lb = ref_labels(b);
		bool want = la.size() > lb.size() && std::equal(lb.begin(), lb.end(), la.begin() + (la.size() - lb.size()));
		MC_CHECK(r == wdns_res_success && sub_ == want, "is_subdomain res %d says %d, expected %d", r, sub_, want);
		// one name within the other's octets, and a name and itself
		if (want) { wdns_name_t in = { nb.len, na.data + (na.len - nb.len) }; sub_ = false; r = wdns_is_subdomain(&na, &in, &sub_); tr(); MC_CHECK(r == wdns_res_success && sub_, "is_subdomain res %d says no of a name and its own tail", r);
			sub_ = true; r = wdns_is_subdomain(&in, &na, &sub_); tr(); MC_CHECK(r == wdns_res_success && !sub_, "is_subdomain res %d says a tail is below its name", r); }
		sub_ = true; r = wdns_is_subdomain(&na, &na, &sub_); tr(); MC_CHECK(r == wdns_res_success && !sub_, "is_subdomain res %d says a name is below itself", r);
		MC_CHECK(na.len == a.size() && na.data == ea.p && nb.len == b.size() && nb.data == eb.p, "is_subdomain changed a name it was given");
	}
	same(ea, a, "is_subdomain"); same(eb, b, "is_subdomain");
	state(mix(mix(11, r), sub_ + 2 * a.size() + 300 * b.size())); valid();
	note("res %d, %s", r, sub_ ? "yes" : "no");
}

static void do_reverse(const Bytes &w) {
	Exact e(w);
	Exact out(w.size(), 0xEE);
	wdns_res r = wdns_reverse_name(e.p, e.n, out.p); tr();
	same(e, w, "reverse_name");
	if (ref_valid_name(w)) {
		auto l = ref_labels(w); std::reverse(l.begin(), l.end());
		Bytes want = ref_join(l);
		MC_CHECK(r == wdns_res_success && !memcmp(out.p, want.data(), want.size()), "reverse_name res %d gave %s, expected %s", r, Hex(out.p, out.n).s, Hex(want).s);
		Exact back(w.size(), 0xEE);
		r = wdns_reverse_name(out.p, out.n, back.p); tr();
		MC_CHECK(r == wdns_res_success && !memcmp(back.p, w.data(), w.size()), "reversing twice gave %s", Hex(back.p, back.n).s);
	}
	state(mix(hbytes(12, out.p, out.n), r)); valid();
	note("res %d %s", r, Hex(out.p, out.n).s);
}

void mc::check(const Case &c) {
	switch (c.kind) {
	case K_UNPACK: do_unpack(c.b[0], getnum(c.b[1])); break;
	case K_SKIP: do_skip(c.b[0]); break;
	case K_NAME2TEXT: do_name2text(c.b[0]); break;
	case K_TEXT2NAME: do_text2name(c.b[0]); break;
	case K_UNAME: do_uname(c.b[0], getnum(c.b[1])); break;
	case K_DOMAIN: do_domain(c.b[0]); break;
	case K_LABELS: do_labels(c.b[0]); break;
	case K_SUBDOM: do_subdom(c.b[0], c.b[1]); break;
	case K_REVERSE: do_reverse(c.b[0]); break;
	case K_CHOP: do_chop(c.b[0]); break;
	}
}

// ------------------------------------------------------------------------------------ enumeration

// every string over the alphabet with length lo..hi
template <class F> static void strings(const Bytes &al, size_t lo, size_t hi, F f) {
	for (size_t n = lo; n <= hi; n++) {
		std::vector<size_t> ix(n, 0);
		Bytes s(n, al[0]);
		for (;;) {
			f(s);
			size_t k = n;
			while (k > 0) { k--; if (++ix[k] < al.size()) { s[k] = al[ix[k]]; break; } ix[k] = 0; s[k] = al[0]; if (k == 0) { k = n + 1; break; } }
			if (n == 0 || k == n + 1) break;
		}
	}
}
// a label filled with a recognisable pattern
static Bytes lab(size_t n, int seed_ = 0) { Bytes r; r.push_back((uint8_t)n); for (size_t i = 0; i < n; i++) r.push_back((uint8_t)('a' + (i + seed_) % 26)); return r; }
// labels adding up to exactly n octets (n==1 impossible without root: a label needs 2)
static std::vector<Bytes> fill(size_t n, size_t max = 63) {
	std::vector<Bytes> r;
	int s = 0;
	while (n) {
		size_t k = std::min(n, max + 1);
		if (n - k == 1) k--;
		if (k < 2) break;
		r.push_back(lab(k - 1, s++)); n -= k;
	}
	return r;
}
static Bytes joinraw(const std::vector<Bytes> &l) { Bytes r; for (auto &x : l) app(r, x); return r; }

static void enum_unpack() {
	auto both = [](const Bytes &m) { for (size_t o = 0; o < m.size(); o++) run(K_UNPACK, { m, num(o) }); };
	// all short messages over the octets that matter, every start offset
	Bytes al = B({ 0, 1, 2, 'A', 0x3f, 0x40, 0x80, 0xbf, 0xc0, 0xff });
	strings(al, 1, thorough ? 6 : 5, both);
	Bytes al2 = B({ 0, 1, 2, 3, 4, 5, 0xc0, 'a' });
	strings(al2, 6, thorough ? 8 : 6, both);
	Bytes al3 = B({ 0, 1, 2, 0xc0 });
	strings(al3, 7, thorough ? 12 : 9, both);
	// every octet in first place and as a pointer target octet
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) both(B({ 0, 1, 'x', 0, a, b }));
	// length boundary: suffix of L1 octets, then prefix of L2 octets + pointer, all sums around 255, at all truncations near the end
	for (size_t mx : { (size_t)63, (size_t)1, (size_t)30 })
	for (size_t l1 = 0; l1 <= 256; l1++) {
		if (l1 == 1) continue;
		Bytes base = joinraw(fill(l1, mx)); base.push_back(0);
		// plain, uncompressed
		for (size_t cut = 0; cut <= 3 && cut < base.size(); cut++) run(K_UNPACK, { sub(base, 0, base.size() - cut), num(0) });
		for (size_t l2 = (l1 > 10 && !thorough ? (l1 > 252 ? 0 : 252 - l1) : 0); l2 + l1 <= 258; l2++) {
			if (l2 == 1) continue;
			Bytes m = base; size_t off = m.size();
			app(m, joinraw(fill(l2, mx))); m.push_back(0xc0); m.push_back(0);
			run(K_UNPACK, { m, num(off) });
			run(K_UNPACK, { sub(m, 0, m.size() - 1), num(off) });
			run(K_UNPACK, { sub(m, 0, m.size() - 2), num(off) });
		}
	}
	// self-feeding loops: label then pointer to its own start, for every label size
	for (int n = 1; n <= 63; n++) for (int pre = 0; pre < 3; pre++) {
		Bytes m = rep(0, pre); app(m, lab(n)); app(m, B({ 0xc0, pre }));
		both(m);
	}
	// chains of pointers
	for (int k = 1; k <= (thorough ? 120 : 60); k++) {
		Bytes m = B({ 1, 'r', 0 }); size_t prev = 0;
		for (int i = 0; i < k; i++) { size_t at = m.size(); if (i % 3 == 1) app(m, lab(1, i)); m.push_back(0xc0 | prev >> 8); m.push_back(prev & 255); prev = at; }
		run(K_UNPACK, { m, num(prev) }); run(K_UNPACK, { sub(m, 0, m.size() - 1), num(prev) });
	}
	// long chains of pointers without any label between them
	for (size_t k : { 63, 64, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1001, 1023, 1025, 2048, 4096, 4097, 8000, 8188 }) for (int lab1 = 0; lab1 < 2; lab1++) {
		Bytes m = lab1 ? B({ 1, 'r', 0 }) : B({ 0 }); size_t prev = 0;
		for (size_t i = 0; i < k; i++) { size_t at = m.size(); m.push_back(0xc0 | prev >> 8); m.push_back(prev & 255); prev = at; }
		run(K_UNPACK, { m, num(prev) }); run(K_UNPACK, { sub(m, 0, m.size() - 1), num(prev) });
		app(m, B({ 1, 'x', (int)(0xc0 | prev >> 8), (int)(prev & 255) })); run(K_UNPACK, { m, num(m.size() - 4) });
		Bytes z = m; z[lab1 ? 2 : 0] = 0x80; run(K_UNPACK, { z, num(prev) });
	}
	// names at both ends of large buffers
	for (size_t n : { 16384, 32768, 65534, 65535, 65536, 65537, 65540, 131072, 1000000 }) for (size_t l : { 0, 2, 254 }) {
		Bytes w = joinraw(fill(l, 63)); w.push_back(0); Bytes m = w; app(m, rep(0, n - w.size() - 2)); app(m, B({ 0xc0, 0 }));
		for (size_t o : { (size_t)0, l / 2, n / 2, n - 2, n - 1 }) run(K_UNPACK, { m, num(o) });
		Bytes e = rep(7, n - w.size()); app(e, w); run(K_UNPACK, { e, num(n - w.size()) }); run(K_UNPACK, { sub(e, 0, n - 1), num(n - w.size()) }); run(K_UNPACK, { e, num(0) });
	}
	// targets at every magnitude of the 14-bit offset, and pointers to themselves, forward and beyond the end
	for (size_t at : { 12, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 16381, 16382, 16383, 16384, 16390 }) {
		Bytes m = rep(0x40, at); app(m, B({ 3, 'W', 'w', 'W', 0 }));
		for (size_t gap : { 0, 1, 300 }) {
			Bytes q = m; app(q, rep(0x40, gap)); size_t off = q.size();
			for (long d : { 0L, 1L, 2L, 4L, 5L, -1L, 256L, 0x2000L }) {
				size_t t = (at + d) & 0x3fff;
				Bytes z = q; app(z, B({ 1, 'k', (int)(0xc0 | t >> 8), (int)(t & 255) }));
				run(K_UNPACK, { z, num(off) }); run(K_UNPACK, { sub(z, 0, z.size() - 1), num(off) });
				app(z, rep(0, 40)); run(K_UNPACK, { z, num(off) });
			}
			for (long d : { -3L, -2L, -1L, 0L, 1L, 2L, 3L, 5L }) { // relative to the pointer itself
				size_t t = (off + d) & 0x3fff;
				Bytes z = q; app(z, B({ (int)(0xc0 | t >> 8), (int)(t & 255), 0, 0, 0, 0, 0, 0 }));
				run(K_UNPACK, { z, num(off) });
			}
		}
	}
	// skip
	strings(B({ 0, 1, 2, 3, 63, 64, 191, 192, 255, 'a' }), 0, thorough ? 6 : 5, [](const Bytes &m) { run(K_SKIP, { m }); });
	for (int a = 0; a < 256; a++) for (size_t n = 1; n < 260; n++) { Bytes m = rep('a', n); m[0] = a; run(K_SKIP, { m }); m.push_back(0); run(K_SKIP, { m }); }
	for (size_t l = 0; l <= 600; l++) { if (l == 1) continue; Bytes b = joinraw(fill(l)); b.push_back(0); b.push_back('x'); for (size_t cut = 0; cut < 4 && cut < b.size(); cut++) run(K_SKIP, { sub(b, 0, b.size() - cut) });
		b[l] = 0xc0; for (size_t cut = 0; cut < 3 && cut < b.size(); cut++) run(K_SKIP, { sub(b, 0, b.size() - cut) }); }
}

static void enum_text() {
	auto n2t = [](const Bytes &w) { run(K_NAME2TEXT, { w }); };
	n2t(B({ 0 }));
	// every octet at every position of short labels
	for (int c = 0; c < 256; c++) {
		n2t(B({ 1, c, 0 }));
		for (int pos = 0; pos < 3; pos++) { Bytes w = B({ 3, 'a', 'b', 'c', 1, 'd', 0 }); w[1 + pos] = c; n2t(w); w[5] = c; n2t(w); }
		for (int d : { 0, (int)'.', (int)'\\', (int)'0', (int)'9', (int)'A', 0xff, 32, 34, 49 }) { n2t(B({ 2, c, d, 0 })); n2t(B({ 2, d, c, 0 })); n2t(B({ 1, c, 1, d, 0 })); }
	}
	if (thorough) for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d++) { n2t(B({ 2, c, d, 0 })); n2t(B({ 1, c, 1, d, 0 })); }
	strings(B({ 'a', 'Z', '.', '\\', '0', 0, 0x80 }), 1, thorough ? 7 : 5, [&](const Bytes &s) { Bytes w; w.push_back(s.size()); app(w, s); w.push_back(0); n2t(w);
		if (s.size() > 1) for (size_t k = 1; k < s.size(); k++) { Bytes v; v.push_back(k); app(v, sub(s, 0, k)); v.push_back(s.size() - k); app(v, sub(s, k, s.size() - k)); v.push_back(0); n2t(v); } });
	// all lengths up to 255, all label sizes, plain and needing 4 characters per octet
	for (size_t mx = 1; mx <= 63; mx++) for (size_t l = 2; l <= 254; l++) {
		if (!thorough && mx > 3 && mx < 61 && l < 250 && l % 9) continue;
		Bytes w = joinraw(fill(l, mx)); if (w.size() != l) continue; w.push_back(0);
		n2t(w);
		Bytes v = w; for (size_t o = 0; v[o]; o += v[o] + 1) for (unsigned i = 1; i <= v[o]; i++) v[o + i] = (uint8_t)(128 + i);
		n2t(v);
		for (size_t o = 0; v[o]; o += v[o] + 1) for (unsigned i = 1; i <= v[o]; i++) v[o + i] = i % 2 ? '.' : 'Q';
		n2t(v);
	}
	// texts
	auto t2n = [](const Bytes &t) { run(K_TEXT2NAME, { t }); };
	strings(B({ '\\', '.', '0', '2', '5', '9', 'a', 'B' }), 0, thorough ? 8 : 6, t2n);
	strings(B({ '\\', '.', '1', 'a' }), 7, thorough ? 10 : 8, t2n);
	for (int c = 1; c < 256; c++) { t2n(B({ c })); t2n(B({ '\\', c })); for (int d = 1; d < 256; d++) { t2n(B({ c, d })); t2n(B({ '\\', c, d })); t2n(B({ 'a', '.', c, d })); t2n(B({ '\\', '1', c, d })); } }
	for (int v = 0; v < 1000; v++) { char s[30]; for (const char *f : { "\\%03d", "a\\%03d.", "\\%03d.b", "\\%03d0", "A\\%03dZ", "\\%d" }) { snprintf(s, sizeof s, f, v); t2n(S(s)); } }
	for (int v = 0; v < 256; v++) if (v < '0' || v > '9') for (int k = 1; k <= 3; k++) { Bytes t = S("\\123.x"); if (v) { t[k] = v; t2n(t); } }
	// boundary lengths: labels 0..70, names 240..270, with escapes at the boundary, with and without trailing dot
	for (size_t n = 0; n <= 70; n++) for (int form = 0; form < 4; form++) for (const char *pre : { "", "a.", "\\.." }) for (const char *post : { "", ".", ".b", "..", ".b." }) {
		Bytes t = S(pre);
		for (size_t i = 0; i < n; i++) app(t, form == 0 ? S("x") : form == 1 ? S("\\200") : form == 2 ? S("\\y") : S(i + 1 == n ? "\\000" : "X"));
		app(t, S(post)); t2n(t);
	}
	// texts whose length is a small one modulo a power of two
	for (size_t base : { 256, 32768, 65536, 131072 }) for (int d = -2; d <= 70; d += d < 6 ? 1 : 29) { t2n(rep('a', base + d)); Bytes t; for (size_t i = 0; i < base + d; i++) t.push_back(i % 2 ? '.' : 'b'); t2n(t); t = rep('c', base + d); t[1] = '.'; t2n(t); t[base + d - 2] = '.'; t2n(t); t = cat({ S("d."), rep('\\', base + d - 2) }); t2n(t); t = Bytes(); while (t.size() + 4 <= base + d) app(t, S("\\052")); while (t.size() < base + d) t.push_back('e'); t2n(t); }
	for (size_t k : { 300, 1000, 5000, 70000 }) { t2n(rep('a', k)); t2n(rep('.', k)); Bytes t; for (size_t i = 0; i < k; i++) app(t, S(i % 40 ? "a" : ".")); t2n(sub(t, 1, t.size() - 1)); t2n(rep('\\', k)); }
	for (size_t mx : { 1, 2, 31, 62, 63, 64 }) for (size_t tot = 236; tot <= 262; tot++) for (int form = 0; form < 3; form++) {
		Bytes t; size_t left = tot;
		while (left > 1) { size_t k = std::min(left - 1, mx); if (left - 1 - k == 1 && k > 1) k--; for (size_t i = 0; i < k; i++) app(t, form == 0 ? S("q") : form == 1 ? S("\\255") : S(i + 1 == k ? "\\." : "Q")); left -= k + 1; t.push_back('.'); }
		t2n(t);
		Bytes u = t; u.pop_back(); t2n(u); u.push_back('\\'); t2n(u);
		t.push_back('.'); t2n(t); t.back() = 'z'; t2n(t); t.push_back('.'); t2n(t); t.back() = '\\'; t2n(t); t.push_back('1'); t2n(t);
	}
}

static void enum_uname() {
	auto un = [](const Bytes &m) { for (size_t o = 0; o < m.size(); o++) run(K_UNAME, { m, num(o) }); };
	Bytes al = B({ 0, 1, 2, 3, 63, 64, 128, 192, 255, 'a' });
	strings(al, 1, thorough ? 6 : 5, un);
	strings(B({ 0, 1, 2, 'a' }), 6, thorough ? 10 : 8, un);
	for (int a = 0; a < 256; a++) for (size_t n = 1; n < 260; n++) { Bytes m = rep('a', n); m[0] = a; run(K_UNAME, { m, num(0) }); m.push_back(0); run(K_UNAME, { m, num(0) }); m.push_back(7); run(K_UNAME, { m, num(0) }); }
	for (size_t mx = 1; mx <= 63; mx++) for (size_t l = 0; l <= 300; l++) {
		if (!thorough && mx > 3 && mx < 61 && l % 13 && (l < 248 || l > 262)) continue;
		Bytes w = joinraw(fill(l, mx)); if (w.size() != l) continue;
		run(K_UNAME, { w.empty() ? B({ 0 }) : w, num(0) }); w.push_back(0); run(K_UNAME, { w, num(0) }); w.push_back(5); run(K_UNAME, { w, num(0) });
		if (l) { run(K_UNAME, { sub(w, 0, l - 1), num(0) }); }
	}
	// names at both ends of large buffers
	for (size_t n : { 32767, 32768, 65534, 65535, 65536, 65537, 65538, 65600, 65791, 65792, 131071, 131072, 1000000 }) for (size_t l : { 0, 2, 4, 64, 253, 254, 255, 256 }) for (int f : { 0, 1, 63, 64, 255 }) {
		Bytes w = joinraw(fill(l, 63)); w.push_back(0); Bytes m = w; app(m, rep(f, n - w.size())); run(K_UNAME, { m, num(0) });
		Bytes e = rep(f, n - w.size()); app(e, w); run(K_UNAME, { e, num(n - w.size()) }); run(K_UNAME, { sub(e, 0, n - 1), num(n - w.size()) }); run(K_UNAME, { e, num(0) });
	}
	// domain_to_str on anything
	auto dm = [](const Bytes &m) { run(K_DOMAIN, { m }); };
	strings(al, 0, thorough ? 6 : 5, dm);
	strings(B({ 0, 1, 2, '.', 0xff }), 6, thorough ? 9 : 7, dm);
	for (int a = 0; a < 256; a++) for (size_t n = 1; n <= 255; n++) { Bytes m = rep(n % 2 ? 'a' : 0xfe, n); m[0] = a; dm(m); if ((size_t)a + 1 < n) { m[a + 1] = n - a - 1; dm(m); m[a + 1] = n - a - 2; dm(m); m[a + 1] = 0; dm(m); } }
	for (size_t mx = 1; mx <= 63; mx++) for (size_t l = 0; l <= 255; l++) { Bytes w = joinraw(fill(l, mx)); for (auto &c : w) if (c > 63) c = 0x80 | c; dm(w); if (l < 255) { w.push_back(0); dm(w); } }
}

static void enum_labels() {
	// all names of at most 4 labels over tiny label sets, including labels that look like length octets
	std::vector<Bytes> labs = { B({ 'a' }), B({ 'b' }), B({ 'A' }), B({ 0 }), B({ 1 }), B({ 1, 'a' }), B({ 'a', 'b' }), B({ 'a', 1, 'a' }), B({ 1, 'b', 0 }) };
	std::vector<Bytes> names;
	size_t nl = labs.size(), depth = thorough ? 4 : 3;
	std::vector<std::vector<Bytes>> cur = { {} };
	for (size_t d = 0; d <= depth; d++) {
		for (auto &n : cur) names.push_back(ref_join(n));
		std::vector<std::vector<Bytes>> nx;
		size_t use = d >= 2 ? (thorough ? 6 : 5) : nl;
		for (auto &n : cur) for (size_t i = 0; i < use; i++) { auto m = n; m.insert(m.begin(), labs[i]); nx.push_back(m); }
		cur = nx;
	}
	auto single = [](const Bytes &w) { run(K_LABELS, { w }); run(K_CHOP, { w }); run(K_REVERSE, { w }); };
	for (auto &n : names) single(n);
	// long names
	std::vector<Bytes> longs;
	for (size_t mx = 1; mx <= 63; mx++) for (size_t l = 2; l <= 254; l++) {
		if (!thorough && l < 247 && (l + mx) % 7) continue;
		Bytes w = joinraw(fill(l, mx)); if (w.size() != l) continue; w.push_back(0); single(w); if (l > 250 || l == 64 || l == 127 || l == 128 || l == 129) longs.push_back(w);
	}
	for (auto &a : longs) {
		auto l = ref_labels(a);
		run(K_SUBDOM, { a, a }); run(K_SUBDOM, { a, B({ 0 }) }); run(K_SUBDOM, { B({ 0 }), a });
		for (size_t k = 1; k < l.size(); k++) {
			std::vector<Bytes> s(l.begin() + k, l.end());
			if (l.size() > 30 && k > 6 && k + 6 < l.size()) continue;
			run(K_SUBDOM, { a, ref_join(s) }); run(K_SUBDOM, { ref_join(s), a });
			for (size_t j = 0; j < s.size(); j++) { if (s.size() > 12 && j > 3 && j + 3 < s.size()) continue; auto t = s; t[j].back() ^= 1; run(K_SUBDOM, { a, ref_join(t) }); t = s; t[j].push_back('x'); if (t[j].size() < 64) run(K_SUBDOM, { a, ref_join(t) }); t = s; t.erase(t.begin() + j); run(K_SUBDOM, { a, ref_join(t) }); }
			std::vector<Bytes> p(l.begin(), l.begin() + k); run(K_SUBDOM, { a, ref_join(p) });
		}
	}
	size_t cap = thorough ? names.size() : std::min<size_t>(names.size(), 600);
	// pairs (every pair of the first cap names; sorted by number of labels)
	for (size_t i = 0; i < cap; i++) for (size_t j = 0; j < cap; j++) { if (!deepest && cap > 1000 && i > 600 && j > 600 && (i * 7 + j) % 5) continue; run(K_SUBDOM, { names[i], names[j] }); }
	// malformed octets
	Bytes al = B({ 0, 1, 2, 3, 63, 64, 192, 255, 'A' });
	strings(al, 0, deepest ? 7 : thorough ? 6 : 5, single);
	for (int a = 0; a < 256; a++) for (size_t n = 1; n <= 255; n++) { Bytes m = rep(1, n); m[0] = a; single(m); m[n - 1] = 0; single(m); }
	for (size_t l = 1; l <= 255; l++) { Bytes w = joinraw(fill(l, 63)); if (w.size() == l) single(w); w = joinraw(fill(l, 1)); if (w.size() == l) single(w); }
	std::vector<Bytes> ml; strings(B({ 0, 1, 2, 64, 255, 'A' }), 0, thorough ? 4 : 3, [&](const Bytes &s) { ml.push_back(s); });
	for (auto &a : ml) for (auto &b : ml) run(K_SUBDOM, { a, b });
	std::vector<Bytes> big = { rep(1, 254), rep(1, 255), joinraw(fill(254, 63)), joinraw(fill(255, 63)), joinraw(fill(254, 1)) };
	for (auto &a : big) for (auto &b : big) { run(K_SUBDOM, { a, b }); for (auto &n : { B({ 0 }), B({ 1, 'a', 0 }), Bytes() }) { run(K_SUBDOM, { a, n }); run(K_SUBDOM, { n, a }); } }
}

void mc::enumerate() {
	if (P("C02")) enum_unpack();
	else if (P("C10")) enum_text();
	else if (P("C11")) enum_uname();
	else if (P("C12")) enum_labels();
}
