// C01 safety, C03 faithful parsing, C04 RRset grouping, C05 EDNS state, C17 text of messages
#include "refmsg.hpp"
#include <wdns/wdns.h>

enum { K_PKT };
const char *mc::kind_names[] = { "parse_message(packet)" };
static bool P(const char *id) { return !strcmp(mc::property, id); }

static Bytes nameof(const wdns_name_t &n) { return n.data ? Bytes(n.data, n.data + n.len) : Bytes(); }
static Bytes dataof(const wdns_rdata_t *d) { return Bytes(d->data, d->data + d->len); }

// ------------------------------------------------------------------------------------- C01
static void free_str(char *s) { MC_CHECK(s != nullptr, "a text function returned NULL"); strlen(s); free(s); }
static void use_parts(wdns_message_t &m) {
	free_str(wdns_message_to_str(&m)); tr();
	for (unsigned s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		free_str(wdns_rrset_array_to_str(&a, s)); tr();
		for (unsigned i = 0; i < a.n_rrs && i < 40; i++) {
			free_str(wdns_rr_to_str(&a.rrs[i], s)); tr();
			for (unsigned k = 0; k < a.n_rrsets && k < 4; k++) wdns_compare_rr_rrset(&a.rrs[i], &a.rrsets[k]);
		}
		for (unsigned i = 0; i < a.n_rrsets && i < 40; i++) {
			auto &t = a.rrsets[i];
			free_str(wdns_rrset_to_str(&t, s)); tr();
			size_t sz = 0; wdns_serialize_rrset(&t, nullptr, &sz); tr();
			Exact b(sz, 0); wdns_serialize_rrset(&t, b.p, &sz);
			wdns_rrset_t back; wdns_res r = wdns_deserialize_rrset(&back, b.p, sz); tr();
			if (r == wdns_res_success) wdns_clear_rrset(&back);
			wdns_sort_rrset(&t); wdns_downcase_rrset(&t); tr(2);
			free_str(wdns_rrset_to_str(&t, s));
			if (s) for (unsigned k = 0; k < t.n_rdatas && k < 40; k++) free_str(wdns_rdata_to_str(t.rdatas[k]->data, t.rdatas[k]->len, t.rrtype, t.rrclass));
		}
		for (unsigned i = 0; i < a.n_rrs && i < 40; i++) { wdns_downcase_name(&a.rrs[i].name); if (s) wdns_downcase_rdata(a.rrs[i].rdata, a.rrs[i].rrtype, a.rrs[i].rrclass); tr(); }
	}
}
static bool owns_nothing(const wdns_message_t &m) {
	if (m.edns.options) return false;
	for (auto &s : m.sections) if (s.n_rrs || s.n_rrsets || s.rrs || s.rrsets) return false;
	return true;
}
static void do_safe(const Bytes &p) {
	Exact e(p);
	int64_t before = live_blocks;
	wdns_message_t m; memset(&m, 0xa5, sizeof m);
	wdns_res r = wdns_parse_message(&m, e.p, e.n); tr();
	MC_CHECK(!memcmp(e.p, p.data(), p.size()), "parse_message modified the packet");
	if (r != wdns_res_success) {
		MC_CHECK(live_blocks == before, "the refused packet left %lld blocks allocated", (long long)(live_blocks - before));
		MC_CHECK(owns_nothing(m), "the message object of a refused packet still refers to memory");
		wdns_clear_message(&m);
	} else {
		use_parts(m);
		uint64_t h = 1; for (auto &s : m.sections) h = mix(mix(h, s.n_rrs), s.n_rrsets);
		for (auto &s : m.sections) if (s.n_rrs) h = mix(mix(h, s.rrs[0].rrtype), s.rrs[0].rrclass);
		state(mix(h, m.edns.present ? 1 + (m.edns.options ? m.edns.options->len : 0) : 0));
		wdns_clear_message(&m);
		MC_CHECK(live_blocks == before, "releasing the message left %lld blocks allocated", (long long)(live_blocks - before));
		MC_CHECK(owns_nothing(m) && !m.edns.present, "a released message still reports records or EDNS state");
		free_str(wdns_message_to_str(&m));
		wdns_clear_message(&m); tr(3);
		MC_CHECK(live_blocks == before, "releasing the message twice unbalanced the heap");
	}
	state(r); valid();
	note("res %d", r);
}

// ------------------------------------------------------------------------------------- C03
static void cmp_rr(const wdns_rr_t &g, const RRec &w, int s, unsigned i) {
	MC_CHECK(nameof(g.name) == w.name, "section %d record %u: owner %s, the packet says %s", s, i, Hex(nameof(g.name)).s, Hex(w.name).s);
	MC_CHECK(g.rrtype == w.type && g.rrclass == w.cls, "section %d record %u: type %u class %u, the packet says %d %d", s, i, g.rrtype, g.rrclass, w.type, w.cls);
	if (!s) return;
	MC_CHECK(g.rrttl == w.ttl, "section %d record %u: TTL %u, the packet says %u", s, i, g.rrttl, w.ttl);
	MC_CHECK(g.rdata != nullptr, "section %d record %u has no rdata", s, i);
	MC_CHECK(dataof(g.rdata) == w.rdata, "section %d record %u: rdata %s, the packet says %s", s, i, Hex(dataof(g.rdata)).s, Hex(w.rdata).s);
}
static void do_exact(const Bytes &p) {
	Exact e(p);
	RMsg w; bool ok = ref_parse_msg(p.data(), p.size(), w);
	wdns_message_t m;
	wdns_res r = wdns_parse_message(&m, e.p, e.n); tr();
	MC_CHECK(ok || r != wdns_res_success, "a malformed packet was accepted");
	MC_CHECK(!ok || r == wdns_res_success, "a well-formed packet was refused (res %d)", r);
	valid();
	if (!ok) { state(r); note("refused"); return; }
	MC_CHECK(m.id == w.id && m.flags == w.flags, "id %u flags %x, the packet says %d %x", m.id, m.flags, w.id, w.flags);
	MC_CHECK(m.rcode == w.rcode, "rcode %u, the packet says %d", m.rcode, w.rcode);
	uint64_t h = 3;
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		// the OPT record that became the EDNS state is the business of C05: compare the others
		std::vector<const wdns_rr_t *> got; std::vector<const RRec *> want;
		for (unsigned i = 0; i < a.n_rrs; i++) if (!s || a.rrs[i].rrtype != 41) got.push_back(&a.rrs[i]);
		for (auto &x : w.sec[s]) if (!s || x.type != 41) want.push_back(&x);
		MC_CHECK(got.size() == want.size(), "section %d has %zu records, the packet carries %zu", s, got.size(), want.size());
		for (size_t i = 0; i < got.size(); i++) { cmp_rr(*got[i], *want[i], s, i); h = hbytes(hbytes(mix(h, want[i]->type), want[i]->name.data(), want[i]->name.size()), want[i]->rdata.data(), want[i]->rdata.size()); }
		h = mix(h, want.size());
	}
	state(h);
	note("%zu/%zu/%zu/%zu records", w.sec[0].size(), w.sec[1].size(), w.sec[2].size(), w.sec[3].size());
	wdns_clear_message(&m);
}

// ------------------------------------------------------------------------------------- C04
static void do_group(const Bytes &p) {
	Exact e(p);
	wdns_message_t m;
	if (wdns_parse_message(&m, e.p, e.n) != wdns_res_success) { tr(); state(0); return; }
	tr();
	uint64_t h = 4;
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		struct G { const wdns_rr_t *first; uint32_t ttl; std::vector<Bytes> rd; };
		std::vector<G> want; std::vector<int> which;
		for (unsigned i = 0; i < a.n_rrs; i++) {
			auto &rr = a.rrs[i]; int k = -1;
			if (s) for (size_t j = 0; j < want.size() && k < 0; j++)
				if (want[j].first->rrtype == rr.rrtype && want[j].first->rrclass == rr.rrclass && lowered(nameof(want[j].first->name)) == lowered(nameof(rr.name))) k = j;
			if (k < 0) { k = want.size(); want.push_back({&rr, rr.rrttl, {}}); }
			want[k].ttl = std::min(want[k].ttl, rr.rrttl);
			if (s) want[k].rd.push_back(dataof(rr.rdata));
			which.push_back(k);
		}
		MC_CHECK(a.n_rrsets == want.size(), "section %d has %u RRsets, its %u records form %zu", s, a.n_rrsets, a.n_rrs, want.size());
		for (unsigned j = 0; j < a.n_rrsets; j++) {
			auto &g = a.rrsets[j]; auto &w = want[j];
			MC_CHECK(nameof(g.name) == nameof(w.first->name), "section %d RRset %u: owner %s, its first record says %s", s, j, Hex(nameof(g.name)).s, Hex(nameof(w.first->name)).s);
			MC_CHECK(g.rrtype == w.first->rrtype && g.rrclass == w.first->rrclass, "section %d RRset %u: type %u class %u instead of %u %u", s, j, g.rrtype, g.rrclass, w.first->rrtype, w.first->rrclass);
			if (s) MC_CHECK(g.rrttl == w.ttl, "section %d RRset %u: TTL %u, the smallest is %u", s, j, g.rrttl, w.ttl);
			MC_CHECK(g.n_rdatas == w.rd.size(), "section %d RRset %u lists %u rdata, its records have %zu", s, j, g.n_rdatas, w.rd.size());
			for (unsigned i = 0; i < g.n_rdatas; i++) MC_CHECK(dataof(g.rdatas[i]) == w.rd[i], "section %d RRset %u rdata %u: %s instead of %s", s, j, i, Hex(dataof(g.rdatas[i])).s, Hex(w.rd[i]).s);
			h = mix(mix(h, j), w.rd.size());
			// the public comparison agrees with the grouping
			if (a.n_rrs <= 40 && s) for (unsigned i = 0; i < a.n_rrs; i++) {
				bool same = wdns_compare_rr_rrset(&a.rrs[i], &g); tr();
				MC_CHECK(same == (which[i] == (int)j), "compare_rr_rrset says %d for record %u and RRset %u of section %d", same, i, j, s);
			}
		}
		if (s) for (int k : which) h = mix(h, k);
	}
	state(h); valid();
	note("RRsets %u/%u/%u/%u", m.sections[0].n_rrsets, m.sections[1].n_rrsets, m.sections[2].n_rrsets, m.sections[3].n_rrsets);
	wdns_clear_message(&m);
}

// ------------------------------------------------------------------------------------- C05
static void do_edns(const Bytes &p) {
	Exact e(p);
	RMsg w; bool ok = ref_parse_msg(p.data(), p.size(), w);
	wdns_message_t m;
	wdns_res r = wdns_parse_message(&m, e.p, e.n); tr();
	if (r != wdns_res_success) { state(r); MC_CHECK(!ok || !w.edns, "a well-formed packet with an OPT record was refused"); return; }
	if (!ok) { wdns_clear_message(&m); return; }
	MC_CHECK(m.edns.present == w.edns, "EDNS %s, the packet %s", m.edns.present ? "present" : "absent", w.edns ? "carries an OPT record" : "carries no OPT record");
	MC_CHECK(m.rcode == w.rcode, "rcode %u instead of %d", m.rcode, w.rcode);
	if (w.edns) {
		MC_CHECK(m.edns.size == w.opt.cls, "UDP size %u instead of %d", m.edns.size, w.opt.cls);
		MC_CHECK(m.edns.version == (w.opt.ttl >> 16 & 255), "version %u instead of %u", m.edns.version, w.opt.ttl >> 16 & 255);
		MC_CHECK(m.edns.flags == (w.opt.ttl & 0xffff), "flags %x instead of %x", m.edns.flags, w.opt.ttl & 0xffff);
		Bytes o = m.edns.options ? dataof(m.edns.options) : Bytes();
		MC_CHECK(o == w.opt.rdata, "options %s instead of %s", Hex(o).s, Hex(w.opt.rdata).s);
	}
	uint64_t h = mix(5, w.edns);
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		MC_CHECK(a.n_rrs == w.sec[s].size(), "section %d has %u records instead of %zu", s, a.n_rrs, w.sec[s].size());
		for (unsigned i = 0; i < a.n_rrs; i++) { cmp_rr(a.rrs[i], w.sec[s][i], s, i); h = mix(mix(h, s), w.sec[s][i].type); }
		unsigned nopt = 0, ropt = 0;      // later OPT records belong to the RRsets as well
		for (unsigned j = 0; j < a.n_rrsets; j++) if (a.rrsets[j].rrtype == 41) ropt += s ? a.rrsets[j].n_rdatas : 1;
		for (auto &x : w.sec[s]) nopt += x.type == 41;
		MC_CHECK(ropt == nopt, "the RRsets of section %d hold %u OPT records instead of %u", s, ropt, nopt);
	}
	if (w.edns) h = mix(mix(h, w.opt.ttl), w.rcode);
	state(h); valid();
	note("edns=%d rcode=%d", w.edns, w.rcode);
	wdns_clear_message(&m);
}

// ------------------------------------------------------------------------------------- C17
static void code_or(Bytes &o, const char *mn, const char *gen, unsigned v) { if (mn) put(o, mn); else { put(o, gen); putnum(o, v); } }
static Bytes norm_text(const Bytes &b) { Bytes r = lowered(b); while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
// rdata text: the reference rendering where the octets are well-formed, else whatever the rendering of rdata alone gives (C06)
static Bytes rdtext(const wdns_rdata_t *rd, int type, int cls) {
	char *s = wdns_rdata_to_str(rd->data, rd->len, type, cls); Bytes got = S(s), want; free(s);
	bool gen;
	if (ref_render(dataof(rd), type, cls, want, &gen) != V_WELL || (gen && norm_text(got) == norm_text(want))) return got;
	return want;
}
static Bytes rrline(const Bytes &name, uint32_t ttl, int cls, int type, const wdns_rdata_t *rd, bool q) {
	Bytes o; if (q) o.push_back(';');
	ref_name_text_append(o, name.data(), name.size());
	if (!q) { o.push_back(' '); putnum(o, ttl); }
	o.push_back(' '); code_or(o, ref_class_name(cls), "CLASS", cls);
	o.push_back(' '); code_or(o, ref_type_name(type), "TYPE", type);
	if (!q) { o.push_back(' '); app(o, rdtext(rd, type, cls)); }
	o.push_back('\n');
	return o;
}
template <class F> static Bytes printed(F f) {
	char *buf = nullptr; size_t n = 0; FILE *fp = open_memstream(&buf, &n);
	f(fp); fclose(fp); tr();
	Bytes b(buf, buf + n); free(buf); return b;
}
// blanks before a line end say nothing
static Bytes trim(const Bytes &b) { Bytes o; for (uint8_t c : b) { if (c == '\n') while (!o.empty() && o.back() == ' ') o.pop_back(); o.push_back(c); } return o; }
static void same(const char *what, const Bytes &got, const Bytes &want) { MC_CHECK(trim(got) == trim(want), "%s is `%s', expected `%s'", what, Esc(got).s, Esc(want).s); }
static Bytes take(char *s) { MC_CHECK(s != nullptr, "a text function returned NULL"); Bytes b = S(s); free(s); tr(); return b; }

static void do_str(const Bytes &p) {
	Exact e(p);
	wdns_message_t m;
	wdns_res r = wdns_parse_message(&m, e.p, e.n); tr();
	if (r != wdns_res_success) { state(r); return; }
	static const char *ops[] = { "QUERY", "IQUERY", "STATUS", nullptr, "NOTIFY", "UPDATE" };
	static const char *rcs[] = { "NOERROR", "FORMERR", "SERVFAIL", "NXDOMAIN", "NOTIMP", "REFUSED", "YXDOMAIN", "YXRRSET", "NXRRSET", "NOTAUTH", "NOTZONE", 0, 0, 0, 0, 0, "BADVERS" };
	Bytes t = S(";; ->>HEADER<<- opcode: ");
	unsigned op = m.flags >> 11 & 15, f = m.flags;
	code_or(t, op < 6 ? ops[op] : nullptr, "", op);
	put(t, ", rcode: "); code_or(t, m.rcode < 17 ? rcs[m.rcode] : nullptr, "", m.rcode);
	put(t, ", id: "); putnum(t, m.id); put(t, "\n;; flags:");
	if (f & 0x8000) put(t, " qr"); if (f & 0x400) put(t, " aa"); if (f & 0x200) put(t, " tc"); if (f & 0x100) put(t, " rd"); if (f & 0x80) put(t, " ra"); if (f & 0x20) put(t, " ad"); if (f & 0x10) put(t, " cd");
	const char *cn[] = { "; QUERY: ", ", ANSWER: ", ", AUTHORITY: ", ", ADDITIONAL: " };
	for (int s = 0; s < 4; s++) { put(t, cn[s]); putnum(t, m.sections[s].n_rrs); }
	put(t, "\n");
	if (m.edns.present) {
		put(t, "\n;; OPT PSEUDOSECTION:\n; EDNS: version: "); putnum(t, m.edns.version); put(t, ", flags:"); if (m.edns.flags & 0x8000) put(t, " do"); put(t, "; udp: "); putnum(t, m.edns.size);
		if (m.edns.options) {
			Bytes ot = rdtext(m.edns.options, 41, 1); ot.push_back(0);
			for (char *l = (char *)ot.data(); *l;) { char *n = strchrnul(l, '\n'); if (n > l) { put(t, "\n; "); t.insert(t.end(), l, n); } l = *n ? n + 1 : n; }
		}
	}
	const char *sn[] = { "QUESTION", "ANSWER", "AUTHORITY", "ADDITIONAL" };
	uint64_t h = 17;
	for (unsigned s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		Bytes lines;
		for (unsigned i = 0; i < a.n_rrs; i++) {
			auto &rr = a.rrs[i];
			Bytes l = rrline(nameof(rr.name), rr.rrttl, rr.rrclass, rr.rrtype, rr.rdata, s == 0);
			same("record text", take(wdns_rr_to_str(&rr, s)), l);
			same("printed record", printed([&](FILE *fp) { wdns_print_rr(fp, &rr, s); }), l);
			app(lines, l);
		}
		same("section text", take(wdns_rrset_array_to_str(&a, s)), lines);
		same("printed section", printed([&](FILE *fp) { wdns_print_rrset_array(fp, &a, s); }), lines);
		for (unsigned j = 0; j < a.n_rrsets; j++) {
			auto &g = a.rrsets[j]; Bytes l;
			if (s == 0) l = rrline(nameof(g.name), 0, g.rrclass, g.rrtype, nullptr, true);
			else for (unsigned i = 0; i < g.n_rdatas; i++) app(l, rrline(nameof(g.name), g.rrttl, g.rrclass, g.rrtype, g.rdatas[i], false));
			same("RRset text", take(wdns_rrset_to_str(&g, s)), l);
			same("printed RRset", printed([&](FILE *fp) { wdns_print_rrset(fp, &g, s); }), l);
		}
		put(t, "\n;; "); put(t, sn[s]); put(t, " SECTION:\n"); app(t, lines);
	}
	same("message text", take(wdns_message_to_str(&m)), t);
	same("printed message", printed([&](FILE *fp) { wdns_print_message(fp, &m); }), t);
	state(hbytes(h, t.data(), t.size())); valid();
	note("%s", Esc(t).s);
	wdns_clear_message(&m);
}

void mc::check(const Case &c) {
	const Bytes &p = c.b[0];
	if (P("C01")) do_safe(p); else if (P("C03")) do_exact(p); else if (P("C04")) do_group(p); else if (P("C05")) do_edns(p); else do_str(p);
}

// ------------------------------------------------------------------------------------- packets
static void E(const Bytes &p) { run(K_PKT, { p }); }
static const uint8_t BND[] = { 0, 1, 2, 3, 4, 11, 12, 13, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255 };

// headers and every short tail over a small alphabet
static void short_packets() {
	for (size_t n = 0; n <= 12; n++) for (int k = 0; k < 6; k++) E(pat(n, k));
	for (int i = 0; i < 12; i++) for (int c = 0; c < 256; c++) { Bytes h = hdr(0, 0, 0, 0, 0, 0); h[i] = c; E(h); app(h, ques(B({0}), 1, 1)); E(h); app(h, rec(B({0}), 1, 1, 5, B({1, 2, 3, 4}))); E(h); }
	std::vector<Bytes> hs = { hdr(1, 0, 0, 0), hdr(0, 1, 0, 0), hdr(1, 0, 0, 1), hdr(2, 65535, 1, 1) };
	const std::vector<uint8_t> al = { 0, 1, 2, 12, 41, 'A', 192, 255 };
	size_t max = thorough ? 7 : 5;
	for (size_t len = 0; len <= max; len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size();
		for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { b.push_back(al[q % al.size()]); q /= al.size(); } for (auto &h : hs) E(cat({h, b})); if (len < max) for (auto &h : hs) E(cat({h, b, be16(1), be16(1)})); }
	}
	// owner names over a richer alphabet followed by the fixed fields
	const std::vector<uint8_t> al2 = { 0, 1, 'a', 'Z', 12, 13, 63, 64, 192, 255 };
	for (size_t len = 1; len <= (thorough ? 5u : 4u); len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= al2.size();
		for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { b.push_back(al2[q % al2.size()]); q /= al2.size(); }
			E(cat({hdr(1, 1, 0, 0), ques(wname({"ab", "C"}), 1, 1), b, be16(1), be16(1), be32(7), be16(4), B({9, 8, 7, 6})}));
			E(cat({hdr(0, 0, 0, 1), b, be16(16), be16(3), be32(7), be16(2), B({1, 6})})); }
	}
}
static std::vector<Bytes> small_rdatas(const Lay &l, size_t cap) {
	std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
	size_t prod = 1; for (Fld f : fs) prod *= fld_small(f).size();
	std::vector<Bytes> v; size_t step = prod > cap ? (prod / cap | 1) : 1;
	for (size_t k = 0; k < prod; k += step) { Bytes r; size_t q = k; for (Fld f : fs) { auto &s = fld_small(f); app(r, s[q % s.size()]); q /= s.size(); } v.push_back(r); }
	return v;
}
// one record of every type: every truncation, length error and octet substitution
static void type_packets(size_t cap) {
	Bytes own = wname({"Ow", "NER"});
	for (auto &l : REF_LAYOUT) for (auto &r : small_rdatas(l, cap)) {
		for (int s = 1; s <= 3; s++) E(cat({hdr(0, s == 1, s == 2, s == 3), rec(own, l.type, 1, 0x80000001u, r)}));
		for (int c : {0, 2, 3, 4, 254, 255, 256, 65535}) E(cat({hdr(0, 1, 0, 0), rec(own, l.type, c, 9, r)}));
		Bytes full = cat({hdr(1, 1, 0, 1), ques(own, l.type, 1), rec(ptr(12), l.type, 1, 77, r), rec(ptr(15), 1, 1, 78, B({1, 2, 3, 4}))});
		E(full);
		size_t rd = 12 + own.size() + 4 + 12;
		for (size_t n = 0; n < full.size(); n++) { if (n > rd + 60 && n + 60 < full.size() && n % 17) continue; E(sub(full, 0, n)); }
		for (int d = -(int)std::min<size_t>(r.size(), 70); d <= 18; d++) { Bytes m = full; int v = r.size() + d; m[rd - 2] = v >> 8; m[rd - 1] = v; E(m); if (d < 0) { m = cat({hdr(0, 1, 0, 0), own, be16(l.type), be16(1), be32(7), be16(v), sub(r, 0, v)}); E(m); app(m, rec(ptr(12), 2, 1, 3, ptr(12))); m[9] = 1; E(m); }
			else if (d) { for (int fill : {0, 1, 192, 255}) E(cat({hdr(0, 1, 0, 0), own, be16(l.type), be16(1), be32(7), be16(v), r, rep(fill, d)})); } }
		for (size_t i = 0; i < r.size() && i < 100; i++) for (uint8_t c : BND) { Bytes m = full; m[rd + i] = c; E(m); }
		if (thorough) for (size_t i = 0; i + 1 < r.size() && i < 60; i++) for (uint8_t a : BND) for (uint8_t b : {0, 1, 12, 63, 192, 255}) { Bytes m = full; m[rd + i] = a; m[rd + i + 1] = b; E(m); }
	}
	for (int t = 0; t < 65536; t++) { E(cat({hdr(0, 1, 0, 0), rec(B({0}), t, 1, 1, Bytes())})); E(cat({hdr(1, 1, 0, 0), ques(B({0}), t, 65535 - t), rec(B({0}), t, 1, 1, B({1, 'A', 0, 0xc0, 0, 'Z'}))})); if (t % 5 == 0) E(cat({hdr(0, 0, 1, 0), rec(B({1, 'b', 0}), t, t * 3, t * 65537u, B({0xc0, 12}))})); }
}
// every embedded name in every compression form
static void compressed_packets() {
	Bytes own = wname({"aB", "Cd", "e"});      // at 12: labels at 12, 15, 18, root 20
	for (auto &l : REF_LAYOUT) {
		std::vector<Fld> fs; for (const Fld *f = l.f; *f != fEnd; f++) fs.push_back(*f);
		std::vector<size_t> names; for (size_t i = 0; i < fs.size(); i++) if (fs[i] == fName) names.push_back(i);
		if (names.empty()) continue;
		size_t rd = 12 + own.size() + 4 + 12;
		auto variants = [&](size_t here) {
			std::vector<Bytes> v;
			for (int o : {0, 2, 4, 11, 12, 13, 15, 16, 18, 20, 21, 22, 25, 26}) { v.push_back(ptr(o)); v.push_back(cat({B({1, 'q'}), ptr(o)})); }
			for (int d : {-3, -2, -1, 0, 1, 2, 3}) { v.push_back(ptr(here + d)); v.push_back(cat({B({1, 'q'}), ptr(here + d)})); }
			v.push_back(ptr(0x3fff)); v.push_back(B({192})); v.push_back(B({1})); v.push_back(B({1, 'x'})); v.push_back(B({64, 0})); v.push_back(B({128, 12})); v.push_back(B({63, 0})); v.push_back(Bytes());
			v.push_back(wname({"X", "yZ"})); v.push_back(B({0})); v.push_back(rawname({pat(63, 4), pat(63, 5), pat(63, 2), pat(61, 3)}));
			for (int n : {60, 52, 51, 53, 54}) v.push_back(cat({lv(pat(63, 4)), lv(pat(63, 5)), lv(pat(63, 2)), lv(pat(n, 3)), ptr(12)}));
			return v;
		};
		for (size_t w = 0; w < names.size(); w++) {
			for (int style = 0; style < 3; style++) for (int alt = 0; alt < 2; alt++) {
				Bytes pre, post;
				for (size_t i = 0; i < names[w]; i++) { auto &s = fld_small(fs[i]); app(pre, fs[i] == fName ? ptr(15) : s[(1 + alt) % s.size()]); }
				for (size_t i = names[w] + 1; i < fs.size(); i++) { auto &s = fld_small(fs[i]); app(post, fs[i] == fName ? ptr(12) : s[(1 + alt) % s.size()]); }
				size_t here = rd + pre.size();
				for (auto &v : variants(here)) {
					Bytes r = cat({pre, v, post});
					if (style == 0) E(cat({hdr(1, 1, 0, 0), ques(own, 1, 1), rec(ptr(12), l.type, 1, 5, r)}));
					else if (style == 1) {      // followed by a record that points into this rdata
						Bytes m = cat({hdr(1, 1, 0, 1), ques(own, 1, 1), rec(ptr(12), l.type, 1, 5, r)});
						E(cat({m, rec(ptr(here), 2, 1, 6, ptr(here))})); E(cat({m, rec(ptr(here + 1), 15, 1, 6, cat({be16(1), ptr(rd)}))}));
					} else for (int d : {-4, -3, -2, -1, 1, 2}) {      // the record ends inside or behind the name
						int n = (int)(pre.size() + v.size()) + d; if (n < 0 || n > (int)r.size()) continue;
						Bytes m = cat({hdr(1, 1, 0, 1), ques(own, 1, 1), ptr(12), be16(l.type), be16(1), be32(5), be16(n), r}); E(m);
						m = cat({hdr(1, 1, 0, 1), ques(own, 1, 1), ptr(12), be16(l.type), be16(1), be32(5), be16(n), sub(r, 0, n)}); E(m); E(cat({m, rec(ptr(rd), 1, 1, 6, B({1, 2, 3, 4}))}));
					}
				}
			}
		}
	}
	// chains of pointers and maximal names
	for (int depth : {1, 2, 3, 10, 60, 126, 127, 128, 200}) for (int lab = 0; lab <= 1; lab++) {
		Bytes m = cat({hdr(0, 2, 0, 0)}), r = B({0}); size_t base = 12 + 11, prev = base;
		for (int i = 0; i < depth; i++) { size_t at = base + r.size(); if (lab) { r.push_back(1); r.push_back('A' + i % 26); } app(r, ptr(prev)); prev = at; }
		app(m, rec(B({0}), 65280, 1, 1, r)); E(cat({m, rec(ptr(prev), 5, 1, 1, ptr(prev))})); E(cat({m, rec(cat({B({1, 'z'}), ptr(prev)}), 12, 1, 1, cat({B({1, 'y'}), ptr(prev)}))}));
	}
}
// the parts of rdata that carry their own lengths: every length octet, every parameter key with every short value length
static void inner_packets() {
	Bytes own = wname({"In"});
	auto put1 = [&](int type, const Bytes &r, int spare) {
		E(cat({hdr(0, 1, 0, 0), rec(own, type, 1, 5, r)}));
		if (spare) E(cat({hdr(0, 1, 1, 0), rec(own, type, 1, 5, r), rec(ptr(12), 16, 1, 5, cat({B({40}), pat(40, 5)}))}));
	};
	auto rest = [&](int type, Fld what, bool first) {         // the fields before (or after) the one under study
		Bytes r; bool seen = false;
		for (const Fld *f = ref_layout(type)->f; *f != fEnd; f++) { if (*f == what && !seen) { seen = true; if (first) return r; continue; } if (first || seen) { auto &v = fld_small(*f); app(r, v[v.size() > 1 ? 1 : 0]); } }
		return r;
	};
	for (auto &l : REF_LAYOUT) for (const Fld *f = l.f; *f != fEnd; f++) {
		Bytes pre = rest(l.type, *f, true), post = rest(l.type, *f, false);
		if (*f == fMap) {
			for (int w : {0, 1, 127, 255}) for (int len = 0; len < 256; len++) for (int d = -2; d <= 2; d++) {
				if (len + d < 0) continue;
				for (int k : {0, 5}) { Bytes b = cat({B({w, len}), pat(len + d, k)}); put1(l.type, cat({pre, b}), !k); if (w < 2) { put1(l.type, cat({pre, B({0, 1, 64}), b}), 0); put1(l.type, cat({pre, b, B({2, 1, 64})}), 0); } }
			}
		} else if (*f == fSvc) {
			for (int key : {0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 259, 260, 262, 32768, 65280, 65534, 65535}) for (int n = 0; n <= 66; n++) for (int k = 0; k < 6; k++) {
				Bytes s = svc(key, pat(n, k)); put1(l.type, cat({pre, s}), !k);
				put1(l.type, cat({pre, svc(7, B({1})), s}), 0); put1(l.type, cat({pre, s, svc(7, B({1}))}), 0);
				if (n && k == 0) for (int d = -2; d <= 2; d++) if (n + d >= 0) put1(l.type, cat({pre, be16(key), be16(n + d), pat(n, 0)}), 1);
			}
			for (int n = 0; n <= 40; n++) for (int a = 0; a <= 6; a++) for (int b = 0; b <= 6; b++) { Bytes v = pat(n, 0); if (n > 0) v[0] = a; if (n > a + 1) v[a + 1] = b; put1(l.type, cat({pre, svc(1, v)}), 0); }
		} else if (*f == fStr || *f == fSalt || *f == fHash || *f == fRep) {
			for (int len = 0; len < 256; len++) for (int d = -2; d <= 2; d++) { if (len + d < 0) continue; Bytes b = cat({B({len}), pat(len + d, 5)}); put1(l.type, cat({pre, b}), 1); put1(l.type, cat({pre, b, post}), 0); if (*f == fRep) { put1(l.type, cat({B({1, 'x'}), b}), 1); put1(l.type, cat({b, B({0})}), 0); } }
		} else if (*f == fPfx) {
			for (int p = 0; p < 256; p++) for (int n = 0; n <= 17; n++) { Bytes b = cat({B({p}), pat(n, 5)}); put1(l.type, b, 1); put1(l.type, cat({b, ptr(12)}), 1); put1(l.type, cat({b, wname({"q"})}), 0); }
		}
	}
}
// many records
static void many_packets(std::initializer_list<int> ns, bool different = true) {
	for (int n : ns) {
		Bytes same = hdr(0, n, 0, 0), diff = same, ttl = same;
		for (int i = 0; i < n; i++) { app(same, rec(B({0}), 1, 1, n - i, be32(i))); if (different) { app(diff, rec(B({0}), 300 + i, 1, i, Bytes())); app(ttl, rec(B({1, 'a' + i % 26 - (i % 3 ? 32 : 0), 0}), 16, 1, i * 7919u, B({1, i}))); } }
		if (different) { // records that belong to RRsets opened long before
			Bytes back = hdr(0, n, n + 3, 6);
			for (int i = 0; i < n; i++) app(back, rec(B({1, 'k', 0}), 300 + i, 1, i, B({i, 1})));
			for (int i = 0; i < n + 3; i++) app(back, rec(B({2, 'a' + i % 3, 'b', 0}), 300 + i / 3, 1 + i % 3, i, B({i, 2})));
			for (int i : {0, 1, n / 2, n - 2, n - 1, 0}) app(back, rec(B({1, 'K', 0}), 300 + i, 1, n - i, B({i, 3})));
			E(back); back[7] = (n + 4) & 255; back[6] = (n + 4) >> 8; back[9] = (n - 1) & 255; back[8] = (n - 1) >> 8; E(back);
			Bytes again = hdr(0, n + 6, 0, 0);
			for (int i = 0; i < n; i++) app(again, rec(B({1, 'k', 0}), 300 + i, 1, i, B({i, 1})));
			for (int i : {0, 1, n / 2, n - 2, n - 1, 0}) app(again, rec(B({1, 'K', 0}), 300 + i, 1, n - i, B({i, 3})));
			E(again);
		}
		E(same); if (different) { E(diff); E(ttl); E(sub(diff, 0, diff.size() - 1)); }
		E(sub(same, 0, same.size() - 1));
		Bytes qs = hdr(n, 0, 0, 0), os = hdr(0, 0, 0, n), mix = hdr(0, 0, n, 1); for (int i = 0; i < n; i++) { app(qs, ques(B({0}), 1, 1)); app(os, rec(B({0}), 41, 4096, i, opt1(3, be16(i)))); app(mix, rec(B({0}), i == n / 2 ? 41 : 2, 1, i, B({0}))); }
		E(qs); E(os); E(cat({qs, B({1})})); E(cat({mix, rec(B({0}), 41, 512, 0x8000, opt1(3, S("z")))}));
	}
}
static void big_packets() {
	auto fillto = [](Bytes b, size_t n, int k) { app(b, pat(n - b.size(), k)); return b; };
	for (int type : {1, 2, 6, 10, 16, 24, 30, 41, 43, 46, 47, 48, 50, 61, 62, 64, 99, 256, 257, 300}) for (size_t n : {255, 256, 32767, 32768, 65280, 65534, 65535}) for (int k = 0; k < 6; k++) E(cat({hdr(0, 1, 0, 0), rec(wname({"big"}), type, 1, 1, pat(n, k))}));
	// decompression makes the rdata larger than 16 bits allow
	Bytes longn = rawname({pat(63, 4), pat(63, 5), pat(63, 2), pat(61, 3)});
	for (size_t extra : {65278, 65279, 65280, 65281, 65400, 65532, 65533}) {
		Bytes q = cat({hdr(1, 1, 0, 0), ques(longn, 1, 1)});
		E(cat({q, rec(B({0}), 30, 1, 1, cat({ptr(12), pat(extra, 5)}))}));
		E(cat({q, rec(B({0}), 46, 1, 1, cat({be16(1), pat(16, 5), ptr(12), pat(extra - 18, 5)}))}));
		{ Bytes bm; while (bm.size() + 34 <= extra) app(bm, cat({B({1, 32}), pat(32, 5)})); if (extra - bm.size() >= 3) app(bm, cat({B({2, (int)(extra - bm.size() - 2)}), pat(extra - bm.size() - 2, 5)})); E(cat({q, rec(B({0}), 47, 1, 1, cat({ptr(12), bm}))})); }
		{ Bytes sv; app(sv, svc(7, pat(extra - 2 - 4, 5))); E(cat({q, rec(B({0}), 64, 1, 1, cat({be16(1), ptr(12), sv}))})); }
	}
	many_packets({100, 127, 128, 129, 255, 256, 257, 600, 1000, 4097, 5000});
	for (int n : {16384, 32768, 65535}) { if (n > 20000 && !thorough) break; Bytes same = hdr(0, n, 0, 0); for (int i = 0; i < n; i++) app(same, rec(B({0}), 1, 1, n - i, be32(i))); E(same); }
	E(cat({hdr(0, 65535, 65535, 65535), rep(0, 70000)})); E(cat({hdr(13000, 1, 0, 0), rep(0, 13000 * 5)})); E(cat({hdr(65535, 65535, 1, 1), rep(0, 65535 - 12)})); E(fillto(hdr(1, 1, 1, 1), 100000, 5));
}
// sequences of records in the sections
static void seqs(const std::vector<Bytes> &recs, size_t depth, int qcount, const Bytes &qs, std::initializer_list<int> secs) {
	for (size_t len = 1; len <= depth; len++) {
		size_t total = 1; for (size_t i = 0; i < len; i++) total *= recs.size();
		for (size_t k = 0; k < total; k++) {
			Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { app(b, recs[q % recs.size()]); q /= recs.size(); }
			for (int s : secs) E(cat({hdr(qcount, s == 1 ? len : 0, s == 2 ? len : 0, s == 3 ? len : 0), qs, b}));
		}
	}
}
static void grouping_packets() {
	std::vector<Bytes> nm = { wname({"a"}), wname({"A"}), wname({"b"}), B({0}), wname({"a", "B"}), wname({"A", "b"}) };
	auto R = [](const Bytes &n, int t, int c, uint32_t ttl, int v) { return rec(n, t, c, ttl, t == 1 && c == 1 ? B({v, 0, 0, 0}) : B({1, v})); };
	// owners, types and classes
	std::vector<Bytes> k1;
	for (int i : {0, 1, 2, 4, 5}) { k1.push_back(R(nm[i], 1, 1, 10 + i, 'x' + i)); k1.push_back(R(nm[i], 16, 1, 3, 'X' + i)); }
	k1.push_back(R(nm[0], 1, 3, 7, 'k')); k1.push_back(R(nm[1], 65280, 255, 7, 'k')); k1.push_back(R(nm[0], 1, 1, 10, 'x'));
	seqs(k1, thorough ? 6 : 5, 0, Bytes(), {1});
	seqs(k1, thorough ? 4 : 3, 1, ques(nm[0], 1, 1), {1, 2, 3});
	// TTLs
	std::vector<Bytes> k2;
	for (uint32_t t : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 256u}) { k2.push_back(R(nm[0], 16, 1, t, 1)); k2.push_back(R(nm[1], 16, 1, t, 2)); }
	seqs(k2, thorough ? 5 : 4, 0, Bytes(), {2});
	// case folding limits: every pair of octets as one-letter labels
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) E(cat({hdr(0, 2, 0, 0), R(B({1, a, 0}), 16, 1, 5, 1), R(B({1, b, 0}), 16, 1, 6, 2)}));
	// types and classes that differ in one bit, lengths that differ
	for (int b = 0; b < 16; b++) for (int t : {1, 16, 41, 65280}) { E(cat({hdr(0, 0, 3, 0), rec(nm[0], t, 5, 1, Bytes()), rec(nm[0], t ^ (1 << b), 5, 1, Bytes()), rec(nm[0], t, 5 ^ (1 << b), 1, Bytes())})); }
	for (int n = 1; n <= 63; n++) { Bytes x = rawname({rep('q', n)}), y = rawname({rep('Q', n)}), z = x, w = rawname({rep('q', n), S("q")}); z[n] = 'r'; E(cat({hdr(0, 5, 0, 0), R(x, 16, 1, 4, 1), R(z, 16, 1, 3, 2), R(y, 16, 1, 2, 3), R(w, 16, 1, 1, 4), R(x, 16, 1, 9, 5)})); }
	{ Bytes L = rawname({rep('x', 63), rep('x', 63), rep('x', 63), rep('x', 61)}); for (size_t i = 0; i < 255; i++) { if (L[i] != 'x') continue; for (int c : std::initializer_list<int>{'X', 'y', 'w', 'x' ^ 128}) { Bytes M = L; M[i] = c; E(cat({hdr(0, 0, 0, 3), R(L, 16, 1, 4, 1), R(M, 16, 1, 3, 2), R(L, 16, 1, 5, 3)})); } } }
	// label boundaries: same letters, different labels
	E(cat({hdr(0, 2, 0, 0), R(wname({"ab", "c"}), 16, 1, 1, 1), R(wname({"a", "bc"}), 16, 1, 1, 2)}));
	for (int n : {2, 66, 90}) E(cat({hdr(0, 2, 0, 0), R(rawname({rep('a', std::min(n, 63))}), 16, 1, 1, 1), R(rawname({rep('A', std::min(n, 63))}), 16, 1, 1, 2)}));
	// questions
	std::vector<Bytes> qs = { ques(nm[0], 1, 1), ques(nm[1], 1, 1), ques(nm[0], 2, 1), ques(nm[0], 1, 3), ques(nm[3], 41, 1), ques(nm[0], 41, 4096) };
	for (size_t len = 1; len <= (thorough ? 6u : 5u); len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= qs.size(); for (size_t k = 0; k < total; k++) { Bytes b; size_t q = k; for (size_t i = 0; i < len; i++) { app(b, qs[q % qs.size()]); q /= qs.size(); } E(cat({hdr(len, 0, 0, 0), b})); E(cat({hdr(len, 1, 0, 0), b, R(nm[0], 1, 1, 5, 1)})); } }
	// same record in several sections
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) { Bytes p = hdr(1, a, b, c); app(p, ques(nm[0], 1, 1)); for (int i = 0; i < a + b + c; i++) app(p, R(nm[i % 2], 1, 1, i, i)); E(p); }
}
static void opt_packets() {
	Bytes a = rec(wname({"a"}), 1, 1, 5, B({1, 2, 3, 4})), q = ques(wname({"a"}), 1, 1), qo = ques(B({0}), 41, 1232);
	auto O = [](int size, uint32_t ttl, const Bytes &o, Bytes nm = B({0})) { return rec(nm, 41, size, ttl, o); };
	std::vector<Bytes> al = { a, O(4096, 0x01008000, opt1(3, S("one"))), O(512, 0xff020001, Bytes()), O(0, 0x10ff1234, cat({opt1(10, pat(8, 5)), opt1(8, B({0, 1, 24, 0, 1, 2, 3}))}), wname({"N"})), rec(wname({"a"}), 16, 1, 1, B({1, 'x'})) };
	// placement: up to three records in each of the three sections
	size_t d = thorough ? 3 : 2;
	std::vector<std::pair<int, Bytes>> one = { {0, Bytes()} };
	for (size_t len = 1; len <= d; len++) { size_t total = 1; for (size_t i = 0; i < len; i++) total *= al.size(); for (size_t k = 0; k < total; k++) { Bytes b; size_t x = k; for (size_t i = 0; i < len; i++) { app(b, al[x % al.size()]); x /= al.size(); } one.push_back({(int)len, b}); } }
	for (auto &x : one) for (auto &y : one) for (auto &z : one) { E(cat({hdr(1, x.first, y.first, z.first, 0x8183), q, x.second, y.second, z.second})); if (x.first + y.first + z.first <= 3) E(cat({hdr(2, x.first, y.first, z.first, 0x8180), qo, q, x.second, y.second, z.second})); }
	seqs(al, thorough ? 7 : 5, 0, Bytes(), {3});
	for (auto &s : { qo, cat({qo, qo}) }) for (int ns = 0; ns < 3; ns++) E(cat({hdr(s.size() / qo.size(), 0, 0, ns), s, ns > 0 ? al[1] : Bytes(), ns > 1 ? al[2] : Bytes()}));
	// all field values
	for (int v = 0; v < 65536; v++) { E(cat({hdr(0, 0, 0, 1, v & 15), O(v, 0, Bytes())})); E(cat({hdr(0, 0, 0, 1, v), O(1232, (uint32_t)v << 16, Bytes())})); E(cat({hdr(0, 0, 0, 1, 0x8000), O(1232, v, opt1(v, Bytes()))})); }
	for (int r = 0; r < 16; r++) for (int x = 0; x < 256; x++) for (uint32_t lo : {0u, 0x00ffffffu}) { E(cat({hdr(0, 0, 0, 1, 0x8000 | r), O(1232, (uint32_t)x << 24 | lo, Bytes())})); E(cat({hdr(0, 0, 0, 2, 0x8000 | r), O(1232, (uint32_t)x << 24 | lo, Bytes()), O(1232, (uint32_t)(255 - x) << 24, Bytes())})); }
	for (auto &o : opts_full(false)) E(cat({hdr(0, 0, 0, 2), O(1232, 0x8000, o), a}));
	for (size_t n : {0, 1, 2, 3, 4, 5, 255, 256, 65534, 65535}) for (int k = 0; k < 6; k++) E(cat({hdr(0, 0, 0, 1), O(4096, 0, pat(n, k))}));
	for (size_t n : {100, 1000, 13107, 16383}) for (int l = 0; l < 2 && n * (4 + l) < 65536; l++) { Bytes o; for (size_t i = 0; i < n; i++) app(o, opt1(i, rep('o', l))); E(cat({hdr(0, 0, 1, 2), a, O(4096, 0x8000, o), O(512, 0, Bytes())})); }
	many_packets({100, 1000, 5000}, false);
}
static void text_packets() {
	Bytes nm = wname({"Www", "x y", "Z"}), q = ques(nm, 1, 1);
	// all flag words
	for (int f = 0; f < 65536; f++) E(cat({hdr(1, 0, 0, 0, f, 65535 - f), q}));
	// all types and classes
	for (int t = 0; t < 65536; t++) { E(cat({hdr(1, 1, 0, 0), ques(nm, t, t), rec(B({0}), t, 1, t, Bytes())})); E(cat({hdr(1, 0, 1, 0), ques(B({0}), 255, t), rec(nm, 65280, t, t * 65537u, B({t >> 8, t & 255}))})); }
	for (uint32_t x : {0u, 9u, 10u, 99u, 100u, 999u, 1000u, 9999u, 10000u, 99999u, 100000u, 999999u, 1000000u, 9999999u, 10000000u, 99999999u, 100000000u, 999999999u, 1000000000u, 2147483647u, 2147483648u, 4294967295u}) E(cat({hdr(0, 1, 1, 1), rec(nm, 1, 1, x, B({1, 2, 3, 4})), rec(nm, 1, 1, x, B({1, 2, 3, 4})), rec(nm, 1, 1, x, B({1, 2, 3, 4}))}));
	for (auto &n : names_full()) E(cat({hdr(1, 1, 1, 1), ques(n, 1, 1), rec(n, 5, 1, 1, n), rec(ptr(12), 2, 1, 2, ptr(12)), rec(n, 12, 3, 3, B({0}))}));
	for (int x = 0; x < 256; x++) for (int r = 0; r < 16; r++) E(cat({hdr(0, 0, 0, 1, 0x8000 | r), rec(B({0}), 41, 4096, (uint32_t)x << 24, Bytes())}));
	for (auto &o : opts_full(thorough)) for (uint32_t t : {0u, 0x8000u, 0x00ff7fffu}) E(cat({hdr(1, 0, 0, 1), q, rec(B({0}), 41, 4096, t, o)}));
	// options whose content does not fit, alone and before and behind a good one
	{ std::vector<Bytes> bad; Bytes good = opt1(3, S("ok"));
		for (int f : {0, 1, 2, 3, 255, 256, 258}) for (int n = 0; n <= 20; n++) bad.push_back(opt1(8, cat({be16(f), B({24, 9}), pat(n, 5)})));
		for (int k : {8, 15}) for (int n = 0; n < 4; n++) bad.push_back(opt1(k, sub(B({0, 1, 2, 3}), 0, n)));
		for (int k : {8, 15, 3}) for (int d : {1, 2, 5, 255}) { Bytes o = opt1(k, B({0, 1, 24, 0, 10, 20})); o[3] += d; bad.push_back(o); }
		for (int n = 1; n < 4; n++) bad.push_back(sub(opt1(3, Bytes()), 0, n));
		for (auto &o : bad) { E(cat({hdr(0, 0, 0, 1), rec(B({0}), 41, 1232, 0, o)})); E(cat({hdr(0, 0, 0, 1), rec(B({0}), 41, 1232, 0, cat({good, o}))})); E(cat({hdr(0, 0, 0, 1), rec(B({0}), 41, 1232, 0, cat({o, good}))})); E(cat({hdr(0, 0, 0, 2), rec(B({0}), 41, 1232, 0, good), rec(B({0}), 41, 1232, 0, o)})); } }
	for (int c = 0; c < 65536; c += 1) E(cat({hdr(0, 0, 0, 1), rec(B({0}), 41, c, (uint32_t)c << 8, Bytes())}));
	// two OPT records: the second one is an ordinary line
	E(cat({hdr(0, 1, 0, 1), rec(B({0}), 41, 1232, 0x8000, opt1(3, S("x"))), rec(B({0}), 41, 512, 5, opt1(3, S("y")))}));
	// record of every type in each section, grouped RRsets
	for (auto &l : REF_LAYOUT) { auto rs = small_rdatas(l, thorough ? 400 : 24); for (size_t i = 0; i < rs.size(); i++) { auto &r = rs[i], &r2 = rs[(i * 7 + 1) % rs.size()];
		E(cat({hdr(1, 3, 1, 2), q, rec(ptr(12), l.type, 1, 9, r), rec(wname({"wWW", "X y", "z"}), l.type, 1, 8, r2), rec(ptr(12), l.type, 3, 7, r), rec(B({0}), l.type, 1, 6, r), rec(ptr(16), l.type, 1, 5, r2), rec(ptr(12), l.type, 1, 4, r)})); } }
	std::vector<Bytes> al = { rec(nm, 1, 1, 5, B({1, 2, 3, 4})), rec(nm, 1, 1, 4, B({9, 9, 9, 9})), rec(wname({"www", "x y", "z"}), 1, 1, 3, B({0, 0, 0, 0})), rec(nm, 16, 1, 5, cat({lv(S("a\"b")), lv(Bytes())})), rec(nm, 65280, 255, 0xffffffff, B({0, 255})), rec(B({0}), 41, 4096, 0x8000, opt1(3, S("n"))), rec(nm, 1, 3, 1, B({7})) };
	seqs(al, thorough ? 5 : 4, 1, q, {1, 2, 3});
	seqs({ ques(nm, 1, 1), ques(B({0}), 255, 255), ques(nm, 300, 300), ques(B({0}), 41, 1) }, 4, 0, Bytes(), {});
	many_packets({100, 1000}); many_packets({5000}, false);
	for (size_t n : {100, 1000, 13107, 16383}) for (int l = 0; l < 2 && n * (4 + l) < 65536; l++) { Bytes o; for (size_t i = 0; i < n; i++) app(o, opt1(i, rep('o', l))); E(cat({hdr(0, 0, 0, 1), rec(B({0}), 41, 4096, 0x8000, o)})); }
	for (size_t n : {256, 4095, 4096, 16384, 65535}) for (int t : {16, 65280, 10}) { Bytes d = pat(n, 5); if (t == 16) { d.clear(); while (d.size() + 256 <= n) app(d, lv(pat(255, 5))); } E(cat({hdr(1, 2, 1, 1), q, rec(nm, t, 1, 1, d), rec(nm, t, 1, 2, B({1, 'x'})), rec(nm, t, 1, 2, d), rec(nm, 5, 1, 3, nm)})); }
	for (int n = 0; n <= 4; n++) for (int k = 0; k < 256; k++) { Bytes b; int x = k; for (int i = 0; i < n; i++) { b = cat({b, x % 4 == 0 ? ques(nm, 1, 1) : x % 4 == 1 ? ques(B({0}), 255, 255) : x % 4 == 2 ? ques(nm, 300, 300) : ques(B({0}), 41, 1)}); x /= 4; } E(cat({hdr(n, 0, 0, 0), b})); }
}

void mc::enumerate() {
	if (P("C01")) { short_packets(); type_packets(thorough ? 200 : 20); inner_packets(); compressed_packets(); opt_packets(); big_packets(); grouping_packets(); }
	else if (P("C03")) { short_packets(); type_packets(thorough ? 400 : 50); inner_packets(); compressed_packets(); big_packets(); for (auto &l : REF_LAYOUT) gen_rdatas(l, false, [&](const Bytes &r) { E(cat({hdr(0, 0, 1, 0), rec(wname({"Own"}), l.type, 1, 3, r)})); if (!r.empty() && r.size() < 300) E(cat({hdr(0, 0, 1, 0), rec(wname({"Own"}), l.type, 1, 3, sub(r, 0, r.size() - 1))})); }); }
	else if (P("C04")) { grouping_packets(); big_packets(); }
	else if (P("C05")) opt_packets();
	else text_packets();
}
