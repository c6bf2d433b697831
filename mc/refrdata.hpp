// Reference model of rdata: message parsing and presentation text, written from the RFCs, independent of wdns.
#pragma once
#include "refname.hpp"
#include "refcodes.hpp"
#include <arpa/inet.h>

enum Fld { fEnd, fName, fI8, fI16, fI32, fV4, fV6, fStr, fRep, fHex, fB64, fBStr, fPfx, fSalt, fHash, fType, fMap, fE48, fE64, fSvc, fOpt };
struct Lay { int type; bool in; Fld f[11]; };
static const Lay REF_LAYOUT[] = {
	{1, true, {fV4}}, {2, false, {fName}}, {3, false, {fName}}, {4, false, {fName}}, {5, false, {fName}},
	{6, false, {fName, fName, fI32, fI32, fI32, fI32, fI32}}, {7, false, {fName}}, {8, false, {fName}}, {9, false, {fName}},
	{10, false, {fHex}}, {11, true, {fI32, fI8, fHex}}, {12, false, {fName}}, {13, false, {fStr, fStr}}, {14, false, {fName, fName}},
	{15, false, {fI16, fName}}, {16, false, {fRep}}, {17, false, {fName, fName}}, {18, false, {fI16, fName}}, {19, false, {fStr}},
	{20, false, {fStr, fStr}}, {21, false, {fI16, fName}}, {24, false, {fI16, fI8, fI8, fI32, fI32, fI32, fI16, fName, fHex}},
	{26, true, {fI16, fName, fName}}, {28, true, {fV6}}, {30, false, {fName, fHex}}, {33, true, {fI16, fI16, fI16, fName}},
	{35, true, {fI16, fI16, fStr, fStr, fStr, fName}}, {36, true, {fI16, fName}}, {38, true, {fPfx, fName}}, {39, false, {fName}},
	{41, false, {fOpt}}, {43, false, {fI16, fI8, fI8, fHex}}, {46, false, {fType, fI8, fI8, fI32, fI32, fI32, fI16, fName, fB64}},
	{47, false, {fName, fMap}}, {48, false, {fI16, fI8, fI8, fB64}}, {50, false, {fI8, fI8, fI16, fSalt, fHash, fMap}},
	{51, false, {fI8, fI8, fI16, fSalt}}, {52, false, {fI8, fI8, fI8, fHex}}, {59, false, {fI16, fI8, fI8, fHex}},
	{60, false, {fI16, fI8, fI8, fB64}}, {61, false, {fB64}}, {62, false, {fI32, fI16, fMap}}, {64, true, {fI16, fName, fSvc}},
	{65, true, {fI16, fName, fSvc}}, {99, false, {fRep}}, {108, false, {fE48}}, {109, false, {fE64}}, {256, false, {fI16, fI16, fBStr}},
	{257, true, {fI8, fStr, fBStr}},
};
static inline const Lay *ref_layout(int type) {
	static const Lay *tab[512]; static bool init;
	if (!init) { for (auto &l : REF_LAYOUT) tab[l.type] = &l; init = true; }
	return type < 512 ? tab[type] : nullptr;
}
static inline bool ref_structured(int type, int cls) { auto l = ref_layout(type); return l && (!l->in || cls == 1); }

// SvcParamValue layout as the message parser must enforce it
static inline bool ref_svc_ok(int key, const uint8_t *v, size_t n) {
	switch (key) {
	case 0: return n % 2 == 0;
	case 1: { if (!n) return false; size_t o = 0; while (o < n) o += 1 + v[o]; return o == n; }
	case 2: return n == 0;
	case 3: return n == 2;
	case 4: return n % 4 == 0;
	case 6: return n % 16 == 0;
	case 65535: return false;
	}
	return true;
}

// rdata of a message record at m[off, off+rdlen): false if it must be refused, else out = decompressed rdata
static inline bool ref_parse_rdata(const uint8_t *m, size_t n, size_t off, size_t rdlen, int type, int cls, Bytes &out) {
	out.clear();
	size_t o = off, e = off + rdlen;
	if (!ref_structured(type, cls)) { out.assign(m + o, m + e); return true; }
	auto copy = [&](size_t k) { if (e - o < k) return false; out.insert(out.end(), m + o, m + o + k); o += k; return true; };
	Bytes nm;
	for (const Fld *f = ref_layout(type)->f; *f != fEnd && o < e; f++) {
		bool ok = true;
		switch (*f) {
		case fName: {
			size_t next = 0;
			if (!ref_unpack(m, n, o, nm, &next) || next > e) return false;
			app(out, nm); o = next;
			break;
		}
		case fHex: case fB64: case fBStr: case fOpt: ok = copy(e - o); break;
		case fI8: ok = copy(1); break;
		case fI16: case fType: ok = copy(2); break;
		case fI32: case fV4: ok = copy(4); break;
		case fV6: ok = copy(16); break;
		case fE48: ok = copy(6); break;
		case fE64: ok = copy(8); break;
		case fStr: case fSalt: case fHash: ok = copy(1 + m[o]); break;
		case fRep: while (ok && o < e) ok = copy(1 + m[o]); break;
		case fPfx: if (m[o] > 128) return false; ok = copy(1 + (128 - m[o] + 7) / 8); break;
		case fMap:
			while (e - o >= 2) { unsigned l = m[o + 1]; if (l < 1 || l > 32 || !copy(2 + l)) return false; }
			break;
		case fSvc:
			while (o < e) {
				if (e - o < 4) return false;
				int key = m[o] * 256 + m[o + 1]; size_t l = m[o + 2] * 256 + m[o + 3];
				if (e - o < 4 + l || !ref_svc_ok(key, m + o + 4, l)) return false;
				copy(4 + l);
			}
			break;
		case fEnd: break;
		}
		if (!ok) return false;
	}
	return o == e && out.size() <= 65535;
}
// may a message record of that type and class carry exactly these (decompressed) octets?
static inline bool ref_carriable(const Bytes &r, int type, int cls) {
	Bytes out;
	if (!ref_parse_rdata(r.data(), r.size(), 0, r.size(), type, cls, out)) return false;
	return out == r;
}

static inline void put(Bytes &o, const char *s) { o.insert(o.end(), s, s + strlen(s)); }
static inline void putnum(Bytes &o, uint64_t v) { char t[24]; snprintf(t, sizeof t, "%llu", (unsigned long long)v); put(o, t); }
static inline void puthex(Bytes &o, const uint8_t *p, size_t n, bool upper) {
	const char *d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
	for (size_t i = 0; i < n; i++) { o.push_back(d[p[i] >> 4]); o.push_back(d[p[i] & 15]); }
}
static inline void putchr(Bytes &o, uint8_t c) { // character of a character-string
	if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); }
	else if (c >= 32 && c <= 126) o.push_back(c);
	else { char t[8]; snprintf(t, sizeof t, "\\%03u", c); put(o, t); }
}
static inline void putquoted(Bytes &o, const uint8_t *p, size_t n) { o.push_back('"'); for (size_t i = 0; i < n; i++) putchr(o, p[i]); o.push_back('"'); }
static inline void putb64(Bytes &o, const uint8_t *p, size_t n) {
	const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
		o.push_back(d[v >> 18]); o.push_back(d[v >> 12 & 63]);
		o.push_back(i + 1 < n ? d[v >> 6 & 63] : '='); o.push_back(i + 2 < n ? d[v & 63] : '=');
	}
}
static inline void putb32(Bytes &o, const uint8_t *p, size_t n) {
	const char *d = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
	uint32_t acc = 0; int bits = 0;
	for (size_t i = 0; i < n; i++) { acc = (acc << 8 | p[i]) & 0xffff; bits += 8; while (bits >= 5) { bits -= 5; o.push_back(d[acc >> bits & 31]); } }
	if (bits) o.push_back(d[acc << (5 - bits) & 31]);
}
static inline void putaddr(Bytes &o, int af, const uint8_t *p) { char t[64]; inet_ntop(af, p, t, sizeof t); put(o, t); }
static inline void puttype(Bytes &o, int t) { t &= 65535; const char *s = ref_type_name(t); if (s) put(o, s); else { char b[16]; snprintf(b, sizeof b, "TYPE%d", t); put(o, b); } }
static inline void putkey(Bytes &o, int k) {
	static const char *names[] = { "mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint" };
	if (k < 7) put(o, names[k]); else { char b[16]; snprintf(b, sizeof b, "key%d", k); put(o, b); }
}

enum Verdict { V_WELL,   // complete and well-formed: text is exactly known
	       V_FLAG,   // must carry a PARSE ERROR marker
	       V_OTHER };// anything safe (but carriable octets are never flagged)

// presentation text of rdata. out is meaningful for V_WELL only.
static inline Verdict ref_render(const Bytes &r, int type, int cls, Bytes &out, bool *generic = nullptr) {
	out.clear();
	const Lay *l = ref_layout(type);
	bool gen = !ref_structured(type, cls);     // RFC 3597: also for types known in another class only
	if (generic) *generic = gen;
	if (gen) {
		put(out, "\\# "); putnum(out, r.size());
		for (uint8_t c : r) { out.push_back(' '); puthex(out, &c, 1, false); }
		return V_WELL;
	}
	const uint8_t *p = r.data(), *e = p + r.size();
	bool well = true;   // complete and unambiguous so far
	auto sp = [&] { if (!out.empty() && out.back() != ' ') out.push_back(' '); };
	#define NEED(k) do { if ((size_t)(e - p) < (size_t)(k)) return V_FLAG; } while (0)
	bool endofrec = false;
	for (const Fld *f = l->f; *f != fEnd; f++) {
		if (p == e) {
			// nothing left: fine for fields that may be empty, otherwise the record is incomplete
			if (*f == fHex || *f == fB64 || *f == fMap || *f == fSvc || *f == fOpt) continue;
			if (endofrec) continue;
			well = false; continue;
		}
		switch (*f) {
		case fName: {
			int n = ref_len_uname(p, e - p);
			if (n < 0) return V_FLAG;
			if (endofrec) well = false;
			sp(); ref_name_text_append(out, p, n); p += n;
			break;
		}
		case fI8: NEED(1); sp(); putnum(out, *p); p += 1; break;
		case fI16: NEED(2); sp(); putnum(out, p[0] * 256 + p[1]); p += 2; break;
		case fI32: NEED(4); sp(); putnum(out, (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]); p += 4; break;
		case fV4: NEED(4); sp(); putaddr(out, AF_INET, p); p += 4; break;
		case fV6: NEED(16); sp(); putaddr(out, AF_INET6, p); p += 16; break;
		case fStr: NEED(1 + *p); sp(); putquoted(out, p + 1, *p); p += 1 + *p; break;
		case fRep: while (p < e) { NEED(1 + *p); sp(); putquoted(out, p + 1, *p); p += 1 + *p; } break;
		case fHex: sp(); puthex(out, p, e - p, true); p = e; break;
		case fB64: sp(); putb64(out, p, e - p); p = e; break;
		case fBStr: sp(); putquoted(out, p, e - p); p = e; break;
		case fPfx: {
			if (*p > 128) return V_FLAG;
			unsigned pl = *p, k = (128 - pl + 7) / 8; NEED(1 + k);
			sp(); putnum(out, pl);
			uint8_t a[16] = {0}; memcpy(a + 16 - k, p + 1, k);
			if (k) { sp(); putaddr(out, AF_INET6, a); }
			if (pl == 0) endofrec = true;     // RFC 2874: no name follows prefix length zero
			p += 1 + k;
			break;
		}
		case fSalt: NEED(1 + *p); sp(); if (!*p) out.push_back('-'); else puthex(out, p + 1, *p, false); p += 1 + *p; break;
		case fHash: NEED(1 + *p); sp(); if (!*p) out.push_back('0'); else putb32(out, p + 1, *p); p += 1 + *p; break;
		case fType: NEED(2); sp(); puttype(out, p[0] * 256 + p[1]); p += 2; break;
		case fE48: case fE64: {
			int k = *f == fE48 ? 6 : 8; NEED(k); sp();
			for (int i = 0; i < k; i++) { if (i) out.push_back('-'); puthex(out, p + i, 1, false); }
			p += k;
			break;
		}
		case fMap: {
			int last = -1;
			while (p < e) {
				if (e - p < 2) return V_OTHER;
				int w = p[0], n = p[1];
				if (e - p < 2 + n) return V_OTHER;
				if (n < 1 || n > 32 || w <= last) well = false;
				last = w;
				for (int i = 0; i < n; i++) for (int b = 0; b < 8; b++) if (p[2 + i] & (0x80 >> b)) { sp(); puttype(out, w * 256 + i * 8 + b); }
				p += 2 + n;
			}
			break;
		}
		case fSvc:
			while (p < e) {
				NEED(4);
				int k = p[0] * 256 + p[1]; size_t n = p[2] * 256 + p[3];
				p += 4; NEED(n);
				if (!ref_svc_ok(k, p, n)) return V_FLAG;
				sp(); putkey(out, k);
				if (k != 2) out.push_back('=');
				if (n == 0 && (k == 0 || k == 4 || k == 5 || k == 6)) well = false;
				switch (k) {
				case 0: for (size_t i = 0; i < n; i += 2) { int q = p[i] * 256 + p[i + 1]; if (q == 65535) well = false; if (i) out.push_back(','); putkey(out, q); } break;
				case 1:
					out.push_back('"');
					for (size_t i = 0; i < n; i += 1 + p[i]) {
						if (i) out.push_back(',');
						if (p[i] == 0) well = false;
						for (int j = 1; j <= p[i]; j++) {
							uint8_t c = p[i + j];
							if (c == '\\') put(out, "\\\\\\\\");
							else if (c == ',') put(out, "\\\\,");
							else putchr(out, c);
						}
					}
					out.push_back('"');
					break;
				case 2: break;
				case 3: putnum(out, p[0] * 256 + p[1]); break;
				case 4: for (size_t i = 0; i < n; i += 4) { if (i) out.push_back(','); putaddr(out, AF_INET, p + i); } break;
				case 5: putb64(out, p, n); break;
				case 6: for (size_t i = 0; i < n; i += 16) { if (i) out.push_back(','); putaddr(out, AF_INET6, p + i); } break;
				default: putquoted(out, p, n);
				}
				p += n;
			}
			break;
		case fOpt: {
			bool first = true;
			auto graph = [&](const uint8_t *q, size_t n) { for (size_t i = 0; i < n; i++) out.push_back(q[i] >= 32 && q[i] <= 126 ? q[i] : '.'); };
			while (p < e) {
				NEED(4);
				int k = p[0] * 256 + p[1]; size_t n = p[2] * 256 + p[3];
				p += 4; NEED(n);
				if (!first) out.push_back('\n');
				first = false;
				if (k == 8) {
					if (n < 4) return V_FLAG;
					int fam = p[0] * 256 + p[1];
					if ((fam != 1 && fam != 2) || n - 4 > (fam == 1 ? 4u : 16u)) return V_OTHER;
					uint8_t a[16] = {0}; memcpy(a, p + 4, n - 4);
					put(out, "CLIENT-SUBNET: "); putaddr(out, fam == 1 ? AF_INET : AF_INET6, a);
					out.push_back('/'); putnum(out, p[2]); out.push_back('/'); putnum(out, p[3]);
				} else if (k == 15) {
					if (n < 2) return V_FLAG;
					static const char *why[] = { "Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer", "Forged Answer",
						"DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing", "RRSIGs Missing",
						"No Zone Key Bit Set", "NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored", "Filtered", "Prohibited",
						"Stale NXDomain Answer", "Not Authoritative", "Not Supported", "No Reachable Authority", "Network Error", "Invalid Data" };
					int code = p[0] * 256 + p[1];
					put(out, "EDE: "); putnum(out, code);
					if (code < 25) { put(out, " ("); put(out, why[code]); put(out, ")"); }
					put(out, ": ("); graph(p + 2, n - 2); put(out, ")");
				} else {
					put(out, "OPT="); putnum(out, k); put(out, ": ");
					for (size_t i = 0; i < n; i++) { puthex(out, p + i, 1, false); out.push_back(' '); }
					put(out, "(\""); graph(p, n); put(out, "\")");
				}
				p += n;
			}
			break;
		}
		case fEnd: break;
		}
	}
	#undef NEED
	if (p != e) return V_OTHER;    // trailing octets: unspecified
	return well ? V_WELL : V_OTHER;
}

// canonical form for comparison: type bitmaps without trailing zero octets or empty windows
static inline Bytes ref_canon(const Bytes &r, int type, int cls) {
	if ((type != 47 && type != 50 && type != 62) || !ref_structured(type, cls)) return r;
	const Lay *l = ref_layout(type); const uint8_t *p = r.data(), *e = p + r.size();
	for (const Fld *f = l->f; *f != fEnd && *f != fMap && p < e; f++)
		switch (*f) {
		case fName: { int n = ref_len_uname(p, e - p); if (n < 0) return r; p += n; break; }
		case fI8: p += 1; break; case fI16: p += 2; break; case fI32: p += 4; break;
		default: p += 1 + *p;
		}
	if (p > e) return r;
	Bytes o(r.data(), p);
	while (e - p >= 2 && e - p >= 2 + p[1]) {
		int n = p[1]; while (n && !p[1 + n]) n--;
		if (n) { o.push_back(p[0]); o.push_back(n); o.insert(o.end(), p + 2, p + 2 + n); }
		p += 2 + p[1];
	}
	o.insert(o.end(), p, e);
	return o;
}
